// Writing and reading with one build configuration.
#include "../high.hpp"
#include "../session.hpp"
#include "../trace.hpp"

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::Src;

namespace
{
   // the same choices give the same session in every configuration
   std::string write( Ctx &ctx, const std::string &path )
   {
      Src &s = ctx.s;
      try
      {
         const bool large = s.chance( 1, 8 );
         if ( s.chance( 1, 3 ) )
         {
            const HighSession high = drawHigh( s, large ? 1500 : 80, large ? 70000 : 3000 );
            ctx.say( high.show() );
            ctx.label( "high-level API" );
            high.write( path );
            return "";
         }
         TreeOpts o;
         o.maxNodes = 1 + static_cast<unsigned>( s.below( 16 ) );
         o.maxDepth = 4;
         o.maxRecBytes = large ? 300000 : 8000;
         o.maxBlob = large ? 70000 : 3000;
         MN root = genTree( s, o );
         if ( s.chance( 1, 30 ) )
            o.minLeaves = s.pick<unsigned>( { 30, 245, 300 } ); // packets with long headers
         for ( uint64_t k = s.below( 3 ); k; --k )
         {
            MN cv = genCV( s, o );
            cv.name = pbt::sprintf_( "zzrec%d", (int)k );
            root.kids.push_back( std::move( cv ) );
         }
         const Exts exts;
         ctx.say( show( root, false ) );
         ctx.label( "core API" );
         Session( root, exts, s.bits() ).write( path );
         return "";
      }
      catch ( const e57::E57Exception &e )
      {
         return what( e );
      }
   }

   std::string read( const std::string &path, bool high )
   {
      try
      {
         if ( high )
         {
            size_t errors = 0;
            e57::Reader r( path, e57::ReaderOptions{} );
            return dumpHigh<double>( r, errors );
         }
         e57::ImageFile imf( path, "r" );
         TraceOpts o;
         o.retries = 0;
         o.capacity = 300;
         Tracer t( o );
         t.file( imf );
         imf.close();
         return t.out;
      }
      catch ( const e57::E57Exception &e )
      {
         return "error " + what( e );
      }
   }

   struct Entry
   {
      Entry()
      {
         pbt::Build &c = pbt::configs()[VARIANT_NAME];
         c.write = write;
         c.read = read;
      }
   } entry;
}
