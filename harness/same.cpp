// C24: the bytes of a file are determined by the calls that wrote it
#include "high.hpp"
#include "session.hpp"
#include "trace.hpp"
#include "vary.hpp"

#include <cstring>
#include <fstream>
#include <iterator>
#include <locale>
#include <sys/stat.h>
#include <unistd.h>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::Prng;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   std::string slurp( const std::string &path )
   {
      std::ifstream f( path, std::ios::binary );
      return std::string( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() );
   }
   void spew( const std::string &path, const std::string &b )
   {
      std::ofstream f( path, std::ios::binary | std::ios::trunc );
      f.write( b.data(), static_cast<std::streamsize>( b.size() ) );
   }

   struct Odd : std::numpunct<char>
   {
      char do_decimal_point() const override { return ','; }
      char do_thousands_sep() const override { return '.'; }
      std::string do_grouping() const override { return "\2\1"; }
      std::string do_truename() const override { return "ja"; }
   };

   // Other files that are used in between
   struct Others
   {
      std::string dir;
      Prng p;
      unsigned made = 0, done = 0;
      std::unique_ptr<e57::ImageFile> w, r;
      std::string last;
      std::vector<std::unique_ptr<e57::CompressedVectorWriter>> writer;
      std::vector<double> x;
      std::string bad;

      Others( const std::string &d, uint64_t seed ) : dir( d ), p( seed ), x( 40, 0.5 ) {}

      void op()
      {
         try
         {
            step();
            ++done;
         }
         catch ( const e57::E57Exception &e )
         {
            if ( bad.empty() )
               bad = "using another file in between: " + what( e );
         }
      }
      void step()
      {
         if ( !w )
         {
            last = sprintf_( "%s/other%u.e57", dir.c_str(), made++ );
            w.reset( new e57::ImageFile( last, "w" ) );
            return;
         }
         if ( !writer.empty() )
         {
            if ( p.below( 3 ) )
               writer[0]->write( 1 + p.below( x.size() ) );
            else
            {
               writer[0]->close();
               writer.clear();
            }
            return;
         }
         e57::StructureNode root = w->root();
         const std::string name = sprintf_( "e%lld", (long long)root.childCount() );
         switch ( p.below( 8 ) )
         {
            case 0: root.set( name, e57::StringNode( *w, std::string( p.below( 300 ), 'q' ) ) ); break;
            case 1: root.set( name, e57::FloatNode( *w, static_cast<double>( p.next() ) * 1e-7 ) ); break;
            case 2:
            {
               e57::BlobNode b( *w, static_cast<int64_t>( 1 + p.below( 3000 ) ) );
               root.set( name, b );
               uint8_t d[1] = { 77 };
               b.write( d, 0, 1 );
               break;
            }
            case 3:
            case 4:
            {
               e57::StructureNode proto( *w );
               proto.set( "a", e57::FloatNode( *w ) );
               e57::CompressedVectorNode cv( *w, proto, e57::VectorNode( *w, true ) );
               root.set( name, cv );
               std::vector<e57::SourceDestBuffer> b;
               b.emplace_back( *w, "a", x.data(), x.size() );
               writer.emplace_back( new e57::CompressedVectorWriter( cv.writer( b ) ) );
               break;
            }
            case 5:
               w->close();
               w.reset();
               r.reset( new e57::ImageFile( last, "r" ) );
               break;
            case 6:
               if ( r )
               {
                  TraceOpts o;
                  o.retries = 0;
                  Tracer t( o );
                  t.file( *r );
               }
               break;
            default:
               w->cancel();
               w.reset();
               break;
         }
      }
   };

   // with the identifiers made by the library wiped out
   std::string wiped( const std::string &bytes )
   {
      std::string b;
      for ( size_t at = 0; at < bytes.size(); at += 1024 )
         b += bytes.substr( at, 1020 );
      // what follows the XML section is a rest of the page before, possibly with a part of an identifier
      uint64_t xml = 0, n = 0;
      if ( bytes.size() > 48 )
      {
         memcpy( &xml, &bytes[24], 8 );
         memcpy( &n, &bytes[32], 8 );
      }
      b.resize( std::min<uint64_t>( b.size(), xml / 1024 * 1020 + xml % 1024 + n ) );
      for ( size_t i = 0; i + 38 <= b.size(); ++i )
      {
         if ( b[i] != '{' || b[i + 37] != '}' )
            continue;
         bool guid = true;
         for ( size_t j = 1; guid && j < 37; ++j )
            guid = j == 9 || j == 14 || j == 19 || j == 24 ? b[i + j] == '-' : isxdigit( static_cast<unsigned char>( b[i + j] ) ) != 0;
         if ( guid )
            std::fill( b.begin() + static_cast<long>( i ) + 1, b.begin() + static_cast<long>( i ) + 37, '#' );
      }
      return b;
   }

   struct Env
   {
      std::string path;
      int before = 0; // 0 no file, 1 other bytes, 2 an E57 file, 3 a longer one with the same beginning
      int memory = -1;
      bool locale = false, others = false, relative = false;
      int stack = -1;
      int64_t clock = 0;
      uint64_t seed = 0;
      std::string show() const
      {
         return sprintf_( "  at %s%s, before %d, memory %d, stack %d, locale %d, others %d, clock %+lld\n", path.c_str(), relative ? " (relative)" : "", before,
                          memory, stack, locale, others, (long long)clock );
      }
   };

   void c24( Ctx &ctx )
   {
      Src &s = ctx.s;
      const bool large = s.chance( 1, 12 );
      const bool isHigh = s.chance( 1, 3 );
      MN root;
      Exts exts;
      HighSession high;
      bool guids = false;
      if ( isHigh )
      {
         high = drawHigh( s, large ? 400 : 60, large ? 30000 : 3000 );
         guids = s.chance( 1, 3 );
         if ( guids )
         {
            high.opt.guid.clear();
            for ( auto &c : high.scans )
               c.head.guid.clear();
            for ( auto &i : high.images )
               i.head.guid.clear();
         }
         ctx.say( high.show() );
      }
      else
      {
         TreeOpts o;
         o.maxNodes = 1 + static_cast<unsigned>( s.below( 14 ) );
         o.maxDepth = 4;
         o.maxRecBytes = large ? 150000 : 6000;
         o.maxBlob = large ? 30000 : 3000;
         root = genTree( s, o );
         if ( s.flip() )
         {
            MN cv = genCV( s, o );
            cv.name = "zzrec";
            root.kids.push_back( std::move( cv ) );
         }
         ctx.say( show( root, false ) );
      }
      const Session core( root, exts, s.bits() );
      char cwd[4096];
      if ( !getcwd( cwd, sizeof cwd ) || chdir( ctx.dir.c_str() ) )
         throw pbt::HarnessError( "chdir" );

      std::string first;
      unsigned performed = 0;
      const auto perform = [&]( const Env &e ) {
         const std::string full = ctx.dir + "/" + e.path;
         if ( e.before == 1 )
         {
            std::string junk( 1 + Prng( e.seed ).below( 9000 ), 'J' );
            spew( full, junk );
         }
         else if ( e.before == 2 )
         {
            e57::ImageFile f( full, "w" );
            f.root().set( "old", e57::StringNode( f, "old content" ) );
            f.close();
         }
         else if ( e.before == 3 )
            spew( full, first + first + "tail" );
         Others others( ctx.dir, e.seed );
         Prng p( e.seed + 1 );
         std::locale was;
         if ( e.locale )
            was = std::locale::global( std::locale( std::locale::classic(), new Odd ) );
         std::vector<std::unique_ptr<char[]>> holes; // moves what is allocated afterwards
         for ( uint64_t k = p.below( 20 ); k; --k )
            holes.emplace_back( new char[1 + p.below( 5000 )] );
         holes.resize( holes.size() / 2 );
         vary::clock( e.clock );
         vary::memory( e.memory );
         if ( e.stack >= 0 || e.others )
            between() = [&] {
               if ( e.others && p.below( 2 ) )
                  others.op();
               if ( e.stack >= 0 )
                  vary::stack( static_cast<unsigned char>( e.stack ) );
            };
         std::string err;
         try
         {
            tick();
            const std::string &name = e.relative ? e.path : full;
            isHigh ? high.write( name ) : core.write( name );
         }
         catch ( const e57::E57Exception &x )
         {
            err = what( x );
         }
         between() = nullptr;
         vary::memory( -1 );
         vary::clock( 0 );
         if ( e.locale )
            std::locale::global( was );
         if ( !err.empty() )
            fail( "writing: " + err );
         if ( !others.bad.empty() )
            fail( others.bad );
         ++performed;
         const std::string got = slurp( full );
         return guids ? wiped( got ) : got;
      };
      Env base;
      base.path = "a.e57";
      first = perform( base );
      const int rounds = ctx.thorough ? 6 : 3;
      for ( int k = 0; k < rounds; ++k )
      {
         Env e;
         static const char *names[] = { "a.e57", "b", "a much longer name of a file with spaces.e57", "\xC3\xA4\xE2\x82\xAC.e57", "sub/deep/c.e57", "x.E57.tmp" };
         e.path = names[s.below( 6 )];
         if ( e.path[0] == 's' )
         {
            mkdir( ( ctx.dir + "/sub" ).c_str(), 0777 );
            mkdir( ( ctx.dir + "/sub/deep" ).c_str(), 0777 );
         }
         e.before = static_cast<int>( s.below( 4 ) );
         if ( e.before == 0 )
            ::unlink( ( ctx.dir + "/" + e.path ).c_str() );
         e.memory = s.chance( 1, 4 ) ? -1 : s.pick( { 0, 255, 0x55, 0xAA, 1, 0x7F } );
         e.stack = s.chance( 1, 3 ) ? -1 : static_cast<int>( s.below( 256 ) );
         e.locale = s.chance( 1, 4 );
         e.others = s.chance( 1, 3 );
         e.relative = s.flip();
         e.clock = s.chance( 1, 3 ) ? static_cast<int64_t>( s.below( 2000000000 ) ) - 500000000 : 0;
         e.seed = s.bits();
         ctx.say( e.show() );
         const std::string again = perform( e );
         if ( again != first )
         {
            size_t at = 0;
            while ( at < again.size() && at < first.size() && again[at] == first[at] )
               ++at;
            fail( sprintf_( "repeating the calls gives %zu instead of %zu bytes, first difference at %zu: %s instead of %s", again.size(), first.size(), at,
                            showStr( again.substr( at > 20 ? at - 20 : 0, 60 ) ).c_str(), showStr( first.substr( at > 20 ? at - 20 : 0, 60 ) ).c_str() ) );
         }
         ++ctx.evals;
      }
      if ( chdir( cwd ) )
         throw pbt::HarnessError( "chdir back" );
      ctx.nontrivial = first.size() > 1024;
      ctx.label( isHigh ? guids ? "high-level API, identifiers generated" : "high-level API" : "core API" );
   }

   pbt::Reg r24( { "C24",
                   c24,
                   10000,
                   60000,
                   "exploration",
                   "the file has more than one page",
                   { "fresh memory is what operator new gives and 48 KiB of unused stack", "identifiers generated by the library are recognised by their form" } } );
}
