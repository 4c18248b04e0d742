// C32: build options do not change what files mean
#include "engine.hpp"
#include "indep.hpp"
#include "model.hpp"

#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <iterator>

using namespace model;
using pbt::Ctx;
using pbt::fail;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   std::string slurp( const std::string &path )
   {
      std::ifstream f( path, std::ios::binary );
      return std::string( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() );
   }

   // what a verbose library prints is formatted, but goes nowhere
   struct Nowhere : std::streambuf
   {
      int overflow( int c ) override { return c == EOF ? 0 : c; }
      std::streamsize xsputn( const char *, std::streamsize n ) override { return n; }
   };
   struct Silence
   {
      Nowhere n;
      std::streambuf *was;
      Silence() : was( std::cout.rdbuf( &n ) ) {}
      ~Silence() { std::cout.rdbuf( was ); }
   };

   // performs something again with the same choices
   template <class F> void replay( Ctx &ctx, const std::vector<uint64_t> &choices, const std::string &dir, F f )
   {
      std::filesystem::remove_all( dir );
      std::filesystem::create_directory( dir );
      std::vector<uint64_t> record( choices.size() + 64 );
      uint64_t count = 0;
      Src src( record.data(), &count, record.size() );
      src.replayMode( choices );
      Ctx sub( src );
      sub.dir = dir;
      sub.index = ctx.index;
      f( sub );
      if ( count != choices.size() )
         throw pbt::HarnessError( "other choices" );
   }

   std::string shorten( const std::string &t ) { return t.size() > 300 ? t.substr( 0, 300 ) + "..." : t; }
   std::string difference( const std::string &a, const std::string &b )
   {
      size_t at = 0, line = 0;
      for ( size_t i = 0; i < a.size() && i < b.size() && a[i] == b[i]; ++i )
         if ( a[i] == '\n' )
            at = line = i + 1;
      return shorten( b.substr( line, b.find( '\n', at ) - line ) ) + " instead of " + shorten( a.substr( line, a.find( '\n', at ) - line ) );
   }

   std::vector<std::string> names( bool verbose )
   {
      std::vector<std::string> n;
      for ( auto &c : pbt::configs() )
         if ( c.first != "main" && ( verbose || c.first != "verbose" ) )
            n.push_back( c.first );
      return n;
   }

   void files( Ctx &ctx, bool verbose )
   {
      Src &s = ctx.s;
      auto &conf = pbt::configs();
      const std::string ref = ctx.dir + "/main.e57";
      const bool foreign = s.chance( 1, 4 );
      std::vector<std::string> all{ ref };
      if ( foreign )
      {
         // valid files with a layout the library would not write
         TreeOpts o;
         o.maxNodes = 1 + static_cast<unsigned>( s.below( 16 ) );
         o.maxDepth = 4;
         o.maxRecBytes = 8000;
         o.maxBlob = 3000;
         MN root = genTree( s, o );
         if ( s.flip() )
         {
            MN cv = genCV( s, o );
            cv.name = "zzrec";
            root.kids.push_back( std::move( cv ) );
         }
         ctx.say( show( root, false ) );
         ctx.label( "foreign layout" );
         indep::Layout l;
         l.shuffle = s.flip();
         l.gaps = s.flip();
         l.packets = s.chance( 2, 3 );
         l.xmlStyle = s.flip();
         l.spellings = s.flip();
         l.pad = s.flip();
         const indep::Encoded e = indep::encode( s, root, {}, l );
         std::ofstream( ref, std::ios::binary ).write( e.physical.data(), static_cast<std::streamsize>( e.physical.size() ) );
      }
      else
      {
         const uint64_t from = s.used();
         std::string err = conf["main"].write( ctx, ref );
         if ( !err.empty() )
            fail( "writing: " + err );
         const std::vector<uint64_t> choices = s.taken( from );
         const std::string bytes = slurp( ref );
         for ( auto &name : names( verbose ) )
         {
            const std::string path = ctx.dir + "/" + name + ".e57";
            replay( ctx, choices, ctx.dir + "/r", [&]( Ctx &sub ) { err = conf[name].write( sub, path ); } );
            ++ctx.evals;
            if ( !err.empty() )
               fail( "writing fails in configuration " + name + " only: " + err );
            if ( name == "crazy" )
               all.push_back( path );
            else if ( slurp( path ) != bytes )
               fail( "the file written in configuration " + name + " has other bytes" );
         }
         ctx.nontrivial = bytes.size() > 1024;
      }
      for ( const bool high : { false, true } )
      {
         const std::string content = conf["main"].read( ref, high );
         if ( foreign )
            ctx.nontrivial = !high && content.size() > 100;
         if ( !high && content.compare( 0, 6, "error " ) == 0 )
            fail( "reading: " + content );
         for ( auto &path : all )
            for ( auto &c : conf )
            {
               if ( ( c.first == "main" && path == ref ) || ( c.first == "verbose" && !verbose ) )
                  continue;
               const std::string got = c.second.read( path, high );
               ++ctx.evals;
               if ( got != content )
                  fail( sprintf_( "configuration %s delivers other content of %s (%s): %s", c.first.c_str(), path == ref ? "the file" : "the file with stress packets",
                                  high ? "high-level" : "core", difference( content, got ).c_str() ) );
            }
      }
   }

   void uses( Ctx &ctx, bool verbose )
   {
      Src &s = ctx.s;
      static const std::vector<std::string> ids = { "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12",
                                                    "C13", "C14", "C15", "C25", "C27", "C28", "C29", "C30", "C31" };
      const std::string id = s.pick( ids );
      const std::vector<std::string> n = names( verbose );
      std::string which = s.pick( n );
      // (with small packets, its blobs that are created during record writing meet the open finding)
      if ( id == "C06" && which == "crazy" )
         which = "v0";
      ctx.say( "session of " + id + " in configuration " + which + "\n" );
      ctx.label( id );
      const auto find = [&]( const std::vector<pbt::PropDef> &v ) -> void ( * )( Ctx & ) {
         for ( auto &d : v )
            if ( id == d.id )
               return d.fn;
         throw pbt::HarnessError( "no such check" );
      };
      const auto fn = find( pbt::registry() ), other = find( pbt::configs()[which].checks );
      const uint64_t from = s.used();
      {
         const std::string dir = ctx.dir + "/m";
         std::filesystem::create_directory( dir );
         Ctx sub( s );
         sub.dir = dir;
         sub.index = ctx.index;
         try
         {
            fn( sub );
         }
         catch ( const pbt::Violation & )
         {
            ctx.label( "violation of the other property" );
            return;
         }
         ctx.say( sub.desc );
         ctx.nontrivial = sub.nontrivial;
      }
      ++ctx.evals;
      try
      {
         replay( ctx, s.taken( from ), ctx.dir + "/r", other );
      }
      catch ( const pbt::Violation &v )
      {
         fail( "in configuration " + which + " only: " + v.what() );
      }
   }

   void c32( Ctx &ctx )
   {
      Src &s = ctx.s;
      const Silence silence;
      const bool verbose = s.chance( 1, 16 );
      if ( verbose )
         ctx.label( "with verbose" );
      if ( s.flip() )
         uses( ctx, verbose );
      else
         files( ctx, verbose );
   }

   pbt::Reg r32( { "C32",
                   c32,
                   4000,
                   40000,
                   "exploration",
                   "the file has more than one page, or the session counts by the rule of the check it is taken from",
                   { "configurations: validation 0 (NDEBUG, -O2, no diagnostics), 1, 2, stress packets, verbose" } } );
}
