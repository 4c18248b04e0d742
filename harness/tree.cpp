// Element trees: write/read cycles, numbers, text (C07-C09).
#include "lib.hpp"

#include <clocale>
#include <fstream>
#include <iterator>
#include <locale>
#include <set>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   std::string slurp( const std::string &path )
   {
      std::ifstream f( path, std::ios::binary );
      return std::string( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() );
   }

   std::string firstByteDiff( const std::string &a, const std::string &b )
   {
      size_t i = 0;
      while ( i < a.size() && i < b.size() && a[i] == b[i] )
         ++i;
      const size_t from = i < 30 ? 0 : i - 30;
      return sprintf_( "sizes %zu and %zu, first difference at %zu: %s <-> %s", a.size(), b.size(), i,
                       showStr( a.substr( from, 60 ) ).c_str(), showStr( b.substr( from, 60 ) ).c_str() );
   }

   // ------------------------------------------------------------------ C07

   // Builds the tree below root with set() calls on existing nodes, in the drawn style.
   // Vectors get their finished children, as their element types must not change afterwards.
   void attachByPath( Src &s, const e57::ImageFile &imf, e57::StructureNode from, const std::string &base, const MN &n )
   {
      for ( auto &k : n.kids )
      {
         const std::string abs = base + "/" + k.name;
         const bool absolute = s.flip();
         e57::StructureNode root = imf.root();
         if ( k.t == T::Struct )
         {
            e57::StructureNode x( imf );
            if ( absolute )
               root.set( abs, x );
            else
               from.set( k.name, x );
            attachByPath( s, imf, x, abs, k );
         }
         else if ( k.t == T::Vec && k.hetero )
         {
            e57::VectorNode x( imf, true );
            if ( absolute )
               root.set( abs.substr( 1 ), x );
            else
               from.set( k.name, x );
            for ( size_t i = 0; i < k.kids.size(); ++i )
            {
               if ( s.flip() )
                  x.append( buildNode( imf, k.kids[i] ) );
               else
                  root.set( abs + "/" + std::to_string( i ), buildNode( imf, k.kids[i] ) );
            }
         }
         else if ( absolute )
            from.set( abs, buildNode( imf, k ) );
         else
            from.set( k.name, buildNode( imf, k ) );
      }
   }

   // names of bytes above 127 that XML does not allow: to be refused, or to be kept
   void foreignName( Ctx &ctx )
   {
      Src &s = ctx.s;
      const std::string name = s.pick<std::string>( { "a", "", "_x" } ) +
                               s.pick<std::string>( { "\xc3\x97", "\xe2\x82\xac", "\xff", "\xc3", "\xe2\x80\xa8", "\xed\xa0\x80" } ) +
                               s.pick<std::string>( { "", "b" } );
      ctx.say( "name of " + std::to_string( name.size() ) + " bytes XML does not allow" );
      ctx.label( "name XML does not allow" );
      ctx.nontrivial = true;
      const std::string path = ctx.dir + "/a.e57";
      try
      {
         e57::ImageFile imf( path, "w" );
         imf.root().set( name, e57::IntegerNode( imf, 5 ) );
         imf.close();
      }
      catch ( const e57::E57Exception & )
      {
         return;
      }
      try
      {
         e57::ImageFile in( path, "r" );
         if ( in.root().childCount() == 1 && in.root().get( 0 ).elementName() == name )
            return;
      }
      catch ( const e57::E57Exception & )
      {
      }
      pbt::failKey( "names-xml-cannot-carry", "an element name was accepted that does not come back" );
   }

   void c07( Ctx &ctx )
   {
      Src &s = ctx.s;
      if ( s.chance( 1, 200 ) )
         return foreignName( ctx );
      Exts exts;
      TreeOpts o;
      const size_t nx = s.weighted( { 3, 1, 1 } );
      for ( size_t i = 0; i < nx; ++i )
      {
         exts.emplace_back( sprintf_( "x%zu", i ), sprintf_( "http://example.com/x/%zu", i ) );
         o.prefixes.push_back( exts.back().first );
      }
      o.maxNodes = ctx.thorough ? 120 : 60;
      o.maxDepth = 8;
      if ( s.chance( 1, 8 ) )
      {
         o.maxNodes = 400;
         o.maxDepth = 60;
         o.cvs = o.blobs = false;
      }
      const MN tree = genTree( s, o );
      const bool byPath = s.flip();
      ctx.say( sprintf_( "%s, extensions %zu: ", byPath ? "set by path" : "built then attached", nx ) );
      ctx.say( show( tree ) );
      const std::string path = ctx.dir + "/a.e57";
      try
      {
         e57::ImageFile imf( path, "w" );
         for ( auto &x : exts )
            imf.extensionsAdd( x.first, x.second );
         if ( byPath )
            attachByPath( s, imf, imf.root(), "", tree );
         else
            attachRoot( imf, tree );
         writeContent( imf.root(), tree );
         // what is read before closing is the same tree
         ReadOpts ro;
         ro.content = false;
         MN want = readNode( imf.root(), ro, true );
         imf.close();
         const MN got = readFile( path );
         std::string d = diff( tree, got );
         if ( !d.empty() )
            fail( d );
         ctx.nontrivial = count( tree ) > 1;
         // a second generation copied from what was read is the same again
         if ( s.chance( 1, 4 ) )
         {
            const std::string path2 = ctx.dir + "/b.e57";
            writeFile( path2, got, exts );
            d = diff( tree, readFile( path2 ) );
            if ( !d.empty() )
               fail( "second generation: " + d );
         }
      }
      catch ( const e57::E57Exception &e )
      {
         fail( what( e ) );
      }
      ctx.label( sprintf_( "about %d elements", count( tree ) < 5 ? 1 : count( tree ) < 20 ? 10 : count( tree ) < 60 ? 40 : 100 ) );
   }

   // ------------------------------------------------------------------ C08

   struct Punct : std::numpunct<char>
   {
      char dp, ts;
      std::string g;
      Punct( char d, char t, const std::string &grp ) : dp( d ), ts( t ), g( grp ) {}
      char do_decimal_point() const override { return dp; }
      char do_thousands_sep() const override { return ts; }
      std::string do_grouping() const override { return g; }
   };

   // sets a locale for the lifetime of the object
   class UseLocale
   {
   public:
      UseLocale( int kind )
      {
         oldC_ = setlocale( LC_ALL, nullptr );
         old_ = std::locale();
         switch ( kind )
         {
            case 0:
               break;
            case 1:
               std::locale::global( std::locale( std::locale::classic(), new Punct( ',', '.', "\3" ) ) );
               break;
            case 2:
               setlocale( LC_ALL, "fr_FR" );
               break;
            case 3:
               std::locale::global( std::locale( std::locale::classic(), new Punct( '.', ' ', "\1" ) ) );
               setlocale( LC_ALL, "fr_FR.iso88591" );
               break;
            default:
               std::locale::global( std::locale( std::locale::classic(), new Punct( 'x', '1', "\2\3" ) ) );
               break;
         }
      }
      ~UseLocale()
      {
         std::locale::global( old_ );
         setlocale( LC_ALL, oldC_.c_str() );
      }

   private:
      std::string oldC_;
      std::locale old_;
   };
   const char *localeName[] = { "classic", "comma and dot grouping", "C locale fr_FR",
                                "space grouping and C locale fr_FR", "odd punctuation" };

   MN numberLeaf( Src &s )
   {
      MN n;
      switch ( s.below( 4 ) )
      {
         case 0:
            n.t = T::Int;
            break;
         case 1:
            n.t = T::SInt;
            n.scale = genDouble( s );
            if ( n.scale == 0 )
               n.scale = 1;
            n.off = genDouble( s );
            break;
         case 2:
            n.t = T::Flt;
            n.single = true;
            n.d = genFloat( s );
            if ( s.flip() )
            {
               n.dmn = s.flip() ? -static_cast<double>( FLT_MAX ) : genFloat( s );
               n.dmx = s.flip() ? static_cast<double>( FLT_MAX ) : genFloat( s );
               if ( n.dmn > n.dmx )
                  std::swap( n.dmn, n.dmx );
               n.d = std::min( std::max( n.d, n.dmn ), n.dmx );
            }
            else
            {
               n.dmn = -static_cast<double>( FLT_MAX );
               n.dmx = static_cast<double>( FLT_MAX );
            }
            return n;
         default:
            n.t = T::Flt;
            n.d = genDouble( s );
            if ( s.flip() )
            {
               n.dmn = s.flip() ? -DBL_MAX : genDouble( s );
               n.dmx = s.flip() ? DBL_MAX : genDouble( s );
               if ( n.dmn > n.dmx )
                  std::swap( n.dmn, n.dmx );
               n.d = std::min( std::max( n.d, n.dmn ), n.dmx );
            }
            return n;
      }
      n.v = genInt64( s );
      if ( s.flip() )
      {
         n.mn = s.flip() ? INT64_MIN : genInt64( s );
         n.mx = s.flip() ? INT64_MAX : genInt64( s );
         if ( n.mn > n.mx )
            std::swap( n.mn, n.mx );
         n.v = std::min( std::max( n.v, n.mn ), n.mx );
      }
      return n;
   }

   void c08( Ctx &ctx )
   {
      Src &s = ctx.s;
      MN root;
      const size_t n = 1 + s.below( 24 );
      for ( size_t i = 0; i < n; ++i )
      {
         MN k = numberLeaf( s );
         k.name = "n" + std::to_string( i );
         root.kids.push_back( k );
      }
      if ( s.chance( 1, 3 ) ) // numbers the library itself writes: counts, offsets, lengths
      {
         TreeOpts o;
         o.maxRecBytes = 12000;
         MN cv = genCV( s, o );
         cv.name = "cv";
         root.kids.push_back( cv );
      }
      if ( s.chance( 1, 3 ) )
      {
         MN b;
         b.t = T::Blob;
         b.name = "blob";
         b.s.assign( s.pick( { 1, 999, 1000, 1001, 12345 } ), 'b' );
         root.kids.push_back( b );
      }
      if ( s.chance( 1, 8 ) )
      {
         MN v;
         v.t = T::Vec;
         v.name = "v";
         v.hetero = s.flip();
         MN one;
         one.t = T::Int;
         one.v = 7;
         const size_t c = s.pick( { 12, 101, 1001, 1234 } );
         for ( size_t i = 0; i < c; ++i )
            v.kids.push_back( one );
         root.kids.push_back( v );
      }
      const int lw = static_cast<int>( s.weighted( { 2, 2, 1, 1, 1 } ) );
      const int lr = static_cast<int>( s.weighted( { 2, 2, 1, 1, 1 } ) );
      ctx.say( sprintf_( "written under '%s', read under '%s': ", localeName[lw], localeName[lr] ) );
      ctx.say( show( root ) );
      const std::string a = ctx.dir + "/a.e57", b = ctx.dir + "/b.e57";
      try
      {
         {
            UseLocale l( lw );
            writeFile( a, root );
         }
         if ( lw != 0 )
         {
            writeFile( b, root );
            const std::string x = slurp( a ), y = slurp( b );
            if ( x != y )
               fail( "the file depends on the locale: " + firstByteDiff( y, x ) );
         }
         MN got;
         {
            UseLocale l( lr );
            got = readFile( a );
         }
         const std::string d = diff( root, got );
         if ( !d.empty() )
            fail( d );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( what( e ) );
      }
      ctx.nontrivial = true;
      ctx.label( std::string( "write: " ) + localeName[lw] );
      ctx.label( std::string( "read: " ) + localeName[lr] );
   }

   // ------------------------------------------------------------------ C09

   std::string longText( Src &s )
   {
      // a filler that brings the interesting part near a multiple of a buffer size
      std::string o;
      const size_t unit = s.pick( { 1020, 1024, 4096, 8192, 16384, 32768, 49152, 65536 } );
      const int64_t len = static_cast<int64_t>( unit * ( 1 + s.below( 3 ) ) ) + s.range( -130, 130 );
      const size_t kind = s.below( 4 );
      const char *fill[] = { "a", "\xc3\xa9", "\xf0\x9f\x98\x80", "\n" };
      for ( int64_t i = 0; i < len; i += static_cast<int64_t>( strlen( fill[kind] ) ) )
         o += fill[kind];
      const size_t n = 1 + s.below( 40 );
      for ( size_t i = 0; i < n; ++i )
         o += s.pick( { "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbd", "]]>", "\r", "\r\n", "<", "&", "\xef\xbf\xbd", "z", "\t" } );
      return o;
   }

   void c09( Ctx &ctx )
   {
      Src &s = ctx.s;
      MN root;
      size_t chars = 0;
      const size_t n = 1 + s.below( 5 );
      for ( size_t i = 0; i < n; ++i )
      {
         MN k;
         k.t = T::Str;
         k.name = sprintf_( "s%zu", i );
         k.s = s.chance( 1, 12 ) ? longText( s ) : genXmlText( s, 100000 );
         chars += k.s.size();
         root.kids.push_back( k );
      }
      if ( s.chance( 1, 3 ) )
      {
         MN cv;
         cv.t = T::CV;
         cv.name = "cv";
         MN p;
         const size_t f = 1 + s.below( 3 );
         for ( size_t i = 0; i < f; ++i )
         {
            MN l;
            l.t = s.chance( 1, 4 ) ? T::Int : T::Str;
            l.name = sprintf_( "f%zu", i );
            if ( l.t == T::Str )
               l.s = genXmlText( s, 40 );
            p.kids.push_back( l );
         }
         cv.codecs.emplace_back();
         cv.codecs[0].t = T::Vec;
         cv.codecs[0].hetero = true;
         cv.proto.push_back( p );
         cv.nrec = s.geom( 5, 60 );
         ColOpts co;
         co.maxString = s.chance( 1, 4 ) ? 150000 : 300;
         if ( co.maxString > 1000 )
            cv.nrec = std::min<uint64_t>( cv.nrec, 6 );
         co.individually = 60;
         cv.cols = genCols( s, p, cv.nrec, co );
         root.kids.push_back( cv );
         ctx.label( "record strings" );
      }
      ctx.say( show( root ) );
      const std::string path = ctx.dir + "/a.e57";
      try
      {
         writeFile( path, root );
         const std::string d = diff( root, readFile( path ) );
         if ( !d.empty() )
            fail( d );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( what( e ) );
      }
      ctx.nontrivial = chars > 0;
      ctx.label( chars > 10000 ? "long text" : "short text" );
   }

   pbt::Reg r07( { "C07", c07, 12000, 80000, "exploration", "a case counts if the tree has at least one element", {} } );
   pbt::Reg r08( { "C08", c08, 6000, 60000, "exploration",
                   "every case stores at least one number; negative zero counts as equal to zero", {} } );
   pbt::Reg r09( { "C09", c09, 12000, 80000, "exploration", "a case counts if it stores at least one character", {} } );
}
