// Paths (C11), extensions and element names (C12).
#include "lib.hpp"

#include <set>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   bool idStart( unsigned char c ) { return c >= 128 || ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || c == '_'; }
   bool isId( const std::string &x )
   {
      if ( x.empty() || !idStart( x[0] ) )
         return false;
      for ( unsigned char c : x )
         if ( !idStart( c ) && !( c >= '0' && c <= '9' ) && c != '-' && c != '.' )
            return false;
      return true;
   }
   bool digits( const std::string &x )
   {
      for ( char c : x )
         if ( c < '0' || c > '9' )
            return false;
      return !x.empty();
   }
   bool ascii( const std::string &x )
   {
      for ( unsigned char c : x )
         if ( c >= 128 )
            return false;
      return true;
   }

   // ------------------------------------------------------------------ C11

   struct Item
   {
      const MN *n;
      int parent;
      std::string name;
      std::string path;
      std::vector<int> kids;
      e57::Node h;
   };

   struct Tree
   {
      std::vector<Item> it;
      std::vector<std::string> prefixes;

      int add( const MN &n, int parent, const std::string &name, const e57::Node &h )
      {
         Item x{ &n, parent, name, parent < 0 ? "/" : ( parent == 0 ? "" : it[parent].path ) + "/" + name, {}, h };
         const int id = static_cast<int>( it.size() );
         it.push_back( x );
         for ( size_t k = 0; k < n.kids.size(); ++k )
         {
            const int64_t i = static_cast<int64_t>( k );
            e57::Node c = n.t == T::Struct ? e57::StructureNode( h ).get( i ) : e57::VectorNode( h ).get( i );
            const int kid = add( n.kids[k], id, n.t == T::Struct ? n.kids[k].name : std::to_string( k ), c );
            it[id].kids.push_back( kid );
         }
         return id;
      }

      // what looking up p from item `from` must do: index of the item, -1 undefined,
      // -2 an error about the path, -3 undefined or an error about the path, -4 a namespace
      // that is not registered: isDefined says no, get raises an error about the path
      int resolve( int from, const std::string &p ) const
      {
         const int r = lookup( from, p );
         // other characters are not in the documented grammar, but tolerated
         return r < 0 && !ascii( p ) ? -3 : r;
      }
      int lookup( int from, const std::string &p ) const
      {
         if ( p.empty() )
            return -2;
         std::vector<std::string> f;
         const bool absolute = p[0] == '/';
         const std::string rest = absolute ? p.substr( 1 ) : p;
         for ( size_t a = 0; !rest.empty(); )
         {
            const size_t e = rest.find( '/', a );
            f.push_back( rest.substr( a, e == std::string::npos ? e : e - a ) );
            if ( e == std::string::npos )
               break;
            a = e + 1;
         }
         bool loose = false;
         for ( size_t i = 0; i < f.size(); ++i )
         {
            if ( f[i].empty() )
            {
               if ( i + 1 < f.size() )
                  return -2;
               loose = true; // a trailing slash
               continue;
            }
            if ( digits( f[i] ) )
               continue;
            const size_t colon = f[i].find( ':' );
            if ( colon == std::string::npos )
            {
               if ( !isId( f[i] ) )
                  return -2;
            }
            else
            {
               const std::string pre = f[i].substr( 0, colon );
               if ( !isId( pre ) || !isId( f[i].substr( colon + 1 ) ) )
                  return -2;
               if ( std::find( prefixes.begin(), prefixes.end(), pre ) == prefixes.end() )
                  return -4;
            }
         }
         if ( loose )
            return -3;
         int at = absolute ? 0 : from;
         for ( auto &x : f )
         {
            int next = -1;
            for ( int k : it[at].kids )
               if ( it[k].name == x )
                  next = k;
            if ( next < 0 )
               return -1;
            at = next;
         }
         return at;
      }

      template <class C> void lookup( const C &c, int from, const std::string &p )
      {
         const int want = resolve( from, p );
         const std::string who = "from " + it[from].path + " path " + showStr( p );
         int defined = -9, got = -9; // -2: error about the path, -1: false / undefined, >= 0: found
         try
         {
            defined = c.isDefined( p ) ? 0 : -1;
         }
         catch ( const e57::E57Exception &e )
         {
            defined = pathError( e ) ? -2 : -8;
            if ( defined == -8 )
               fail( who + ": isDefined raised " + what( e ) );
         }
         try
         {
            const e57::Node n = c.get( p );
            got = 0;
            if ( want < 0 )
               fail( who + ": get returned " + n.pathName() + " but there is no such element" );
            if ( !( n == it[want].h ) )
               fail( who + ": get returned another element, " + n.pathName() );
         }
         catch ( const e57::E57Exception &e )
         {
            got = e.errorCode() == e57::ErrorPathUndefined ? -1 : pathError( e ) ? -2 : -8;
            if ( got == -8 )
               fail( who + ": get raised " + what( e ) );
         }
         if ( ( want == -4 || want == -3 ) && got == -2 && defined == -1 )
            return;
         if ( got != defined )
            fail( who + sprintf_( ": isDefined and get disagree (%d, %d)", defined, got ) );
         if ( want == -3 ? got >= 0 : got != std::min( want, 0 ) )
            fail( who + sprintf_( ": outcome %d, expected %d (0 found, -1 undefined, -2 path error)", got, want ) );
      }
      static bool pathError( const e57::E57Exception &e )
      {
         return e.errorCode() == e57::ErrorPathNameEmpty || e.errorCode() == e57::ErrorPathNameMalformed ||
                e.errorCode() == e57::ErrorPathNameExtensionNotRegistered;
      }
      template <class C> void index( const C &c, int from, int64_t i )
      {
         try
         {
            const e57::Node n = c.get( i );
            if ( i < 0 || i >= static_cast<int64_t>( it[from].kids.size() ) )
               fail( it[from].path + sprintf_( ": get(%lld) succeeded", (long long)i ) );
            if ( !( n == it[it[from].kids[i]].h ) )
               fail( it[from].path + sprintf_( ": get(%lld) is another element", (long long)i ) );
         }
         catch ( const e57::E57Exception &e )
         {
            if ( e.errorCode() != e57::ErrorChildIndexOutOfBounds || ( i >= 0 && i < static_cast<int64_t>( it[from].kids.size() ) ) )
               fail( it[from].path + sprintf_( ": get(%lld) raised ", (long long)i ) + what( e ) );
         }
      }

      void all( Src &s )
      {
         const auto cont = [&]( int i, auto f ) {
            if ( it[i].n->t == T::Struct )
               f( e57::StructureNode( it[i].h ) );
            else if ( it[i].n->t == T::Vec )
               f( e57::VectorNode( it[i].h ) );
         };
         for ( size_t i = 0; i < it.size(); ++i )
         {
            const int id = static_cast<int>( i );
            if ( it[i].h.pathName() != it[i].path )
               fail( "element at " + it[i].path + " reports path " + it[i].h.pathName() );
            cont( id, [&]( auto c ) {
               if ( c.childCount() != static_cast<int64_t>( it[i].kids.size() ) )
                  fail( it[i].path + ": childCount" );
               for ( int64_t k : { INT64_MIN, (int64_t)-1, (int64_t)0, (int64_t)it[i].kids.size() - 1,
                                   (int64_t)it[i].kids.size(), (int64_t)1 << 32, INT64_MAX } )
                  index( c, id, k );
               for ( size_t k = 0; k < it[i].kids.size(); ++k )
               {
                  index( c, id, static_cast<int64_t>( k ) );
                  lookup( c, id, it[it[i].kids[k]].name );
               }
            } );
            // from every ancestor, relatively and absolutely
            std::string rel;
            for ( int a = id; it[a].parent >= 0; a = it[a].parent )
            {
               rel = it[a].name + ( rel.empty() ? "" : "/" + rel );
               cont( it[a].parent, [&]( auto c ) {
                  lookup( c, it[a].parent, rel );
                  lookup( c, it[a].parent, it[i].path );
               } );
            }
         }
         // other paths: near misses of existing ones and arbitrary ones
         std::vector<int> conts;
         for ( size_t i = 0; i < it.size(); ++i )
            if ( it[i].n->t == T::Struct || it[i].n->t == T::Vec )
               conts.push_back( static_cast<int>( i ) );
         for ( unsigned k = 0; k < 30; ++k )
         {
            const int from = s.pick( conts );
            std::string p = it[s.below( it.size() )].path;
            if ( s.chance( 1, 2 ) )
               p = p.substr( 1 );
            if ( s.chance( 1, 4 ) && !prefixes.empty() )
               p += ( p.empty() ? "" : "/" ) + s.pick( prefixes ) + ":" + genId( s, 4 );
            const size_t edits = s.below( 3 );
            for ( size_t e = 0; e < edits; ++e )
            {
               const size_t at = s.below( p.size() + 1 );
               switch ( s.below( 4 ) )
               {
                  case 0:
                     if ( at < p.size() )
                        p.erase( at, 1 );
                     break;
                  case 1:
                     p.insert( at, s.pick( { "/", ":", "0", "a", "-", " ", ".", "x0:", "\xc3\xa9", "&", "00", "/0" } ) );
                     break;
                  case 2:
                     p = p.substr( 0, at );
                     break;
                  default:
                     p += s.pick( { "/", "/0", "/a", "/a/b", "//" } );
                     break;
               }
            }
            cont( from, [&]( auto c ) { lookup( c, from, p ); } );
         }
      }
   };

   void collectCV( const MN &n, const e57::Node &h, std::vector<std::pair<const MN *, e57::Node>> &out )
   {
      if ( n.t == T::CV )
      {
         e57::CompressedVectorNode cv( h );
         out.emplace_back( &n.proto[0], cv.prototype() );
         out.emplace_back( &n.codecs[0], cv.codecs() );
      }
      for ( size_t k = 0; k < n.kids.size(); ++k )
         collectCV( n.kids[k],
                    n.t == T::Struct ? e57::StructureNode( h ).get( static_cast<int64_t>( k ) )
                                     : e57::VectorNode( h ).get( static_cast<int64_t>( k ) ),
                    out );
   }

   void c11( Ctx &ctx )
   {
      Src &s = ctx.s;
      TreeOpts o;
      o.maxNodes = 25;
      o.maxDepth = 8;
      o.maxRecBytes = 100;
      o.maxBlob = 10;
      Exts exts;
      if ( s.chance( 1, 3 ) )
      {
         exts.emplace_back( "x0", "http://x0" );
         o.prefixes.push_back( "x0" );
      }
      const MN root = genTree( s, o );
      const size_t where = s.below( 3 );
      static const char *names[] = { "being written", "unattached", "read" };
      ctx.say( std::string( names[where] ) + ": " + show( root ) );
      const std::string path = ctx.dir + "/a.e57";
      try
      {
         const auto checkTree = [&]( const MN &n, const e57::Node &h ) {
            Tree t;
            t.prefixes = o.prefixes;
            t.add( n, -1, "", h );
            if ( n.t == T::Struct || n.t == T::Vec )
               t.all( s );
         };
         const auto everything = [&]( const e57::Node &top ) {
            checkTree( root, top );
            std::vector<std::pair<const MN *, e57::Node>> cvs;
            collectCV( root, top, cvs );
            for ( auto &c : cvs )
               checkTree( *c.first, c.second );
         };
         if ( where == 2 )
         {
            writeFile( path, root, exts );
            e57::ImageFile in( path, "r" );
            everything( in.root() );
            in.close();
         }
         else
         {
            e57::ImageFile imf( path, "w" );
            for ( auto &x : exts )
               imf.extensionsAdd( x.first, x.second );
            if ( where == 0 )
            {
               attachRoot( imf, root );
               everything( imf.root() );
            }
            else
               everything( buildNode( imf, root ) );
            imf.cancel();
         }
      }
      catch ( const e57::E57Exception &e )
      {
         fail( what( e ) );
      }
      ctx.nontrivial = count( root ) > 2;
      ctx.label( names[where] );
   }

   // ------------------------------------------------------------------ C12

   std::string genUri( Src &s )
   {
      std::string u;
      const size_t n = 1 + s.below( 8 );
      for ( size_t i = 0; i < n; ++i )
         u += s.pick( { "http://", "a", "b.c", "/", "?q=1", "&x=2", "#f", "%20", "'", "urn:", "~", "(1)", "@", "\xc3\xa9",
                        "\xf0\x9f\x98\x80", ";", "&amp;", "&lt;", "\"", "<", ">", " ", "]]>", "  ", "\t", "\n" } );
      return u;
   }
   std::string genName( Src &s )
   {
      std::string u;
      const size_t n = s.below( 5 );
      for ( size_t i = 0; i < n; ++i )
         u += s.pick( { "a", "Z", "_", "1", "-", ".", ":", "pre", "z9", "0", " ", "/", "&", "\xc3\xa9", "<", "@", "[", "`", "{",
                        "x:", "/a" } );
      return u;
   }

   void c12( Ctx &ctx )
   {
      Src &s = ctx.s;
      const std::string path = ctx.dir + "/a.e57";
      Exts model;
      size_t refused = 0;
      try
      {
         e57::ImageFile imf( path, "w" );
         const bool simple = s.chance( 1, 4 ); // as the high-level writer does it
         if ( simple )
         {
            imf.extensionsAdd( "", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
            ctx.say( "default namespace declared first; " );
         }
         const size_t ops = 1 + s.below( 25 );
         const auto compare = [&]( const e57::ImageFile &f, const Exts &want, const char *when ) {
            Exts got;
            const size_t n = f.extensionsCount();
            for ( size_t i = 0; i < n; ++i )
               if ( !f.extensionsPrefix( i ).empty() )
                  got.emplace_back( f.extensionsPrefix( i ), f.extensionsUri( i ) );
            if ( got != want )
            {
               std::string t = std::string( when ) + ": extensions are";
               for ( auto &x : got )
                  t += " " + showStr( x.first ) + "=" + showStr( x.second );
               fail( t );
            }
            if ( simple )
            {
               // the default namespace counts as declared as well
               const std::string standard = "http://www.astm.org/COMMIT/E57/2010-e57-v1.0";
               std::string u = "-", p = "-";
               if ( !f.extensionsLookupPrefix( "" ) || !f.extensionsLookupPrefix( "", u ) || u != standard )
                  fail( std::string( when ) + ": the default namespace is " + showStr( u ) );
               if ( !f.extensionsLookupUri( standard, p ) || !p.empty() )
                  fail( std::string( when ) + ": the uri of the default namespace gives " + showStr( p ) );
               if ( n != want.size() + 1 )
                  fail( sprintf_( "%s: %zu namespaces instead of %zu", when, n, want.size() + 1 ) );
            }
            for ( auto &x : want )
            {
               std::string u = "-", p = "-";
               if ( !f.extensionsLookupPrefix( x.first ) || !f.extensionsLookupPrefix( x.first, u ) || u != x.second )
                  fail( std::string( when ) + ": prefix " + x.first + " gives " + showStr( u ) );
               if ( !f.extensionsLookupUri( x.second, p ) || p != x.first )
                  fail( std::string( when ) + ": uri " + showStr( x.second ) + " gives " + showStr( p ) );
            }
            for ( size_t i : { n, n + 1, SIZE_MAX } )
               for ( int k = 0; k < 2; ++k )
               {
                  bool threw = false;
                  try
                  {
                     k ? f.extensionsPrefix( i ) : f.extensionsUri( i );
                  }
                  catch ( const e57::E57Exception &e )
                  {
                     threw = e.errorCode() == e57::ErrorBadAPIArgument;
                  }
                  if ( !threw )
                     fail( sprintf_( "extension number %zu of %zu was not refused", i, n ) );
               }
         };
         for ( size_t i = 0; i < ops; ++i )
         {
            if ( s.chance( 2, 3 ) )
            {
               std::string p = genId( s, 5 ), u = genUri( s );
               if ( s.chance( 1, 3 ) && !model.empty() )
                  p = s.pick( model ).first;
               if ( s.chance( 1, 4 ) && !model.empty() )
                  u = s.pick( model ).second;
               if ( s.chance( 1, 10 ) )
                  p = s.pick( { "a b", "1", "a:b", "-x", "a/", "<", "a\"" } );
               if ( s.chance( 1, 20 ) )
                  u = "";
               if ( s.chance( 1, 20 ) )
                  u = "http://www.astm.org/COMMIT/E57/2010-e57-v1.0";
               if ( p.size() >= 3 && ( p[0] | 32 ) == 'x' && ( p[1] | 32 ) == 'm' && ( p[2] | 32 ) == 'l' )
                  p = "q" + p; // reserved by XML
               std::set<int> why;
               if ( !isId( p ) || u.empty() )
                  why.insert( e57::ErrorBadAPIArgument );
               if ( u == "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" )
                  why.insert( e57::ErrorDuplicateNamespaceURI );
               for ( auto &x : model )
               {
                  if ( x.first == p )
                     why.insert( e57::ErrorDuplicateNamespacePrefix );
                  if ( x.second == u )
                     why.insert( e57::ErrorDuplicateNamespaceURI );
               }
               ctx.say( "add " + showStr( p ) + "=" + showStr( u ) );
               int code = 0;
               try
               {
                  imf.extensionsAdd( p, u );
               }
               catch ( const e57::E57Exception &e )
               {
                  code = e.errorCode();
               }
               ctx.say( sprintf_( " -> %d; ", code ) );
               if ( why.empty() ? code != 0 : !why.count( code ) )
                  fail( sprintf_( "adding the extension gave error %d", code ) );
               if ( code == 0 )
                  model.emplace_back( p, u );
               else
                  ++refused;
            }
            else
            {
               const std::string n = genName( s );
               ctx.say( "name " + showStr( n ) + "; " );
               std::string pre = "?", loc = "?";
               int code = 0;
               try
               {
                  imf.elementNameParse( n, pre, loc );
               }
               catch ( const e57::E57Exception &e )
               {
                  code = e.errorCode();
               }
               const bool ext = imf.isElementNameExtended( n );
               const size_t colon = n.find( ':' );
               const std::string wp = colon == std::string::npos ? "" : n.substr( 0, colon );
               const std::string wl = colon == std::string::npos ? n : n.substr( colon + 1 );
               const bool good = isId( wl ) && ( colon == std::string::npos || isId( wp ) );
               // numbers are the names of vector children; the grammar does not mention them
               if ( ascii( n ) && !digits( n ) )
               {
                  if ( good ? code != 0 : code != ( n.empty() ? e57::ErrorPathNameEmpty : e57::ErrorPathNameMalformed ) )
                     fail( sprintf_( "element name %s: result %d", showStr( n ).c_str(), code ) );
                  if ( ext != ( good && colon != std::string::npos ) )
                     fail( "element name " + showStr( n ) + ": isElementNameExtended is wrong" );
               }
               if ( code == 0 && !digits( n ) && ( pre != wp || loc != wl ) )
                  fail( "element name " + showStr( n ) + " was split into " + showStr( pre ) + " and " + showStr( loc ) );
            }
            compare( imf, model, "while writing" );
         }
         // a structure with a name in every namespace
         for ( auto &x : model )
            imf.root().set( x.first + ":e", e57::IntegerNode( imf, 1 ) );
         imf.close();
         e57::ImageFile in( path, "r" );
         compare( in, model, "after reading" );
         for ( auto &x : model )
            if ( !in.root().isDefined( x.first + ":e" ) )
               fail( x.first + ":e is lost" );
         bool threw = false;
         try
         {
            in.extensionsAdd( "fresh", "http://fresh" );
         }
         catch ( const e57::E57Exception &e )
         {
            threw = e.errorCode() == e57::ErrorFileReadOnly;
         }
         if ( !threw )
            fail( "an extension could be added to a file being read" );
         in.close();
      }
      catch ( const e57::E57Exception &e )
      {
         fail( what( e ) );
      }
      ctx.nontrivial = model.size() > 1;
      ctx.label( sprintf_( "%s extensions, %s", model.size() > 3 ? "several" : "few", refused ? "some refused" : "none refused" ) );
   }

   pbt::Reg r11( { "C11", c11, 16000, 150000, "exploration", "a case counts if the tree has at least two elements", {} } );
   pbt::Reg r12( { "C12", c12, 12000, 100000, "exploration", "a case counts if at least two extensions were registered", {} } );
}
