// Building element trees call by call against a model of the documented rules (C10).
#include "lib.hpp"

#include <map>
#include <set>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   using Reasons = std::set<e57::ErrorCode>;

   struct Nd
   {
      T t = T::Struct;
      int file = 0;
      int parent = -1;
      int owner = -1; // vector this is the prototype or codecs of
      bool fileRoot = false;
      std::string name;
      std::vector<int> kids;
      MN leaf; // scalar attributes, hetero flag
      int64_t bytes = 0;
      int proto = -1, codecs = -1;
   };

   class World
   {
   public:
      Ctx &ctx;
      Src &s;
      std::vector<e57::ImageFile> files; // 0, 1 writable, 2 read-only
      std::vector<Nd> nd;
      std::vector<e57::Node> h;
      unsigned accepted = 0, refused = 0;

      explicit World( Ctx &c ) : ctx( c ), s( c.s ) {}

      int add( const Nd &n, const e57::Node &handle )
      {
         nd.push_back( n );
         h.push_back( handle );
         return static_cast<int>( nd.size() ) - 1;
      }
      int rootOf( int i ) const
      {
         while ( nd[i].parent >= 0 )
            i = nd[i].parent;
         return i;
      }
      bool attached( int i ) const
      {
         for ( ;; )
         {
            i = rootOf( i );
            if ( nd[i].fileRoot )
               return true;
            if ( nd[i].owner < 0 )
               return false;
            i = nd[i].owner;
         }
      }
      bool inOwned( int i ) const { return nd[rootOf( i )].owner >= 0; }
      std::string path( int i ) const
      {
         std::string p;
         while ( nd[i].parent >= 0 )
         {
            p = "/" + nd[i].name + p;
            i = nd[i].parent;
         }
         return p.empty() ? "/" : p;
      }
      bool container( int i ) const { return nd[i].t == T::Struct || nd[i].t == T::Vec; }
      int child( int i, const std::string &name ) const
      {
         for ( int k : nd[i].kids )
            if ( nd[k].name == name )
               return k;
         return -1;
      }
      bool constrained( int i ) const
      {
         while ( nd[i].parent >= 0 )
         {
            i = nd[i].parent;
            if ( nd[i].t == T::Vec && !nd[i].leaf.hetero && nd[i].kids.size() > 1 )
               return true;
         }
         return false;
      }
      bool contains( int i, T t ) const
      {
         if ( nd[i].t == t )
            return true;
         for ( int k : nd[i].kids )
            if ( contains( k, t ) )
               return true;
         return false;
      }
      bool equiv( int a, int b ) const
      {
         const Nd &x = nd[a], &y = nd[b];
         if ( x.t != y.t )
            return false;
         switch ( x.t )
         {
            case T::Int:
               return x.leaf.mn == y.leaf.mn && x.leaf.mx == y.leaf.mx;
            case T::SInt:
               return x.leaf.mn == y.leaf.mn && x.leaf.mx == y.leaf.mx && x.leaf.scale == y.leaf.scale &&
                      x.leaf.off == y.leaf.off;
            case T::Flt:
               return x.leaf.single == y.leaf.single && x.leaf.dmn == y.leaf.dmn && x.leaf.dmx == y.leaf.dmx;
            case T::Str:
               return true;
            case T::Blob:
               return x.bytes == y.bytes;
            case T::CV:
               return equiv( x.proto, y.proto ) && equiv( x.codecs, y.codecs );
            case T::Vec:
               if ( x.leaf.hetero != y.leaf.hetero )
                  return false;
               break;
            case T::Struct:
               break;
         }
         if ( x.kids.size() != y.kids.size() )
            return false;
         for ( size_t i = 0; i < x.kids.size(); ++i )
         {
            const int k = x.t == T::Vec ? y.kids[i] : child( b, nd[x.kids[i]].name );
            if ( k < 0 || !equiv( x.kids[i], k ) )
               return false;
         }
         return true;
      }

      // the documented reasons for refusing n as a child of container c
      void childReasons( int c, int n, Reasons &r ) const
      {
         if ( nd[n].parent >= 0 || attached( n ) || nd[n].owner >= 0 )
            r.insert( e57::ErrorAlreadyHasParent );
         if ( nd[n].file != nd[c].file )
            r.insert( e57::ErrorDifferentDestImageFile );
         if ( rootOf( c ) == n ) // would become its own ancestor
            r.insert( e57::ErrorAlreadyHasParent );
         if ( constrained( c ) )
            r.insert( e57::ErrorHomogeneousViolation );
         if ( nd[c].t == T::Vec && !nd[c].leaf.hetero && !nd[c].kids.empty() && !equiv( nd[c].kids[0], n ) )
            r.insert( e57::ErrorHomogeneousViolation );
         if ( nd[c].file == 2 )
            r.insert( e57::ErrorFileReadOnly );
      }

      std::string brief( int i ) const
      {
         return sprintf_( "#%d(%s%s f%d %s)", i, tname( nd[i].t ), nd[i].t == T::Vec && nd[i].leaf.hetero ? "*" : "",
                          nd[i].file, path( i ).c_str() );
      }

      // Runs one call; r: reasons for refusal, anyError: some refusal is required but which
      // error is not documented. Returns true if the call was accepted.
      template <class F> bool call( const std::string &text, const Reasons &r, bool anyError, F f )
      {
         ctx.say( text );
         const bool mustFail = anyError || !r.empty();
         try
         {
            f();
         }
         catch ( const e57::E57Exception &e )
         {
            ctx.say( sprintf_( " -> error %d\n", static_cast<int>( e.errorCode() ) ) );
            if ( !mustFail )
               fail( text + " was refused without a documented reason: " + what( e ) );
            if ( !anyError && !r.count( e.errorCode() ) )
            {
               std::string want;
               for ( auto c : r )
                  want += sprintf_( " %d", static_cast<int>( c ) );
               fail( text + " raised " + what( e ) + ", documented:" + want );
            }
            ++refused;
            return false;
         }
         ctx.say( "\n" );
         if ( mustFail )
         {
            std::string want;
            for ( auto c : r )
               want += sprintf_( " %d", static_cast<int>( c ) );
            fail( text + " was accepted, documented errors:" + want );
         }
         ++accepted;
         return true;
      }

      // compares everything observable with the model
      void check()
      {
         for ( size_t i = 0; i < nd.size(); ++i )
            checkOne( static_cast<int>( i ) );
         for ( size_t i = 0; i < nd.size(); ++i )
            if ( nd[i].parent < 0 && nd[i].owner < 0 )
            {
               try
               {
                  h[i].checkInvariant( true, true );
               }
               catch ( const e57::E57Exception &e )
               {
                  fail( "invariant of " + brief( static_cast<int>( i ) ) + ": " + what( e ) );
               }
            }
      }

      void checkOne( int i )
      {
         const Nd &n = nd[i];
         try
         {
            const bool root = n.parent < 0;
            if ( h[i].isRoot() != root )
               fail( brief( i ) + ": isRoot is wrong" );
            if ( !( h[i].parent() == h[root ? i : n.parent] ) )
               fail( brief( i ) + ": wrong parent" );
            if ( h[i].pathName() != path( i ) )
               fail( brief( i ) + ": pathName is " + h[i].pathName() );
            if ( !root && h[i].elementName() != n.name )
               fail( brief( i ) + ": elementName is " + h[i].elementName() );
            if ( h[i].isAttached() != attached( i ) )
               fail( brief( i ) + ": isAttached is wrong" );
            if ( !( h[i].destImageFile() == files[n.file] ) )
               fail( brief( i ) + ": destImageFile is wrong" );
            if ( n.t == T::Struct )
               checkKids( i, e57::StructureNode( h[i] ) );
            else if ( n.t == T::Vec )
            {
               e57::VectorNode v( h[i] );
               if ( v.allowHeteroChildren() != n.leaf.hetero )
                  fail( brief( i ) + ": allowHeteroChildren changed" );
               checkKids( i, v );
            }
            else if ( n.t == T::CV )
            {
               e57::CompressedVectorNode cv( h[i] );
               if ( cv.childCount() != 0 || !( cv.prototype() == h[n.proto] ) ||
                    !( e57::Node( cv.codecs() ) == h[n.codecs] ) )
                  fail( brief( i ) + ": attributes changed" );
            }
            else if ( n.t == T::Blob )
            {
               if ( e57::BlobNode( h[i] ).byteCount() != n.bytes )
                  fail( brief( i ) + ": byteCount changed" );
            }
            else
            {
               ReadOpts ro;
               MN got = readNode( h[i], ro, true );
               const std::string d = diff( n.leaf, got );
               if ( !d.empty() )
                  fail( brief( i ) + ": " + d );
            }
         }
         catch ( const e57::E57Exception &e )
         {
            fail( "observing " + brief( i ) + ": " + what( e ) );
         }
      }
      template <class C> void checkKids( int i, const C &c )
      {
         const Nd &n = nd[i];
         if ( c.childCount() != static_cast<int64_t>( n.kids.size() ) )
            fail( brief( i ) + sprintf_( ": childCount is %lld, should be %zu", (long long)c.childCount(), n.kids.size() ) );
         for ( size_t k = 0; k < n.kids.size(); ++k )
         {
            if ( !( c.get( static_cast<int64_t>( k ) ) == h[n.kids[k]] ) )
               fail( brief( i ) + sprintf_( ": child %zu is another element", k ) );
            if ( !( c.get( nd[n.kids[k]].name ) == h[n.kids[k]] ) )
               fail( brief( i ) + ": child " + nd[n.kids[k]].name + " is another element" );
         }
      }

      // ------------------------------------------------------------ operations

      MN drawLeaf( bool &bad )
      {
         MN l;
         bad = false;
         switch ( s.below( 4 ) )
         {
            case 0:
               l.t = T::Int;
               break;
            case 1:
               l.t = T::SInt;
               l.scale = s.pick( { 1.0, 0.5 } );
               l.off = s.pick( { 0.0, 2.0 } );
               break;
            case 2:
               l.t = T::Flt;
               l.single = s.chance( 1, 3 );
               l.d = s.pick( { 0.0, 1.0, 5.0 } );
               if ( l.single )
               {
                  l.dmn = -static_cast<double>( FLT_MAX );
                  l.dmx = static_cast<double>( FLT_MAX );
               }
               if ( s.chance( 1, 3 ) )
               {
                  l.dmn = 0;
                  l.dmx = s.pick( { 1.0, 5.0 } );
               }
               if ( s.chance( 1, 20 ) )
                  l.d = NAN;
               bad = !( l.dmn <= l.d && l.d <= l.dmx );
               return l;
            default:
               l.t = T::Str;
               l.s = s.pick( { "", "text" } );
               return l;
         }
         l.v = s.range( 0, 5 );
         if ( s.chance( 1, 3 ) )
         {
            l.mn = 0;
            l.mx = s.pick( { 1, 5 } );
         }
         bad = l.v < l.mn || l.v > l.mx;
         return l;
      }

      void create()
      {
         Nd n;
         n.file = s.chance( 1, 8 ) ? 1 : 0;
         const e57::ImageFile &imf = files[n.file];
         switch ( s.weighted( { 3, 3, 4, 1, 1 } ) )
         {
            case 4:
               createScaled( n );
               return;
            case 0:
               n.t = T::Struct;
               n.leaf.t = T::Struct;
               ctx.say( sprintf_( "#%zu = Structure f%d\n", nd.size(), n.file ) );
               add( n, e57::StructureNode( imf ) );
               return;
            case 1:
               n.t = n.leaf.t = T::Vec;
               n.leaf.hetero = s.flip();
               ctx.say( sprintf_( "#%zu = Vector%s f%d\n", nd.size(), n.leaf.hetero ? "*" : "", n.file ) );
               add( n, e57::VectorNode( imf, n.leaf.hetero ) );
               return;
            case 2:
            {
               bool bad;
               n.leaf = drawLeaf( bad );
               n.t = n.leaf.t;
               Reasons r;
               if ( bad )
                  r.insert( e57::ErrorValueOutOfBounds );
               std::unique_ptr<e57::Node> made;
               if ( call( sprintf_( "#%zu = %s f%d", nd.size(), show( n.leaf ).c_str(), n.file ), r, false,
                          [&] { made.reset( new e57::Node( buildNode( imf, n.leaf ) ) ); } ) )
                  add( n, *made );
               return;
            }
            default:
            {
               n.t = n.leaf.t = T::Blob;
               n.bytes = s.pick( { 0, 1, 7 } );
               if ( s.chance( 1, 8 ) )
                  n.bytes = s.pick<int64_t>( { -1, -9, INT64_MIN } );
               Reasons r;
               if ( n.bytes < 0 )
                  r.insert( e57::ErrorBadAPIArgument );
               std::unique_ptr<e57::Node> made;
               if ( call( sprintf_( "#%zu = Blob(%lld) f%d", nd.size(), (long long)n.bytes, n.file ), r, false,
                          [&] { made.reset( new e57::Node( e57::BlobNode( imf, n.bytes ) ) ); } ) )
                  add( n, *made );
               return;
            }
         }
      }

      // the constructor that takes scaled values
      void createScaled( Nd &n )
      {
         n.t = n.leaf.t = T::SInt;
         double scale = s.pick( { 1.0, 0.5, -0.5, 0.0, 1e-300 } ), off = s.pick( { 0.0, 2.0, -1e18 } );
         if ( s.chance( 1, 6 ) )
         {
            // no number a file could hold
            ( s.flip() ? scale : off ) = s.pick( { INFINITY, -INFINITY, NAN } );
            const bool raw = s.flip();
            call( sprintf_( "ScaledInteger scale %g offset %g%s f%d", scale, off, raw ? "" : " of scaled values", n.file ),
                  { e57::ErrorBadAPIArgument, e57::ErrorValueOutOfBounds }, false, [&] {
                     raw ? e57::ScaledIntegerNode( files[n.file], int64_t( 0 ), int64_t( 0 ), int64_t( 9 ), scale, off )
                         : e57::ScaledIntegerNode( files[n.file], 0.0, 0.0, 9.0, scale, off );
                  } );
            return;
         }
         const double sc[3] = { s.pick( { 0.0, 1.0, 4.25, 1e18 } ), s.pick( { 0.0, -4.75, -1e19, -DBL_MAX } ),
                                s.pick( { 5.0, 7.25, 1e19, DBL_MAX } ) };
         Reasons r;
         int64_t raw[3] = {};
         for ( int i = 0; i < 3; ++i )
         {
            const double q = std::floor( ( sc[i] - off ) / scale + .5 );
            if ( scale == 0 )
               r.insert( e57::ErrorBadAPIArgument );
            else if ( q >= -0x1p63 && q < 0x1p63 )
               raw[i] = static_cast<int64_t>( q );
            else
               r.insert( e57::ErrorValueOutOfBounds );
         }
         if ( r.empty() && ( raw[0] < raw[1] || raw[0] > raw[2] ) )
            r.insert( e57::ErrorValueOutOfBounds );
         n.leaf.v = raw[0];
         n.leaf.mn = raw[1];
         n.leaf.mx = raw[2];
         n.leaf.scale = scale;
         n.leaf.off = off;
         std::unique_ptr<e57::Node> made;
         if ( call( sprintf_( "#%zu = ScaledInteger(%g [%g,%g] scale %g offset %g) f%d", nd.size(), sc[0], sc[1], sc[2], scale,
                              off, n.file ),
                    r, false, [&] {
                       made.reset( new e57::Node(
                          e57::ScaledIntegerNode( files[n.file], sc[0], sc[1], sc[2], scale, off ) ) );
                    } ) )
            add( n, *made );
      }

      // an element to attach: mostly one that is still free
      int drawNode()
      {
         std::vector<int> freeOnes, all;
         for ( size_t i = 0; i < nd.size(); ++i )
         {
            // prototypes of vectors not attached yet: left open
            if ( nd[i].owner >= 0 && !attached( static_cast<int>( i ) ) )
               continue;
            all.push_back( static_cast<int>( i ) );
            if ( nd[i].parent < 0 && nd[i].owner < 0 && !nd[i].fileRoot && nd[i].file == 0 )
               freeOnes.push_back( static_cast<int>( i ) );
         }
         if ( !freeOnes.empty() && !s.chance( 1, 5 ) )
            return s.pick( freeOnes );
         return s.pick( all );
      }
      // a container to attach to; prototypes and codecs in use are left alone
      int drawContainer( bool vectors )
      {
         std::vector<int> c;
         for ( size_t i = 0; i < nd.size(); ++i )
            if ( nd[i].t == ( vectors ? T::Vec : T::Struct ) && !inOwned( static_cast<int>( i ) ) )
               c.push_back( static_cast<int>( i ) );
         return c.empty() ? -1 : s.pick( c );
      }

      void append()
      {
         const int c = drawContainer( true );
         if ( c < 0 )
            return;
         const int n = drawNode();
         Reasons r;
         childReasons( c, n, r );
         if ( call( brief( c ) + ".append(" + brief( n ) + ")", r, false,
                    [&] { e57::VectorNode( h[c] ).append( h[n] ); } ) )
         {
            nd[n].name = std::to_string( nd[c].kids.size() );
            nd[n].parent = c;
            nd[c].kids.push_back( n );
         }
      }

      static bool numeric( const std::string &f )
      {
         if ( f.empty() )
            return false;
         for ( char ch : f )
            if ( ch < '0' || ch > '9' )
               return false;
         return true;
      }

      std::string drawName()
      {
         switch ( s.weighted( { 12, 2, 1, 1, 1 } ) )
         {
            case 0:
               return s.pick( { "a", "b", "c", "d", "e" } );
            case 1:
               return s.pick( { "x:a", "x:b" } );
            case 2:
               return s.pick( { "0", "1", "2", "7", "00", "01" } );
            case 3:
               return s.pick( { "nope:a", "X:a" } ); // not registered
            default:
               return s.pick( { "a b", ":a", "a:", "a:b:c", "-a", "", "a&", "<", "1a", ".", "x:1", "x:-" } );
         }
      }

      void set()
      {
         const int c = drawContainer( false );
         if ( c < 0 )
            return;
         const int n = drawNode();
         // a path: from the container or absolute, along existing children for a while
         const bool absolute = s.chance( 1, 4 );
         std::string p;
         int at = absolute ? rootOf( c ) : c;
         std::vector<std::string> fields;
         while ( s.chance( 1, 2 ) && !nd[at].kids.empty() )
         {
            const int k = s.pick( nd[at].kids );
            fields.push_back( nd[k].name );
            at = k;
         }
         if ( s.chance( 1, 12 ) )
            fields.push_back( drawName() );
         if ( nd[at].t == T::Vec && s.chance( 3, 4 ) )
            fields.push_back( std::to_string( nd[at].kids.size() ) );
         else if ( !s.chance( 1, 40 ) )
            fields.push_back( drawName() );
         for ( size_t i = 0; i < fields.size(); ++i )
            p += ( i ? "/" : "" ) + fields[i];
         if ( absolute )
            p = "/" + p;
         if ( s.chance( 1, 40 ) )
            p += "/";

         Reasons r;
         bool anyError = false;
         const int target = resolve( c, p, n, r, anyError );
         if ( call( brief( c ) + ".set('" + p + "', " + brief( n ) + ")", r, anyError,
                    [&] { e57::StructureNode( h[c] ).set( p, h[n] ); } ) )
         {
            nd[n].name = p.substr( p.find_last_of( '/' ) == std::string::npos ? 0 : p.find_last_of( '/' ) + 1 );
            nd[n].parent = target;
            nd[target].kids.push_back( n );
         }
      }

      // documented reasons for refusing set(p, n) on c; returns the container that receives n
      int resolve( int c, const std::string &p, int n, Reasons &r, bool &anyError )
      {
         if ( nd[c].file == 2 )
            r.insert( e57::ErrorFileReadOnly );
         if ( nd[n].parent >= 0 || attached( n ) || nd[n].owner >= 0 )
            r.insert( e57::ErrorAlreadyHasParent );
         if ( nd[n].file != nd[c].file )
            r.insert( e57::ErrorDifferentDestImageFile );

         std::vector<std::string> f;
         const bool absolute = !p.empty() && p[0] == '/';
         std::string rest = absolute ? p.substr( 1 ) : p;
         if ( !rest.empty() )
            for ( size_t from = 0;; )
            {
               const size_t e = rest.find( '/', from );
               f.push_back( rest.substr( from, e == std::string::npos ? e : e - from ) );
               if ( e == std::string::npos )
                  break;
               from = e + 1;
            }
         if ( f.empty() )
         {
            r.insert( absolute ? e57::ErrorSetTwice : e57::ErrorPathNameEmpty );
            return -1;
         }
         bool broken = false;
         for ( auto &x : f )
         {
            if ( x.empty() )
            {
               anyError = true; // which error is not documented
               broken = true;
               continue;
            }
            if ( numeric( x ) )
               continue;
            const std::string why = nameProblem( x );
            if ( why == "malformed" )
            {
               r.insert( e57::ErrorPathNameMalformed );
               broken = true;
            }
            if ( why == "extension" )
            {
               r.insert( e57::ErrorPathNameExtensionNotRegistered );
               broken = true;
            }
         }
         if ( broken )
         {
            r.insert( e57::ErrorPathUndefined ); // the earlier part may be missing as well
            return -1;
         }
         int at = absolute ? rootOf( c ) : c;
         for ( size_t i = 0; i + 1 < f.size(); ++i )
         {
            if ( !container( at ) )
            {
               anyError = true;
               return -1;
            }
            const int k = child( at, f[i] );
            if ( k < 0 )
            {
               r.insert( e57::ErrorPathUndefined );
               if ( constrained( at ) )
                  r.insert( e57::ErrorHomogeneousViolation );
               return -1;
            }
            at = k;
         }
         if ( !container( at ) )
         {
            anyError = true;
            return -1;
         }
         if ( child( at, f.back() ) >= 0 )
            r.insert( e57::ErrorSetTwice );
         else if ( nd[at].t == T::Vec && f.back() != std::to_string( nd[at].kids.size() ) )
         {
            // the documentation requires the next number but names no error
            r.insert( e57::ErrorPathUndefined );
            r.insert( e57::ErrorPathNameMalformed );
            r.insert( e57::ErrorChildIndexOutOfBounds );
         }
         else if ( nd[at].t == T::Struct && numeric( f.back() ) )
            r.insert( e57::ErrorPathNameMalformed ); // not an element name
         childReasons( at, n, r );
         return at;
      }

      static bool idStart( unsigned char c ) { return c >= 128 || ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || c == '_'; }
      static bool isId( const std::string &x )
      {
         if ( x.empty() || !idStart( x[0] ) )
            return false;
         for ( char c : x )
            if ( !idStart( c ) && !( c >= '0' && c <= '9' ) && c != '-' && c != '.' )
               return false;
         return true;
      }
      static std::string nameProblem( const std::string &x )
      {
         const size_t colon = x.find( ':' );
         if ( colon == std::string::npos )
            return isId( x ) ? "" : "malformed";
         if ( !isId( x.substr( 0, colon ) ) || !isId( x.substr( colon + 1 ) ) )
            return "malformed";
         return x.substr( 0, colon ) == "x" ? "" : "extension";
      }

      void makeCV()
      {
         const int p = drawNode();
         // whether prototypes and codecs may be shared between vectors is left open
         if ( nd[p].owner >= 0 )
            return;
         std::vector<int> vecs;
         for ( size_t i = 0; i < nd.size(); ++i )
            if ( nd[i].t == T::Vec && nd[i].owner < 0 && ( nd[i].leaf.hetero || s.chance( 1, 10 ) ) && ( nd[i].kids.empty() || s.chance( 1, 10 ) ) )
               vecs.push_back( static_cast<int>( i ) );
         if ( vecs.empty() )
            return;
         int c = -1;
         for ( int k : vecs )
            if ( c < 0 && nd[k].parent < 0 && k != p && nd[k].file == 0 )
               c = k;
         if ( c < 0 || s.chance( 1, 4 ) )
            c = s.pick( vecs );
         if ( p == c )
            return;
         Nd n;
         n.t = n.leaf.t = T::CV;
         n.file = s.chance( 1, 12 ) ? 1 : 0;
         n.proto = p;
         n.codecs = c;
         Reasons r;
         for ( int k : { p, c } )
         {
            if ( nd[k].parent >= 0 || attached( k ) )
               r.insert( e57::ErrorAlreadyHasParent );
            if ( nd[k].file != n.file )
               r.insert( e57::ErrorDifferentDestImageFile );
         }
         if ( contains( p, T::Blob ) || contains( p, T::CV ) )
            r.insert( e57::ErrorBadPrototype );
         if ( !nd[c].leaf.hetero )
            r.insert( e57::ErrorBadCodecs );
         std::unique_ptr<e57::Node> made;
         if ( call( sprintf_( "#%zu = CompressedVector f%d(", nd.size(), n.file ) + brief( p ) + ", " + brief( c ) + ")", r,
                    false, [&] {
                       made.reset( new e57::Node( e57::CompressedVectorNode( files[n.file], h[p], e57::VectorNode( h[c] ) ) ) );
                    } ) )
         {
            const int id = add( n, *made );
            nd[p].owner = nd[c].owner = id;
         }
      }

      MN toMN( int i ) const
      {
         const Nd &n = nd[i];
         MN m = n.leaf;
         m.t = n.t;
         if ( n.parent >= 0 && nd[n.parent].t == T::Struct )
            m.name = n.name;
         for ( int k : n.kids )
            m.kids.push_back( toMN( k ) );
         if ( n.t == T::CV )
         {
            m.proto.push_back( toMN( n.proto ) );
            m.codecs.push_back( toMN( n.codecs ) );
            m.cols.resize( leavesOf( m.proto[0] ).size() );
         }
         return m;
      }
   };

   void c10( Ctx &ctx )
   {
      Src &s = ctx.s;
      World w( ctx );
      const std::string ro = ctx.dir + "/ro.e57";
      {
         MN t;
         MN v;
         v.t = T::Vec;
         v.hetero = true;
         v.name = "v";
         MN i;
         i.t = T::Int;
         v.kids.push_back( i );
         MN st;
         st.name = "s";
         t.kids.push_back( v );
         t.kids.push_back( st );
         writeFile( ro, t );
      }
      e57::ImageFile f0( ctx.dir + "/0.e57", "w" ), f1( ctx.dir + "/1.e57", "w" ), f2( ro, "r" );
      f0.extensionsAdd( "x", "http://x" );
      f1.extensionsAdd( "x", "http://x" );
      w.files = { f0, f1, f2 };
      for ( int f = 0; f < 2; ++f )
      {
         Nd n;
         n.file = f;
         n.fileRoot = true;
         w.add( n, w.files[f].root() );
      }
      if ( s.chance( 1, 3 ) ) // elements of a file that is being read
      {
         Nd n;
         n.file = 2;
         n.fileRoot = true;
         const int r = w.add( n, f2.root() );
         n.fileRoot = false;
         n.parent = r;
         n.t = n.leaf.t = T::Vec;
         n.leaf.hetero = true;
         n.name = "v";
         const int v = w.add( n, f2.root().get( "v" ) );
         Nd i;
         i.file = 2;
         i.t = i.leaf.t = T::Int;
         i.parent = v;
         i.name = "0";
         const int k = w.add( i, f2.root().get( "v/0" ) );
         w.nd[v].kids.push_back( k );
         Nd st;
         st.file = 2;
         st.parent = r;
         st.name = "s";
         const int q = w.add( st, f2.root().get( "s" ) );
         w.nd[r].kids = { v, q };
      }
      const size_t start = 2 + s.below( 5 );
      for ( size_t i = 0; i < start; ++i )
         w.create();
      const size_t ops = 1 + s.below( ctx.thorough ? 80 : 40 );
      for ( size_t i = 0; i < ops; ++i )
      {
         switch ( s.weighted( { 5, 4, 8, 2 } ) )
         {
            case 0:
               if ( w.nd.size() < 60 )
                  w.create();
               break;
            case 1:
               w.append();
               break;
            case 2:
               w.set();
               break;
            default:
               w.makeCV();
               break;
         }
         w.check();
      }
      ctx.say( "close\n" );
      try
      {
         f0.close();
         f1.close();
         f2.close();
         ReadOpts o;
         o.content = false;
         for ( int f = 0; f < 2; ++f )
         {
            e57::ImageFile in( ctx.dir + sprintf_( "/%d.e57", f ), "r" );
            const MN got = readNode( in.root(), o, true );
            const std::string d = diff( w.toMN( f ), got );
            in.close();
            if ( !d.empty() )
               fail( sprintf_( "file %d after closing: ", f ) + d );
         }
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "closing and reading: " + what( e ) );
      }
      ctx.nontrivial = w.accepted >= 3 && w.refused >= 1;
      ctx.evals = w.accepted + w.refused + 1;
      ctx.label( w.refused ? "some calls refused" : "no call refused" );
   }

   pbt::Reg r10( { "C10", c10, 8000, 80000, "exploration",
                   "a case counts if at least three calls were accepted and one refused; evaluations are calls",
                   { "trees already used as prototype or codecs are not modified any more" } } );
}
