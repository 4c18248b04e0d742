// Open, closed and busy states of files, readers, writers and elements (C25).
#include "indep.hpp"
#include "lib.hpp"

#include <fstream>
#include <functional>
#include <iterator>
#include <set>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   using Codes = std::set<int>;

   struct File
   {
      std::vector<e57::ImageFile> h; // handles; empty once all are dropped
      bool write = false, open = true, disturbed = false;
      std::string name;
      std::vector<char> memory; // content when read from memory
      int readers = 0, writers = 0;
   };
   struct Vec
   {
      File *f = nullptr;
      std::unique_ptr<e57::CompressedVectorNode> n;
      bool attached = false;
      int64_t records = 0;    // -1: unknown (0 or what a dropped writer wrote)
      int64_t maybe = 0;
      bool touched = false;   // a writer was opened
      bool spoiled = false;   // its writer outlived the file
      int64_t seed = 0;
   };
   struct Bufs
   {
      std::vector<int64_t> a;
      std::vector<double> b;
      std::vector<e57::SourceDestBuffer> v;
      Bufs( const e57::ImageFile &imf, size_t n ) : a( n ), b( n )
      {
         v.emplace_back( imf, "a", a.data(), n );
         v.emplace_back( imf, "b", b.data(), n );
      }
   };
   struct Rd
   {
      Vec *cv;
      std::unique_ptr<e57::CompressedVectorReader> h;
      std::shared_ptr<Bufs> bufs;
      bool open = true;
      int64_t at = 0;
   };
   struct Wr
   {
      Vec *cv;
      std::unique_ptr<e57::CompressedVectorWriter> h;
      std::shared_ptr<Bufs> bufs;
      bool open = true;
      int64_t written = 0;
   };

   int64_t valueA( const Vec &v, int64_t i ) { return ( v.seed * 31 + i * 7 ) % 1000; }
   double valueB( const Vec &v, int64_t i ) { return static_cast<double>( v.seed ) + 0.25 * static_cast<double>( i ); }

   struct World
   {
      Ctx &ctx;
      Src &s;
      std::vector<std::unique_ptr<File>> files;
      std::vector<std::unique_ptr<Vec>> cvs;
      std::vector<std::pair<File *, e57::Node>> nodes;
      std::vector<std::unique_ptr<Rd>> rds;
      std::vector<std::unique_ptr<Wr>> wrs;
      unsigned refused = 0, done = 0, transfers = 0;
      int64_t nextName = 0;

      explicit World( Ctx &c ) : ctx( c ), s( c.s ) {}

      // performs a call; an empty set of codes: it must succeed; otherwise it must raise one
      // of them. `either`: success is acceptable too.
      bool call( const std::string &what, const Codes &codes, bool either, const std::function<void()> &f )
      {
         ctx.say( what + "; " );
         try
         {
            f();
         }
         catch ( const e57::E57Exception &e )
         {
            ++refused;
            if ( codes.empty() )
               fail( what + " raises " + VARIANT::what( e ) );
            if ( !codes.count( -1 ) && !codes.count( static_cast<int>( e.errorCode() ) ) )
            {
               std::string l;
               for ( int c : codes )
                  l += sprintf_( " %d", c );
               fail( what + " raises " + VARIANT::what( e ) + ", expected" + l );
            }
            return false;
         }
         if ( !codes.empty() && !either )
            fail( what + sprintf_( " succeeds, expected error %d", *codes.begin() ) );
         ++done;
         return true;
      }
      // codes of a call that needs an open file
      static Codes closedCodes( const File &f )
      {
         Codes c;
         if ( !f.open || f.h.empty() )
            c.insert( e57::ErrorImageFileNotOpen );
         return c;
      }
      void check()
      {
         for ( auto &f : files )
         {
            if ( f->h.empty() )
               continue;
            const e57::ImageFile &imf = f->h.front();
            if ( imf.isOpen() != f->open )
               fail( sprintf_( "isOpen reports %d", !f->open ) );
            if ( imf.isWritable() != f->write )
               fail( "isWritable is wrong" );
            if ( imf.fileName() != f->name )
               fail( "fileName is '" + imf.fileName() + "'" );
            if ( f->open )
            {
               if ( imf.readerCount() != f->readers )
                  fail( sprintf_( "readerCount is %d with %d readers open", imf.readerCount(), f->readers ) );
               if ( imf.writerCount() != f->writers )
                  fail( sprintf_( "writerCount is %d with %d writers open", imf.writerCount(), f->writers ) );
            }
         }
         for ( auto &r : rds )
            if ( fileOpen( *r->cv->f ) && r->h->isOpen() != r->open )
               fail( sprintf_( "reader: isOpen reports %d", !r->open ) );
         for ( auto &w : wrs )
            if ( fileOpen( *w->cv->f ) && w->h->isOpen() != w->open )
               fail( sprintf_( "writer: isOpen reports %d", !w->open ) );
         for ( auto &v : cvs )
            if ( fileOpen( *v->f ) && v->records >= 0 && v->n->childCount() != v->records )
               fail( sprintf_( "childCount is %lld, %lld records written", (long long)v->n->childCount(), (long long)v->records ) );
      }
      static bool fileOpen( const File &f ) { return f.open && !f.h.empty(); }
      e57::ImageFile &imf( File &f ) { return f.h[s.below( f.h.size() )]; }
      File *someFile()
      {
         std::vector<File *> v;
         for ( auto &f : files )
            if ( !f->h.empty() )
               v.push_back( f.get() );
         return v.empty() ? nullptr : v[s.below( v.size() )];
      }

      void openWrite()
      {
         files.emplace_back( new File );
         File &f = *files.back();
         f.write = true;
         f.name = ctx.dir + sprintf_( "/f%zu.e57", files.size() );
         ctx.say( "open for writing; " );
         f.h.emplace_back( f.name, "w" );
         for ( int i = 0; i < 3; ++i )
            newVec( f );
      }
      e57::StructureNode proto( const e57::ImageFile &x )
      {
         e57::StructureNode p( x );
         p.set( "a", e57::IntegerNode( x, 0, 0, 1000 ) );
         p.set( "b", e57::FloatNode( x, 0., e57::PrecisionDouble, -1e9, 1e9 ) );
         return p;
      }
      void newVec( File &f )
      {
         cvs.emplace_back( new Vec );
         Vec &v = *cvs.back();
         v.f = &f;
         v.seed = static_cast<int64_t>( cvs.size() );
         e57::ImageFile x = imf( f );
         v.n.reset( new e57::CompressedVectorNode( x, proto( x ), e57::VectorNode( x, true ) ) );
         if ( s.chance( 2, 3 ) )
            attach( v );
      }
      void attach( Vec &v )
      {
         imf( *v.f ).root().set( sprintf_( "v%lld", (long long)nextName++ ), *v.n );
         v.attached = true;
      }
      // a file with records, opened for reading
      void openRead()
      {
         const std::string name = ctx.dir + sprintf_( "/r%zu.e57", files.size() );
         std::vector<int64_t> counts;
         {
            e57::ImageFile x( name, "w" );
            for ( int i = 0; i < 2; ++i )
            {
               e57::CompressedVectorNode cv( x, proto( x ), e57::VectorNode( x, true ) );
               x.root().set( sprintf_( "v%d", i ), cv );
               const int64_t n = static_cast<int64_t>( s.below( 40 ) );
               Vec tmp;
               tmp.seed = static_cast<int64_t>( cvs.size() ) + 1 + i;
               Bufs b( x, 40 );
               for ( int64_t k = 0; k < n; ++k )
               {
                  b.a[static_cast<size_t>( k )] = valueA( tmp, k );
                  b.b[static_cast<size_t>( k )] = valueB( tmp, k );
               }
               e57::CompressedVectorWriter w = cv.writer( b.v );
               w.write( static_cast<size_t>( n ) );
               w.close();
               counts.push_back( n );
            }
            e57::BlobNode bl( x, 10 );
            x.root().set( "blob", bl );
            x.close();
         }
         files.emplace_back( new File );
         File &f = *files.back();
         ctx.say( "open for reading; " );
         if ( s.flip() )
         {
            f.name = name;
            f.h.emplace_back( name, "r" );
         }
         else
         {
            std::ifstream in( name, std::ios::binary );
            f.memory.assign( std::istreambuf_iterator<char>( in ), std::istreambuf_iterator<char>() );
            f.h.emplace_back( f.memory.data(), f.memory.size() );
            f.name = f.h.front().fileName();
         }
         for ( int i = 0; i < 2; ++i )
         {
            cvs.emplace_back( new Vec );
            Vec &v = *cvs.back();
            v.f = &f;
            v.seed = static_cast<int64_t>( cvs.size() );
            v.n.reset( new e57::CompressedVectorNode( f.h.front().root().get( sprintf_( "v%d", i ) ) ) );
            v.attached = v.touched = true;
            v.records = counts[static_cast<size_t>( i )];
         }
         nodes.emplace_back( &f, f.h.front().root().get( "blob" ) );
         nodes.emplace_back( &f, f.h.front().root() );
      }

      void newNode()
      {
         File *f = someFile();
         if ( !f )
            return;
         e57::ImageFile x = imf( *f );
         Codes c = closedCodes( *f );
         bool either = false;
         if ( c.empty() && !f->write )
         {
            // refusing elements of a file that cannot be written is documented, not required here
            c.insert( e57::ErrorFileReadOnly );
            either = true;
         }
         std::unique_ptr<e57::Node> n;
         static const char *names[] = { "StructureNode", "VectorNode", "IntegerNode", "ScaledIntegerNode", "FloatNode", "StringNode", "BlobNode" };
         const uint64_t kind = s.below( f->write || !f->open ? 7 : 6 );
         const bool ok = call( sprintf_( "new %s", names[kind] ), c, either, [&] {
            switch ( kind )
            {
               case 0:
                  n.reset( new e57::Node( e57::StructureNode( x ) ) );
                  break;
               case 1:
                  n.reset( new e57::Node( e57::VectorNode( x, true ) ) );
                  break;
               case 2:
                  n.reset( new e57::Node( e57::IntegerNode( x, 3, 0, 10 ) ) );
                  break;
               case 3:
                  n.reset( new e57::Node( e57::ScaledIntegerNode( x, int64_t( 3 ), int64_t( 0 ), int64_t( 10 ), 0.5, 1. ) ) );
                  break;
               case 4:
                  n.reset( new e57::Node( e57::FloatNode( x, 2.5 ) ) );
                  break;
               case 5:
                  n.reset( new e57::Node( e57::StringNode( x, "abc" ) ) );
                  break;
               default:
                  n.reset( new e57::Node( e57::BlobNode( x, 10 ) ) );
                  break;
            }
         } );
         if ( !ok )
            return;
         if ( f->write && s.flip() )
         {
            // beneath the root or an earlier container
            call( "set", {}, false, [&] { x.root().set( sprintf_( "n%lld", (long long)nextName++ ), *n ); } );
         }
         nodes.emplace_back( f, *n );
      }

      void nodeCall()
      {
         if ( nodes.empty() )
            return;
         auto &p = nodes[s.below( nodes.size() )];
         File &f = *p.first;
         e57::Node &n = p.second;
         const Codes c = closedCodes( f );
         const bool gone = f.h.empty();
         if ( n.type() < e57::TypeStructure || n.type() > e57::TypeBlob )
            fail( "type is wrong" );
         const uint64_t k = s.below( 16 );
         switch ( k )
         {
            case 0:
               call( "isRoot", c, false, [&] { n.isRoot(); } );
               return;
            case 1:
               call( "parent", c, false, [&] { n.parent(); } );
               return;
            case 2:
               call( "pathName", c, false, [&] { n.pathName(); } );
               return;
            case 3:
               call( "elementName", c, false, [&] { n.elementName(); } );
               return;
            case 4:
               call( "isAttached", c, false, [&] { n.isAttached(); } );
               return;
            case 5:
               if ( !gone )
                  call( "destImageFile", {}, false, [&] {
                     if ( n.destImageFile() != f.h.front() )
                        fail( "destImageFile is another file" );
                  } );
               return;
            case 6:
               if ( !gone )
                  call( "checkInvariant", {}, false, [&] { n.checkInvariant(); } );
               return;
            default:
               break;
         }
         const auto pick = [&]( std::vector<std::pair<const char *, std::function<void()>>> v ) {
            auto &x = v[s.below( v.size() )];
            call( x.first, c, false, x.second );
         };
         const auto type = n.type();
         if ( type == e57::TypeInteger )
         {
            e57::IntegerNode x( n );
            pick( { { "Integer value", [=] { x.value(); } }, { "Integer minimum", [=] { x.minimum(); } }, { "Integer maximum", [=] { x.maximum(); } } } );
         }
         else if ( type == e57::TypeScaledInteger )
         {
            e57::ScaledIntegerNode x( n );
            pick( { { "rawValue", [=] { x.rawValue(); } },
                    { "scaledValue", [=] { x.scaledValue(); } },
                    { "ScaledInteger minimum", [=] { x.minimum(); } },
                    { "scaledMinimum", [=] { x.scaledMinimum(); } },
                    { "ScaledInteger maximum", [=] { x.maximum(); } },
                    { "scaledMaximum", [=] { x.scaledMaximum(); } },
                    { "scale", [=] { x.scale(); } },
                    { "offset", [=] { x.offset(); } } } );
         }
         else if ( type == e57::TypeFloat )
         {
            e57::FloatNode x( n );
            pick( { { "Float value", [=] { x.value(); } },
                    { "precision", [=] { x.precision(); } },
                    { "Float minimum", [=] { x.minimum(); } },
                    { "Float maximum", [=] { x.maximum(); } } } );
         }
         else if ( type == e57::TypeString )
         {
            e57::StringNode x( n );
            pick( { { "String value", [=] { x.value(); } } } );
         }
         else if ( type == e57::TypeBlob )
         {
            e57::BlobNode x( n );
            uint8_t buf[10] = {};
            if ( s.flip() )
               pick( { { "byteCount", [=] { x.byteCount(); } }, { "blob read", [&] { x.read( buf, 0, 10 ); } } } );
            else
            {
               Codes w = c;
               if ( w.empty() && !f.write )
                  w.insert( e57::ErrorFileReadOnly );
               if ( w.empty() && !n.isAttached() )
                  w.insert( e57::ErrorNodeUnattached );
               call( "blob write", w, false, [&] { x.write( buf, 2, 5 ); } );
            }
         }
         else if ( type == e57::TypeStructure || type == e57::TypeVector )
         {
            if ( s.chance( 1, 3 ) )
            {
               // a new child
               std::unique_ptr<e57::Node> child;
               Codes w = c;
               if ( w.empty() && !f.write )
                  w.insert( e57::ErrorFileReadOnly );
               if ( c.empty() )
               {
                  try
                  {
                     child.reset( new e57::Node( e57::IntegerNode( n.destImageFile(), 0 ) ) );
                  }
                  catch ( const e57::E57Exception &e )
                  {
                     if ( f.write )
                        fail( "IntegerNode: " + VARIANT::what( e ) );
                     return;
                  }
               }
               else
                  child.reset( new e57::Node( nodes[s.below( nodes.size() )].second ) );
               if ( !c.empty() )
                  w.insert( -1 ); // (the child has its own reasons)
               call( "adding a child", w, false, [&] {
                  if ( type == e57::TypeStructure )
                     e57::StructureNode( n ).set( sprintf_( "c%lld", (long long)nextName++ ), *child );
                  else
                     e57::VectorNode( n ).append( *child );
               } );
               return;
            }
            if ( type == e57::TypeStructure )
            {
               e57::StructureNode x( n );
               pick( { { "Structure childCount", [=] { x.childCount(); } },
                       { "Structure isDefined", [=] { x.isDefined( "abc" ); } } } );
               call( "get", c.empty() ? Codes{ e57::ErrorPathUndefined } : c, false, [&] { x.get( "none" ); } );
               call( "get", c.empty() ? Codes{ e57::ErrorChildIndexOutOfBounds } : c, false, [&] { x.get( 1000000 ); } );
            }
            else
            {
               e57::VectorNode x( n );
               pick( { { "Vector childCount", [=] { x.childCount(); } },
                       { "allowHeteroChildren", [=] { x.allowHeteroChildren(); } },
                       { "Vector isDefined", [=] { x.isDefined( "1000" ); } } } );
               call( "get", c.empty() ? Codes{ e57::ErrorPathUndefined } : c, false, [&] { x.get( "1000" ); } );
               call( "get", c.empty() ? Codes{ e57::ErrorChildIndexOutOfBounds } : c, false, [&] { x.get( 1000000 ); } );
            }
         }
      }

      void fileCall()
      {
         File *f = someFile();
         if ( !f )
            return;
         e57::ImageFile x = imf( *f );
         const Codes c = closedCodes( *f );
         std::string u;
         switch ( s.below( 9 ) )
         {
            case 0:
               call( "root", c, false, [&] { x.root(); } );
               break;
            case 1:
               call( "extensionsCount", c, false, [&] { x.extensionsCount(); } );
               break;
            case 2:
               call( "extensionsLookupPrefix", c, false, [&] { x.extensionsLookupPrefix( "abc", u ); } );
               break;
            case 3:
               call( "extensionsLookupPrefix", c, false, [&] { x.extensionsLookupPrefix( "abc" ); } );
               break;
            case 4:
               call( "extensionsLookupUri", c, false, [&] { x.extensionsLookupUri( "http://abc", u ); } );
               break;
            case 5:
               call( "extensionsPrefix", c.empty() ? Codes{ e57::ErrorBadAPIArgument } : c, false, [&] { x.extensionsPrefix( 1000 ); } );
               break;
            case 6:
               call( "extensionsUri", c.empty() ? Codes{ e57::ErrorBadAPIArgument } : c, false, [&] { x.extensionsUri( 1000 ); } );
               break;
            case 7:
               if ( f->write || !f->open )
                  call( "extensionsAdd", c, false, [&] {
                     const int64_t k = nextName++;
                     x.extensionsAdd( sprintf_( "p%lld", (long long)k ), sprintf_( "http://p/%lld", (long long)k ) );
                  } );
               break;
            default:
            {
               double d[4];
               call( "new SourceDestBuffer", c, false, [&] { e57::SourceDestBuffer b( x, "a", d, 4 ); } );
               break;
            }
         }
      }

      void vecCall( Vec &v )
      {
         const Codes c = closedCodes( *v.f );
         switch ( s.below( 4 ) )
         {
            case 0:
               call( "CompressedVector childCount", c, false, [&] { v.n->childCount(); } );
               break;
            case 1:
               call( "prototype", c, false, [&] { v.n->prototype(); } );
               break;
            case 2:
               call( "codecs", c, false, [&] { v.n->codecs(); } );
               break;
            default:
               if ( fileOpen( *v.f ) && !v.attached )
               {
                  ctx.say( "attach; " );
                  attach( v );
               }
               break;
         }
      }

      std::shared_ptr<Bufs> buffers( File &f )
      {
         // (a closed file refuses new buffers)
         if ( !fileOpen( f ) )
            return nullptr;
         return std::make_shared<Bufs>( imf( f ), 1 + s.below( 30 ) );
      }
      void openWriter( Vec &v )
      {
         auto b = buffers( *v.f );
         std::vector<e57::SourceDestBuffer> none;
         const bool empty = s.chance( 1, 12 );
         Codes c = closedCodes( *v.f );
         if ( c.empty() )
         {
            if ( v.f->writers )
               c.insert( e57::ErrorTooManyWriters );
            if ( v.f->readers )
               c.insert( e57::ErrorTooManyReaders );
            if ( !v.f->write )
               c.insert( e57::ErrorFileReadOnly );
            if ( !v.attached )
               c.insert( e57::ErrorNodeUnattached );
            if ( v.records > 0 || ( v.touched && !v.f->write ) )
               c.insert( e57::ErrorSetTwice );
            if ( empty )
               c.insert( e57::ErrorBadAPIArgument );
         }
         bool either = false;
         if ( c.empty() && v.touched )
         {
            // a vector that was opened for writing before and has no records, or may have none
            either = true;
            c.insert( e57::ErrorSetTwice );
         }
         std::unique_ptr<e57::CompressedVectorWriter> h;
         if ( !call( "writer", c, either, [&] { h.reset( new e57::CompressedVectorWriter( v.n->writer( empty || !b ? none : b->v ) ) ); } ) )
            return;
         if ( v.records < 0 && v.n->childCount() > 0 )
            fail( "a second writer was opened on a vector that has records" );
         wrs.emplace_back( new Wr );
         wrs.back()->cv = &v;
         wrs.back()->h = std::move( h );
         wrs.back()->bufs = b;
         v.touched = true;
         v.records = -1;
         v.maybe = 0;
         ++v.f->writers;
      }
      void openReader( Vec &v )
      {
         auto b = buffers( *v.f );
         std::vector<e57::SourceDestBuffer> none;
         const bool empty = s.chance( 1, 12 );
         Codes c = closedCodes( *v.f );
         bool either = false;
         if ( c.empty() )
         {
            if ( v.f->writers )
               c.insert( e57::ErrorTooManyWriters );
            if ( !v.attached )
               c.insert( e57::ErrorNodeUnattached );
            if ( empty )
               c.insert( e57::ErrorBadAPIArgument );
            if ( v.f->readers )
            {
               // several readers are documented, one is implemented
               either = c.empty();
               c.insert( e57::ErrorTooManyReaders );
            }
            if ( !v.touched || v.records < 0 )
            {
               // never written: not specified
               if ( c.empty() )
                  either = true;
               if ( either )
                  c.insert( -1 );
            }
         }
         std::unique_ptr<e57::CompressedVectorReader> h;
         if ( !call( "reader", c, either, [&] { h.reset( new e57::CompressedVectorReader( v.n->reader( empty || !b ? none : b->v ) ) ); } ) )
            return;
         rds.emplace_back( new Rd );
         rds.back()->cv = &v;
         rds.back()->h = std::move( h );
         rds.back()->bufs = b;
         ++v.f->readers;
      }
      void readerCall( Rd &r )
      {
         Vec &v = *r.cv;
         File &f = *v.f;
         Codes c = closedCodes( f );
         if ( !r.open )
            c.insert( e57::ErrorReaderNotOpen );
         switch ( s.below( 8 ) )
         {
            case 0:
            {
               const bool was = r.open;
               // (with the file closed: documented without an error; refusing is accepted)
               call( "close reader", closedCodes( f ), true, [&] { r.h->close(); } );
               r.open = false;
               if ( was )
                  --f.readers;
               break;
            }
            case 1:
               call( "seek", c.empty() ? Codes{ e57::ErrorNotImplemented, e57::ErrorBadAPIArgument } : ( c.insert( e57::ErrorNotImplemented ), c ), false,
                     [&] { r.h->seek( v.records + 5 ); } );
               break;
            case 2:
               call( "compressedVectorNode", closedCodes( f ), true, [&] {
                  if ( e57::Node( r.h->compressedVectorNode() ) != e57::Node( *v.n ) )
                     fail( "compressedVectorNode is another one" );
               } );
               break;
            case 3:
               if ( fileOpen( f ) )
                  call( "checkInvariant", {}, false, [&] { r.h->checkInvariant(); } );
               break;
            default:
            {
               const bool given = s.flip();
               std::shared_ptr<Bufs> b = r.bufs;
               if ( given && fileOpen( f ) )
                  b = std::make_shared<Bufs>( imf( f ), r.bufs->a.size() );
               unsigned n = 0;
               if ( !call( given ? "read (buffers)" : "read", c, false, [&] { n = given ? r.h->read( b->v ) : r.h->read(); } ) )
                  break;
               r.bufs = b;
               ++transfers;
               const int64_t want = v.records < 0 ? static_cast<int64_t>( n ) : std::min<int64_t>( static_cast<int64_t>( b->a.size() ), v.records - r.at );
               if ( n != want )
                  fail( sprintf_( "read delivers %u records, expected %lld", n, (long long)want ) );
               for ( unsigned i = 0; i < n; ++i )
                  if ( b->a[i] != valueA( v, r.at + i ) || b->b[i] != valueB( v, r.at + i ) )
                     fail( sprintf_( "record %lld is wrong", (long long)r.at + i ) );
               r.at += n;
               break;
            }
         }
      }
      void writerCall( Wr &w )
      {
         Vec &v = *w.cv;
         File &f = *v.f;
         Codes c = closedCodes( f );
         if ( !w.open )
            c.insert( e57::ErrorWriterNotOpen );
         switch ( s.below( 8 ) )
         {
            case 0:
            case 1:
            {
               const bool was = w.open;
               // repeated close does nothing, whatever the file's state
               const bool ok = call( "close writer", closedCodes( f ), !w.open, [&] { w.h->close(); } );
               w.open = false;
               if ( was )
               {
                  --f.writers;
                  if ( ok && !v.spoiled )
                     v.records = w.written;
               }
               break;
            }
            case 2:
               call( "compressedVectorNode", closedCodes( f ), true, [&] {
                  if ( e57::Node( w.h->compressedVectorNode() ) != e57::Node( *v.n ) )
                     fail( "compressedVectorNode is another one" );
               } );
               break;
            case 3:
               if ( fileOpen( f ) )
                  call( "checkInvariant", {}, false, [&] { w.h->checkInvariant(); } );
               break;
            default:
            {
               const bool given = s.flip();
               std::shared_ptr<Bufs> b = w.bufs;
               if ( given && fileOpen( f ) )
                  b = std::make_shared<Bufs>( imf( f ), w.bufs->a.size() );
               const size_t n = s.below( b->a.size() + 1 );
               for ( size_t i = 0; i < n; ++i )
               {
                  b->a[i] = valueA( v, w.written + static_cast<int64_t>( i ) );
                  b->b[i] = valueB( v, w.written + static_cast<int64_t>( i ) );
               }
               if ( !call( sprintf_( "write %zu%s", n, given ? " (buffers)" : "" ), c, false, [&] {
                       if ( given )
                          w.h->write( b->v, n );
                       else
                          w.h->write( n );
                    } ) )
                  break;
               w.bufs = b;
               ++transfers;
               w.written += static_cast<int64_t>( n );
               v.maybe = w.written;
               break;
            }
         }
      }
      void endFile( File &f )
      {
         f.open = false;
         for ( auto &v : cvs )
            if ( v->f == &f && v->records < 0 )
               v->spoiled = true;
      }

      void step()
      {
         const uint64_t k = s.below( 40 );
         if ( k < 2 )
         {
            if ( files.size() < 4 )
            {
               if ( s.flip() )
                  openWrite();
               else
                  openRead();
            }
         }
         else if ( k < 5 )
            newNode();
         else if ( k < 11 )
            nodeCall();
         else if ( k < 13 )
            fileCall();
         else if ( k < 15 )
            vecCall( *cvs[s.below( cvs.size() )] );
         else if ( k < 18 )
            openWriter( *cvs[s.below( cvs.size() )] );
         else if ( k < 21 )
            openReader( *cvs[s.below( cvs.size() )] );
         else if ( k < 27 )
         {
            if ( !rds.empty() )
               readerCall( *rds[s.below( rds.size() )] );
         }
         else if ( k < 34 )
         {
            if ( !wrs.empty() )
               writerCall( *wrs[s.below( wrs.size() )] );
         }
         else if ( k == 34 )
         {
            if ( File *f = someFile() )
            {
               // (closing while a writer is open is not specified; the calls after it are)
               call( "close file", f->writers ? Codes{ -1 } : Codes{}, true, [&] { imf( *f ).close(); } );
               if ( f->h.front().isOpen() && f->writers )
                  return; // refused
               endFile( *f );
            }
         }
         else if ( k == 35 )
         {
            if ( File *f = someFile() )
            {
               call( "cancel file", {}, false, [&] { imf( *f ).cancel(); } );
               endFile( *f );
            }
         }
         else if ( k == 36 )
         {
            if ( File *f = someFile() )
            {
               if ( s.chance( 1, 3 ) )
                  f->h.push_back( imf( *f ) );
               else
               {
                  ctx.say( "drop a file handle; " );
                  f->h.erase( f->h.begin() + static_cast<long>( s.below( f->h.size() ) ) );
                  if ( f->h.empty() )
                     endFile( *f );
               }
            }
         }
         else if ( k == 37 )
         {
            if ( !rds.empty() )
            {
               const size_t i = s.below( rds.size() );
               ctx.say( "drop a reader; " );
               if ( rds[i]->open )
                  --rds[i]->cv->f->readers;
               rds.erase( rds.begin() + static_cast<long>( i ) );
            }
         }
         else if ( k == 38 )
         {
            if ( !wrs.empty() )
            {
               const size_t i = s.below( wrs.size() );
               Vec &v = *wrs[i]->cv;
               const bool open = wrs[i]->open;
               const int64_t n = wrs[i]->written;
               ctx.say( "drop a writer; " );
               if ( open )
                  --v.f->writers;
               wrs.erase( wrs.begin() + static_cast<long>( i ) );
               if ( open && fileOpen( *v.f ) )
               {
                  // documented: all writes are lost; implemented: they are kept
                  const int64_t c = v.n->childCount();
                  if ( c != 0 && c != n )
                     fail( sprintf_( "%lld records after a writer of %lld was dropped", (long long)c, (long long)n ) );
                  v.records = c;
               }
            }
         }
         else if ( k == 39 )
         {
            if ( !nodes.empty() )
               nodes.erase( nodes.begin() + static_cast<long>( s.below( nodes.size() ) ) );
         }
         check();
      }
   };

   void c25( Ctx &ctx )
   {
      Src &s = ctx.s;
      World w( ctx );
      try
      {
         if ( s.flip() )
            w.openWrite();
         else
            w.openRead();
         const unsigned steps = 10 + static_cast<unsigned>( s.below( 120 ) );
         for ( unsigned i = 0; i < steps; ++i )
            w.step();
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "unexpected exception: " + what( e ) );
      }
      ctx.nontrivial = w.refused > 0 && w.done > 0;
      ctx.label( w.refused > 20 ? "refused>20" : w.refused ? "refused 1-20" : "refused 0" );
      ctx.label( w.transfers > 5 ? "transfers>5" : w.transfers ? "transfers 1-5" : "transfers 0" );
   }

   pbt::Reg r25( { "C25", c25, 16000, 150000, "exploration",
                   "a case counts if calls were accepted and calls were refused",
                   { "a second open reader may be refused or accepted; closing a file while a writer is open may do anything but crash",
                     "records of a writer dropped unclosed may be lost or kept" } } );
}
