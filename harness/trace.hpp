// Visits everything that can be read from an open file and writes down each result and
// each error, so that two openings can be compared line by line.
#pragma once

#include "lib.hpp"

namespace VARIANT
{
   struct TraceOpts
   {
      uint64_t maxNodes = 3000;
      uint64_t capacity = 64;     // records per buffer
      uint64_t maxReads = 60;     // read calls per reader
      uint64_t maxBlob = 1 << 16; // bytes per blob read
      unsigned maxDepth = 300;
      bool content = true;
      int retries = 1; // further reads after an error
   };

   class Tracer
   {
   public:
      explicit Tracer( const TraceOpts &opts = TraceOpts() ) : o( opts ) {}
      std::string out;
      size_t errors = 0, values = 0;

      void file( const e57::ImageFile &imf )
      {
         step( "root", [&] { visit( imf.root(), 0 ); } );
         step( "extensions", [&] {
            const size_t n = imf.extensionsCount();
            line( sprintf_( "extensions %zu", n ) );
            for ( size_t i = 0; i < n && i < 50; ++i )
               step( "extension", [&] {
                  line( "  " + imf.extensionsPrefix( i ) + " = " + imf.extensionsUri( i ) );
               } );
         } );
         step( "counts", [&] { line( sprintf_( "open %d readers %d writers %d", imf.isOpen(), imf.readerCount(), imf.writerCount() ) ); } );
      }

   private:
      TraceOpts o;
      uint64_t nodes = 0;

      void line( const std::string &l )
      {
         out += l;
         out += '\n';
      }
      template <class F> bool step( const char *what, F f )
      {
         try
         {
            f();
            return true;
         }
         catch ( const e57::E57Exception &e )
         {
            ++errors;
            line( sprintf_( "%s: error %d", what, static_cast<int>( e.errorCode() ) ) );
            return false;
         }
      }

      void collect( const e57::Node &n, std::vector<e57::Node> &leaves, unsigned depth )
      {
         if ( leaves.size() > 300 || depth > o.maxDepth )
            return;
         if ( n.type() == e57::TypeStructure )
         {
            e57::StructureNode x( n );
            for ( int64_t i = 0; i < x.childCount(); ++i )
               collect( x.get( i ), leaves, depth + 1 );
         }
         else if ( n.type() == e57::TypeVector )
         {
            e57::VectorNode x( n );
            for ( int64_t i = 0; i < x.childCount(); ++i )
               collect( x.get( i ), leaves, depth + 1 );
         }
         else
            leaves.push_back( n );
      }

      void records( e57::CompressedVectorNode cv )
      {
         std::vector<e57::Node> leaves;
         collect( cv.prototype(), leaves, 0 );
         std::vector<std::unique_ptr<Buf>> bufs;
         std::vector<e57::SourceDestBuffer> db;
         for ( auto &l : leaves )
         {
            MT t = I64;
            switch ( l.type() )
            {
               case e57::TypeFloat:
                  t = e57::FloatNode( l ).precision() == e57::PrecisionSingle ? F32 : F64;
                  break;
               case e57::TypeString:
                  t = STR;
                  break;
               case e57::TypeInteger:
               case e57::TypeScaledInteger:
                  break;
               default:
                  line( "  leaf of another type" );
                  break;
            }
            bufs.emplace_back( new Buf( t, o.capacity, false, false ) );
            db.push_back( bufs.back()->sdb( cv.destImageFile(), l.pathName() ) );
         }
         e57::CompressedVectorReader r = cv.reader( db );
         int left = o.retries;
         for ( uint64_t k = 0; k < o.maxReads; ++k )
         {
            unsigned got = 0;
            if ( !step( "  read", [&] { got = r.read(); } ) )
            {
               if ( left-- > 0 )
                  continue;
               break;
            }
            line( sprintf_( "  %u records", got ) );
            if ( got > o.capacity )
               pbt::fail( sprintf_( "read returned %u records for buffers of %llu", got, (unsigned long long)o.capacity ) );
            for ( auto &b : bufs )
            {
               // (an earlier failed read may have filled more than this one delivers)
               if ( left == o.retries )
               {
                  const std::string g = b->guardsIntact( got );
                  if ( !g.empty() )
                     pbt::fail( g );
               }
               for ( unsigned i = 0; i < got; ++i )
               {
                  ++values;
                  if ( b->t == STR )
                     out += showStr( b->strs[i] );
                  else if ( b->t == F32 || b->t == F64 )
                     out += showNum( b->getD( i ) );
                  else
                     out += std::to_string( b->getI( i ) );
                  out += ' ';
               }
               out += '\n';
               b->reset();
            }
            if ( got == 0 )
               break;
         }
         step( "  close", [&] { r.close(); } );
      }
      static std::string showStr( const std::string &s ) { return model::showStr( s, 80 ) + sprintf_( "#%zu", s.size() ); }
      static std::string showNum( double d ) { return model::showNum( d ); }

      void blob( e57::BlobNode b )
      {
         const int64_t n = b.byteCount();
         line( sprintf_( "  %lld bytes", (long long)n ) );
         for ( int64_t start : { int64_t( 0 ), n / 2, n < 5 ? n : n - 5, n } )
         {
            const size_t count = n < 0 ? 4 : static_cast<size_t>( std::min<uint64_t>( o.maxBlob, static_cast<uint64_t>( n - start ) ) );
            if ( start < 0 && n >= 0 )
               continue;
            std::vector<uint8_t> buf( count );
            step( "  blob read", [&] {
               b.read( buf.data(), start, count );
               values += count;
               line( sprintf_( "  %zu at %lld: %016llx", count, (long long)start,
                               (unsigned long long)pbt::hash64( std::string( buf.begin(), buf.end() ) ) ) );
            } );
         }
      }

      void visit( const e57::Node &n, unsigned depth )
      {
         if ( ++nodes > o.maxNodes || depth > o.maxDepth )
            return;
         step( "name", [&] { line( n.pathName() + sprintf_( " type %d attached %d", static_cast<int>( n.type() ), n.isAttached() ) ); } );
         step( "node", [&] {
            switch ( n.type() )
            {
               case e57::TypeStructure:
               {
                  e57::StructureNode x( n );
                  const int64_t c = x.childCount();
                  line( sprintf_( " %lld children", (long long)c ) );
                  for ( int64_t i = 0; i < c && nodes <= o.maxNodes; ++i )
                     step( "child", [&] { visit( x.get( i ), depth + 1 ); } );
                  break;
               }
               case e57::TypeVector:
               {
                  e57::VectorNode x( n );
                  const int64_t c = x.childCount();
                  line( sprintf_( " %lld children, hetero %d", (long long)c, x.allowHeteroChildren() ) );
                  for ( int64_t i = 0; i < c && nodes <= o.maxNodes; ++i )
                     step( "child", [&] { visit( x.get( i ), depth + 1 ); } );
                  break;
               }
               case e57::TypeCompressedVector:
               {
                  e57::CompressedVectorNode x( n );
                  step( "count", [&] { line( sprintf_( " %lld records", (long long)x.childCount() ) ); } );
                  step( "prototype", [&] { visit( x.prototype(), depth + 1 ); } );
                  step( "codecs", [&] { visit( x.codecs(), depth + 1 ); } );
                  if ( o.content )
                     step( "records", [&] { records( x ); } );
                  break;
               }
               case e57::TypeInteger:
               {
                  e57::IntegerNode x( n );
                  ++values;
                  line( sprintf_( " %lld %lld %lld", (long long)x.value(), (long long)x.minimum(), (long long)x.maximum() ) );
                  break;
               }
               case e57::TypeScaledInteger:
               {
                  e57::ScaledIntegerNode x( n );
                  ++values;
                  line( sprintf_( " %lld %lld %lld %s %s %s", (long long)x.rawValue(), (long long)x.minimum(), (long long)x.maximum(),
                                  showNum( x.scale() ).c_str(), showNum( x.offset() ).c_str(), showNum( x.scaledValue() ).c_str() ) );
                  break;
               }
               case e57::TypeFloat:
               {
                  e57::FloatNode x( n );
                  ++values;
                  line( sprintf_( " %d %s %s %s", static_cast<int>( x.precision() ), showNum( x.value() ).c_str(),
                                  showNum( x.minimum() ).c_str(), showNum( x.maximum() ).c_str() ) );
                  break;
               }
               case e57::TypeString:
                  ++values;
                  line( " " + showStr( e57::StringNode( n ).value() ) );
                  break;
               case e57::TypeBlob:
                  if ( o.content )
                     blob( e57::BlobNode( n ) );
                  break;
               default:
                  line( " unknown type" );
                  break;
            }
         } );
      }
   };

   inline std::string firstDifference( const std::string &a, const std::string &b )
   {
      size_t p = 0, lineStart = 0;
      while ( p < a.size() && p < b.size() && a[p] == b[p] )
      {
         if ( a[p] == '\n' )
            lineStart = p + 1;
         ++p;
      }
      const auto cut = [&]( const std::string &x ) {
         return x.substr( std::min( lineStart, x.size() ), std::min<size_t>( 200, x.find( '\n', lineStart ) - lineStart ) );
      };
      return "'" + cut( a ) + "' against '" + cut( b ) + "'";
   }
}
