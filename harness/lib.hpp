// Library-facing helpers. Everything that touches the library's types lives in
// namespace VARIANT so that the same code can be compiled for several builds of the
// library (see harness/variant).
#pragma once

#include "model.hpp"

#include "E57Format.h"

#include <functional>
#include <cstring>
#include <memory>

#ifndef VARIANT
#define VARIANT var_main
#endif

namespace VARIANT
{
   using model::Col;
   using model::Leaf;
   using model::MN;
   using model::T;
   using pbt::sprintf_;

   enum MT
   {
      I8,
      U8,
      I16,
      U16,
      I32,
      U32,
      I64,
      BO,
      F32,
      F64,
      STR
   };

   inline const char *mtName( MT t )
   {
      static const char *n[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32",
                                 "int64", "bool", "float", "double", "string" };
      return n[t];
   }

   inline size_t mtSize( MT t )
   {
      static const size_t n[] = { 1, 1, 2, 2, 4, 4, 8, 1, 4, 8, 0 };
      return n[t];
   }

   inline int64_t mtMin( MT t )
   {
      static const int64_t n[] = { INT8_MIN, 0, INT16_MIN, 0, INT32_MIN, 0, INT64_MIN, 0 };
      return n[t];
   }
   inline int64_t mtMax( MT t )
   {
      static const int64_t n[] = { INT8_MAX, UINT8_MAX, INT16_MAX, UINT16_MAX, INT32_MAX, UINT32_MAX, INT64_MAX, 1 };
      return n[t];
   }

   inline bool isInt( MT t ) { return t <= I64; }

   // A caller's buffer with guard bytes everywhere an element is not.
   class Buf
   {
   public:
      static constexpr uint8_t Guard = 0xA5;
      MT t;
      size_t cap, stride;
      bool conv, scale;
      std::vector<uint64_t> mem; // 8-byte aligned storage
      std::vector<std::string> strs;

      Buf( MT type, size_t capacity, bool doConv, bool doScale, size_t strideExtra = 0 ) :
         t( type ), cap( capacity ), conv( doConv ), scale( doScale )
      {
         if ( t == STR )
         {
            stride = 0;
            mem.assign( 4, 0 );
            strs.assign( cap, "untouched" );
            return;
         }
         stride = mtSize( t ) * ( 1 + strideExtra );
         mem.assign( ( cap * stride ) / 8 + 5, 0x0101010101010101ull * Guard );
      }
      uint8_t *base() { return reinterpret_cast<uint8_t *>( mem.data() ) + 16; }
      const uint8_t *base() const { return reinterpret_cast<const uint8_t *>( mem.data() ) + 16; }
      void reset()
      {
         if ( t == STR )
            strs.assign( cap, "untouched" );
         else
            std::fill( mem.begin(), mem.end(), 0x0101010101010101ull * Guard );
      }

      void setI( size_t i, int64_t v )
      {
         uint8_t *p = base() + i * stride;
         switch ( t )
         {
            case I8:
            case U8:
               *p = static_cast<uint8_t>( v );
               break;
            case I16:
            case U16:
            {
               uint16_t x = static_cast<uint16_t>( v );
               memcpy( p, &x, 2 );
               break;
            }
            case I32:
            case U32:
            {
               uint32_t x = static_cast<uint32_t>( v );
               memcpy( p, &x, 4 );
               break;
            }
            case I64:
               memcpy( p, &v, 8 );
               break;
            case BO:
               *p = v ? 1 : 0;
               break;
            case F32:
            {
               float x = static_cast<float>( v );
               memcpy( p, &x, 4 );
               break;
            }
            case F64:
            {
               double x = static_cast<double>( v );
               memcpy( p, &x, 8 );
               break;
            }
            default:
               break;
         }
      }
      void setD( size_t i, double v )
      {
         uint8_t *p = base() + i * stride;
         if ( t == F32 )
         {
            float x = static_cast<float>( v );
            memcpy( p, &x, 4 );
         }
         else
            memcpy( p, &v, 8 );
      }
      int64_t getI( size_t i ) const
      {
         const uint8_t *p = base() + i * stride;
         switch ( t )
         {
            case I8:
               return static_cast<int8_t>( *p );
            case U8:
            case BO:
               return *p;
            case I16:
            {
               int16_t x;
               memcpy( &x, p, 2 );
               return x;
            }
            case U16:
            {
               uint16_t x;
               memcpy( &x, p, 2 );
               return x;
            }
            case I32:
            {
               int32_t x;
               memcpy( &x, p, 4 );
               return x;
            }
            case U32:
            {
               uint32_t x;
               memcpy( &x, p, 4 );
               return x;
            }
            case I64:
            {
               int64_t x;
               memcpy( &x, p, 8 );
               return x;
            }
            default:
               return 0;
         }
      }
      double getD( size_t i ) const
      {
         const uint8_t *p = base() + i * stride;
         if ( t == F32 )
         {
            float x;
            memcpy( &x, p, 4 );
            return x;
         }
         if ( t == F64 )
         {
            double x;
            memcpy( &x, p, 8 );
            return x;
         }
         return static_cast<double>( getI( i ) );
      }

      // "" if no byte outside the first n elements changed
      std::string guardsIntact( size_t n ) const
      {
         if ( t == STR )
         {
            if ( strs.size() != cap )
               return "string buffer was resized";
            for ( size_t i = n; i < cap; ++i )
               if ( strs[i] != "untouched" )
                  return sprintf_( "string element %zu beyond the %zu delivered was changed", i, n );
            return "";
         }
         const uint8_t *all = reinterpret_cast<const uint8_t *>( mem.data() );
         const size_t size = mem.size() * 8;
         const size_t es = mtSize( t );
         for ( size_t o = 0; o < size; ++o )
         {
            if ( o >= 16 )
            {
               const size_t i = ( o - 16 ) / stride;
               if ( i < n && ( o - 16 ) % stride < es )
                  continue;
            }
            if ( all[o] != Guard )
               return sprintf_( "byte at offset %zd (element size %zu, stride %zu) outside the %zu delivered "
                                "elements was changed",
                                static_cast<ssize_t>( o ) - 16, es, stride, n );
         }
         return "";
      }

      e57::SourceDestBuffer sdb( const e57::ImageFile &imf, const std::string &path )
      {
         uint8_t *p = base();
         switch ( t )
         {
            case I8:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<int8_t *>( p ), cap, conv, scale, stride );
            case U8:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<uint8_t *>( p ), cap, conv, scale, stride );
            case I16:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<int16_t *>( p ), cap, conv, scale, stride );
            case U16:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<uint16_t *>( p ), cap, conv, scale, stride );
            case I32:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<int32_t *>( p ), cap, conv, scale, stride );
            case U32:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<uint32_t *>( p ), cap, conv, scale, stride );
            case I64:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<int64_t *>( p ), cap, conv, scale, stride );
            case BO:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<bool *>( p ), cap, conv, scale, stride );
            case F32:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<float *>( p ), cap, conv, scale, stride );
            case F64:
               return e57::SourceDestBuffer( imf, path, reinterpret_cast<double *>( p ), cap, conv, scale, stride );
            default:
               return e57::SourceDestBuffer( imf, path, &strs );
         }
      }
   };

   // load n records of column c, starting at record `from`, into b
   inline void load( Buf &b, const MN &leaf, const Col &c, uint64_t from, uint64_t n )
   {
      for ( uint64_t r = 0; r < n; ++r )
      {
         if ( leaf.t == T::Str )
            b.strs[r] = c.s[from + r];
         else if ( leaf.t == T::Flt )
            b.setD( r, c.d[from + r] );
         else
            b.setI( r, c.i[from + r] );
      }
   }
   inline void store( const Buf &b, const MN &leaf, Col &c, uint64_t n )
   {
      for ( uint64_t r = 0; r < n; ++r )
      {
         if ( leaf.t == T::Str )
            c.s.push_back( b.strs[r] );
         else if ( leaf.t == T::Flt )
            c.d.push_back( b.getD( r ) );
         else
            c.i.push_back( b.getI( r ) );
      }
   }

   // memory type that holds the whole field without conversion
   inline MT widest( const MN &leaf )
   {
      if ( leaf.t == T::Str )
         return STR;
      if ( leaf.t == T::Flt )
         return leaf.single ? F32 : F64;
      return I64;
   }
   // a memory type that holds every value of column c of the field exactly
   inline MT drawType( pbt::Src &s, const MN &leaf, const Col &c )
   {
      if ( leaf.t == T::Str )
         return STR;
      if ( leaf.t == T::Flt )
      {
         bool inf = false; // counts as too large for a 64 to 32 bit transfer
         for ( double d : c.d )
            inf = inf || std::isinf( d );
         return leaf.single ? ( s.flip() && !inf ? F64 : F32 ) : F64;
      }
      std::vector<MT> ok{ I64 };
      for ( MT t : { I8, U8, I16, U16, I32, U32 } )
         if ( mtMin( t ) <= leaf.mn && leaf.mx <= mtMax( t ) )
            ok.push_back( t );
      return s.pick( ok );
   }

   // ------------------------------------------------------------ building

   inline e57::Node buildNode( const e57::ImageFile &imf, const MN &n )
   {
      switch ( n.t )
      {
         case T::Struct:
         {
            e57::StructureNode x( imf );
            for ( auto &k : n.kids )
               x.set( k.name, buildNode( imf, k ) );
            return x;
         }
         case T::Vec:
         {
            e57::VectorNode x( imf, n.hetero );
            for ( auto &k : n.kids )
               x.append( buildNode( imf, k ) );
            return x;
         }
         case T::CV:
         {
            e57::Node p = buildNode( imf, n.proto[0] );
            e57::VectorNode c( imf, true );
            if ( !n.codecs.empty() )
               c = e57::VectorNode( buildNode( imf, n.codecs[0] ) );
            return e57::CompressedVectorNode( imf, p, c );
         }
         case T::Int:
            return e57::IntegerNode( imf, n.v, n.mn, n.mx );
         case T::SInt:
            return e57::ScaledIntegerNode( imf, n.v, n.mn, n.mx, n.scale, n.off );
         case T::Flt:
            return e57::FloatNode( imf, n.d, n.single ? e57::PrecisionSingle : e57::PrecisionDouble, n.dmn, n.dmx );
         case T::Str:
            return e57::StringNode( imf, n.s );
         case T::Blob:
            return e57::BlobNode( imf, static_cast<int64_t>( n.s.size() ) );
      }
      throw std::logic_error( "node type" );
   }

   // Called between the calls of a writing session
   inline std::function<void()> &between()
   {
      static std::function<void()> f;
      return f;
   }
   inline void tick()
   {
      if ( between() )
         between()();
   }

   inline void writeRecords( e57::CompressedVectorNode cv, const MN &n, uint64_t batch = 0 )
   {
      tick();
      e57::ImageFile imf = cv.destImageFile();
      const auto lv = model::leavesOf( n.proto[0] );
      if ( batch == 0 )
         batch = std::max<uint64_t>( 1, n.nrec );
      std::vector<std::unique_ptr<Buf>> bufs;
      std::vector<e57::SourceDestBuffer> sb;
      for ( auto &l : lv )
      {
         bufs.emplace_back( new Buf( widest( *l.n ), batch, false, false ) );
         sb.push_back( bufs.back()->sdb( imf, l.path ) );
      }
      e57::CompressedVectorWriter w = cv.writer( sb );
      for ( uint64_t from = 0; from < n.nrec; )
      {
         const uint64_t k = std::min<uint64_t>( batch, n.nrec - from );
         for ( size_t f = 0; f < lv.size(); ++f )
            load( *bufs[f], *lv[f].n, n.cols[f], from, k );
         tick();
         w.write( k );
         from += k;
      }
      tick();
      w.close();
   }

   inline void writeBlob( e57::BlobNode b, const std::string &bytes )
   {
      if ( bytes.empty() )
         return;
      std::vector<uint8_t> d( bytes.begin(), bytes.end() );
      b.write( d.data(), 0, d.size() );
   }

   // writes blob and record content of everything below node
   inline void writeContent( e57::Node node, const MN &n )
   {
      switch ( n.t )
      {
         case T::Struct:
         {
            e57::StructureNode x( node );
            for ( size_t i = 0; i < n.kids.size(); ++i )
               writeContent( x.get( static_cast<int64_t>( i ) ), n.kids[i] );
            break;
         }
         case T::Vec:
         {
            e57::VectorNode x( node );
            for ( size_t i = 0; i < n.kids.size(); ++i )
               writeContent( x.get( static_cast<int64_t>( i ) ), n.kids[i] );
            break;
         }
         case T::CV:
            writeRecords( e57::CompressedVectorNode( node ), n );
            break;
         case T::Blob:
            writeBlob( e57::BlobNode( node ), n.s );
            break;
         default:
            break;
      }
   }

   inline void attachRoot( const e57::ImageFile &imf, const MN &root )
   {
      e57::StructureNode r = imf.root();
      for ( auto &k : root.kids )
         r.set( k.name, buildNode( imf, k ) );
   }

   using Exts = std::vector<std::pair<std::string, std::string>>;

   inline void writeFile( const std::string &path, const MN &root, const Exts &exts = {} )
   {
      e57::ImageFile imf( path, "w" );
      for ( auto &x : exts )
         imf.extensionsAdd( x.first, x.second );
      attachRoot( imf, root );
      writeContent( imf.root(), root );
      imf.close();
   }

   // ------------------------------------------------------------ reading

   struct ReadOpts
   {
      uint64_t chunk = 4096;      // records per read call
      uint64_t blobChunk = 1 << 20;
      uint64_t maxRecords = UINT64_MAX;
      bool content = true;
   };

   MN readNode( const e57::Node &node, const ReadOpts &o = ReadOpts(), bool isRoot = false );

   inline void readRecords( e57::CompressedVectorNode cv, MN &n, const ReadOpts &o )
   {
      e57::ImageFile imf = cv.destImageFile();
      const auto lv = model::leavesOf( n.proto[0] );
      n.cols.assign( lv.size(), Col() );
      if ( lv.empty() )
         return;
      const uint64_t chunk = std::max<uint64_t>( 1, std::min<uint64_t>( o.chunk, n.nrec + 1 ) );
      std::vector<std::unique_ptr<Buf>> bufs;
      std::vector<e57::SourceDestBuffer> db;
      for ( auto &l : lv )
      {
         bufs.emplace_back( new Buf( widest( *l.n ), chunk, false, false ) );
         db.push_back( bufs.back()->sdb( imf, l.path ) );
      }
      e57::CompressedVectorReader r = cv.reader( db );
      uint64_t total = 0;
      while ( unsigned got = r.read() )
      {
         if ( got > chunk )
            pbt::fail( sprintf_( "read returned %u records for a capacity of %llu", got, (unsigned long long)chunk ) );
         for ( size_t f = 0; f < lv.size(); ++f )
            store( *bufs[f], *lv[f].n, n.cols[f], got );
         total += got;
         if ( total > o.maxRecords )
            break;
      }
      r.close();
      n.nrec = total;
   }

   inline std::string readBlob( e57::BlobNode b, const ReadOpts &o )
   {
      const int64_t size = b.byteCount();
      std::string out;
      std::vector<uint8_t> buf( std::min<uint64_t>( size, o.blobChunk ) + 1 );
      for ( int64_t pos = 0; pos < size; )
      {
         const size_t n = std::min<uint64_t>( size - pos, o.blobChunk );
         b.read( buf.data(), pos, n );
         out.append( reinterpret_cast<char *>( buf.data() ), n );
         pos += n;
      }
      return out;
   }

   inline MN readNode( const e57::Node &node, const ReadOpts &o, bool isRoot )
   {
      MN n;
      if ( !isRoot )
         n.name = node.elementName();
      switch ( node.type() )
      {
         case e57::TypeStructure:
         {
            e57::StructureNode x( node );
            n.t = T::Struct;
            for ( int64_t i = 0; i < x.childCount(); ++i )
               n.kids.push_back( readNode( x.get( i ), o ) );
            break;
         }
         case e57::TypeVector:
         {
            e57::VectorNode x( node );
            n.t = T::Vec;
            n.hetero = x.allowHeteroChildren();
            for ( int64_t i = 0; i < x.childCount(); ++i )
            {
               n.kids.push_back( readNode( x.get( i ), o ) );
               if ( n.kids.back().name != std::to_string( i ) )
                  pbt::fail( "vector child " + std::to_string( i ) + " is named '" + n.kids.back().name + "'" );
               n.kids.back().name.clear();
            }
            break;
         }
         case e57::TypeCompressedVector:
         {
            e57::CompressedVectorNode x( node );
            n.t = T::CV;
            n.proto.push_back( readNode( x.prototype(), o, true ) );
            n.codecs.push_back( readNode( x.codecs(), o, true ) );
            n.nrec = x.childCount();
            if ( !o.content )
               n.cols.resize( model::leavesOf( n.proto[0] ).size() );
            if ( o.content )
            {
               const uint64_t declared = n.nrec;
               readRecords( x, n, o );
               if ( n.nrec != declared && o.maxRecords == UINT64_MAX )
                  pbt::fail( sprintf_( "%s: childCount is %llu but %llu records were read", x.pathName().c_str(),
                                       (unsigned long long)declared, (unsigned long long)n.nrec ) );
            }
            break;
         }
         case e57::TypeInteger:
         {
            e57::IntegerNode x( node );
            n.t = T::Int;
            n.v = x.value();
            n.mn = x.minimum();
            n.mx = x.maximum();
            break;
         }
         case e57::TypeScaledInteger:
         {
            e57::ScaledIntegerNode x( node );
            n.t = T::SInt;
            n.v = x.rawValue();
            n.mn = x.minimum();
            n.mx = x.maximum();
            n.scale = x.scale();
            n.off = x.offset();
            break;
         }
         case e57::TypeFloat:
         {
            e57::FloatNode x( node );
            n.t = T::Flt;
            n.d = x.value();
            n.single = x.precision() == e57::PrecisionSingle;
            n.dmn = x.minimum();
            n.dmx = x.maximum();
            break;
         }
         case e57::TypeString:
         {
            e57::StringNode x( node );
            n.t = T::Str;
            n.s = x.value();
            break;
         }
         case e57::TypeBlob:
         {
            e57::BlobNode x( node );
            n.t = T::Blob;
            if ( o.content )
               n.s = readBlob( x, o );
            break;
         }
      }
      return n;
   }

   inline MN readFile( const std::string &path, const ReadOpts &o = ReadOpts() )
   {
      e57::ImageFile imf( path, "r" );
      MN n = readNode( imf.root(), o, true );
      imf.close();
      return n;
   }

   inline std::string what( const e57::E57Exception &e )
   {
      return sprintf_( "E57Exception %d (%s) %.300s", static_cast<int>( e.errorCode() ), e.errorStr().c_str(),
                       e.context().c_str() );
   }
}
