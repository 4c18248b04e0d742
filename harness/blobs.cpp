// Blobs as byte arrays (C13).
#include "lib.hpp"

#include <fstream>
#include <iterator>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   std::string slurp( const std::string &path )
   {
      std::ifstream f( path, std::ios::binary );
      return std::string( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() );
   }

   struct B
   {
      int64_t size;
      std::string bytes;
      bool attached;
      std::string name;
      e57::BlobNode h;
   };

   int64_t drawSize( Src &s, bool thorough )
   {
      switch ( s.weighted( { 3, 4, 3, 2 } ) )
      {
         case 0:
            return s.range( 0, 5 );
         case 1:
            return s.range( 0, 3000 );
         case 2: // around page boundaries, with the section header and the file header in front
            return std::max<int64_t>( 0, s.pick( { 956, 1020, 1024, 2040, 2048, 4080, 10200, 65536 } ) + s.range( -70, 70 ) );
         default:
            return s.range( 0, thorough || s.chance( 1, 10 ) ? 300000 : 40000 );
      }
   }

   // a valid or invalid (start, count) for a blob of this size
   void drawRange( Src &s, int64_t size, int64_t &start, size_t &count )
   {
      switch ( s.weighted( { 8, 3, 2, 2 } ) )
      {
         case 0:
            start = s.range( 0, size );
            count = static_cast<size_t>( s.range( 0, size - start ) );
            break;
         case 1: // everything, or to the end
            start = s.flip() ? 0 : s.range( 0, size );
            count = static_cast<size_t>( size - start );
            break;
         case 2: // just outside
            start = s.range( 0, size );
            count = static_cast<size_t>( size - start ) + 1 + s.below( 5 );
            break;
         default:
            start = s.pick<int64_t>( { -1, -4, INT64_MIN, size + 1, INT64_MAX, INT64_MAX - 3, -size, 0, 1, -16 } );
            count = static_cast<size_t>(
               s.pick<uint64_t>( { 0, 1, 4, 5, SIZE_MAX, SIZE_MAX - 1, 1ull << 63, 1ull << 32, static_cast<uint64_t>( size ) + 1 } ) );
            break;
      }
   }
   bool inside( int64_t size, int64_t start, size_t count )
   {
      return start >= 0 && start <= size && count <= static_cast<uint64_t>( size - start );
   }

   void c13( Ctx &ctx )
   {
      Src &s = ctx.s;
      const std::string path = ctx.dir + "/a.e57";
      size_t done = 0, refused = 0;
      try
      {
         std::vector<B> bs;
         e57::ImageFile imf( path, "w" );
         // records between the blobs show whether a blob operation reaches outside
         MN cv;
         bool haveCv = s.chance( 1, 3 );
         if ( haveCv )
         {
            TreeOpts o;
            o.maxRecBytes = 3000;
            cv = genCV( s, o );
         }
         const auto create = [&] {
            const int64_t size = drawSize( s, ctx.thorough );
            B b{ size, std::string( static_cast<size_t>( size ), '\0' ), false, sprintf_( "b%zu", bs.size() ),
                 e57::BlobNode( imf, size ) };
            ctx.say( sprintf_( "blob %zu of %lld bytes; ", bs.size(), (long long)size ) );
            bs.push_back( b );
         };
         const auto attach = [&]( B &b ) {
            if ( !b.attached )
               imf.root().set( b.name, b.h );
            b.attached = true;
         };
         const auto check = [&]( B &b, int64_t start, size_t count, const char *when ) {
            const bool ok = inside( b.size, start, count );
            std::vector<uint8_t> buf( ok ? count + 2 : 64, 0xA5 );
            int code = 0;
            try
            {
               b.h.read( buf.data() + 1, start, count );
            }
            catch ( const e57::E57Exception &e )
            {
               code = e.errorCode();
               if ( ok )
                  fail( sprintf_( "%s: reading %zu at %lld of %s failed: ", when, count, (long long)start, b.name.c_str() ) + what( e ) );
            }
            if ( !ok && code != e57::ErrorBadAPIArgument )
               fail( sprintf_( "%s: reading %zu at %lld of %s (%lld bytes): result %d", when, count, (long long)start,
                               b.name.c_str(), (long long)b.size, code ) );
            if ( ok && count && memcmp( buf.data() + 1, b.bytes.data() + start, count ) != 0 )
            {
               size_t i = 0;
               while ( buf[1 + i] == static_cast<uint8_t>( b.bytes[start + i] ) )
                  ++i;
               fail( sprintf_( "%s: %s at %zu: read %02x, should be %02x", when, b.name.c_str(), (size_t)start + i, buf[1 + i],
                               (uint8_t)b.bytes[start + i] ) );
            }
            if ( buf[0] != 0xA5 || buf[ok ? count + 1 : 1] != 0xA5 )
               fail( sprintf_( "%s: reading %s wrote outside the buffer", when, b.name.c_str() ) );
            ok ? ++done : ++refused;
         };
         create();
         const size_t ops = 1 + s.below( 25 );
         for ( size_t k = 0; k < ops; ++k )
         {
            if ( s.chance( 1, 8 ) && bs.size() < 5 )
               create();
            B &b = bs[s.below( bs.size() )];
            if ( haveCv && s.chance( 1, 6 ) )
            {
               haveCv = false;
               imf.root().set( "cv", buildNode( imf, cv ) );
               writeRecords( e57::CompressedVectorNode( imf.root().get( "cv" ) ), cv );
               cv.name = "cv";
               ctx.say( "records; " );
            }
            int64_t start;
            size_t count;
            drawRange( s, b.size, start, count );
            if ( s.chance( 2, 3 ) )
            {
               if ( s.chance( 4, 5 ) )
                  attach( b );
               const bool ok = inside( b.size, start, count );
               std::vector<uint8_t> data( ok ? count : 16 );
               pbt::Prng p( s.bits() );
               for ( auto &x : data )
                  x = static_cast<uint8_t>( p.next() >> 30 );
               ctx.say( sprintf_( "write %zu at %lld of %s%s; ", count, (long long)start, b.name.c_str(),
                                  b.attached ? "" : " (unattached)" ) );
               int code = 0;
               try
               {
                  b.h.write( data.data(), start, count );
               }
               catch ( const e57::E57Exception &e )
               {
                  code = e.errorCode();
                  if ( ok && b.attached )
                     fail( "write failed: " + what( e ) );
               }
               if ( !ok || !b.attached )
               {
                  if ( !( !ok && code == e57::ErrorBadAPIArgument ) && !( !b.attached && code == e57::ErrorNodeUnattached ) )
                     fail( sprintf_( "write of %zu at %lld of %s (%lld bytes, %sattached): result %d", count, (long long)start,
                                     b.name.c_str(), (long long)b.size, b.attached ? "" : "un", code ) );
                  ++refused;
               }
               else
               {
                  for ( size_t i = 0; i < count; ++i )
                     b.bytes[start + i] = static_cast<char>( data[i] );
                  ++done;
               }
            }
            else
            {
               ctx.say( sprintf_( "read %zu at %lld of %s; ", count, (long long)start, b.name.c_str() ) );
               check( b, start, count, "while writing" );
            }
            if ( b.h.byteCount() != b.size )
               fail( "byteCount changed" );
         }
         for ( auto &b : bs )
            check( b, 0, static_cast<size_t>( b.size ), "before closing" );
         imf.close();

         const std::string disk = slurp( path );
         e57::ImageFile in( path, "r" );
         std::vector<B> rs;
         for ( auto &b : bs )
            if ( b.attached )
            {
               rs.push_back( B{ b.size, b.bytes, true, b.name, e57::BlobNode( in.root().get( b.name ) ) } );
               if ( rs.back().h.byteCount() != b.size )
                  fail( "byteCount after reading" );
            }
         for ( size_t k = 0; k < 12 && !rs.empty(); ++k )
         {
            B &b = rs[s.below( rs.size() )];
            int64_t start;
            size_t count;
            drawRange( s, b.size, start, count );
            ctx.say( sprintf_( "reread %zu at %lld of %s; ", count, (long long)start, b.name.c_str() ) );
            check( b, start, count, "after closing" );
         }
         for ( auto &b : rs )
         {
            check( b, 0, static_cast<size_t>( b.size ), "after closing" );
            uint8_t one = 1;
            int code = 0;
            try
            {
               b.h.write( &one, 0, b.size > 0 ? 1 : 0 );
            }
            catch ( const e57::E57Exception &e )
            {
               code = e.errorCode();
            }
            if ( code != e57::ErrorFileReadOnly )
               fail( sprintf_( "writing a blob of a file being read: result %d", code ) );
         }
         if ( s.chance( 1, 4 ) )
         {
            int code = 0;
            try
            {
               e57::BlobNode extra( in, 100 );
            }
            catch ( const e57::E57Exception &e )
            {
               code = e.errorCode();
            }
            if ( code != e57::ErrorFileReadOnly )
               fail( sprintf_( "creating a blob in a file being read: result %d", code ) );
         }
         if ( cv.name == "cv" )
         {
            MN got = readNode( in.root().get( "cv" ) );
            const std::string d = diff( cv, got );
            if ( !d.empty() )
               fail( "records next to blobs: " + d );
         }
         in.close();
         if ( slurp( path ) != disk )
            fail( "reading changed the file" );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( what( e ) );
      }
      ctx.nontrivial = done >= 3;
      ctx.evals = done + refused + 1;
      ctx.label( refused ? "some requests refused" : "all requests inside" );
   }

   pbt::Reg r13( { "C13", c13, 12000, 100000, "exploration",
                   "a case counts if at least three reads or writes were inside; evaluations are requests",
                   { "null buffers are not passed" } } );
}
