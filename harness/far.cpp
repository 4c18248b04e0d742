// C34: content beyond 4 GiB is addressed correctly
#include "indep.hpp"
#include "session.hpp"
#include "wrap.hpp"

#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::Prng;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   const Exts noExts;

   struct Sparse
   {
      Sparse() { fio::sparse = true; }
      ~Sparse() { fio::sparse = false; }
   };

   MN drawTree( Src &s, uint64_t recBytes, size_t blob )
   {
      TreeOpts o;
      o.maxNodes = 1 + static_cast<unsigned>( s.below( 8 ) );
      o.maxDepth = 3;
      o.maxRecBytes = recBytes;
      o.maxBlob = blob;
      MN root = genTree( s, o );
      for ( uint64_t k = 1 + s.below( 2 ); k; --k )
      {
         MN cv = genCV( s, o );
         cv.name = sprintf_( "zzrec%d", (int)k );
         root.kids.push_back( std::move( cv ) );
      }
      if ( s.flip() )
      {
         MN b;
         b.t = T::Blob;
         b.name = "zzblob";
         Prng r( s.bits() );
         b.s.resize( s.below( blob + 1 ) );
         for ( auto &c : b.s )
            c = static_cast<char>( r.next() );
         root.kids.push_back( std::move( b ) );
      }
      return root;
   }

   // ------------------------------------------------------ files made by others
   void reading( Ctx &ctx )
   {
      Src &s = ctx.s;
      const bool large = s.chance( 1, 4 );
      const MN root = drawTree( s, large ? 100000 : 8000, large ? 20000 : 3000 );
      indep::Layout l;
      l.shuffle = s.flip();
      l.gaps = s.flip();
      l.packets = s.chance( 2, 3 );
      l.xmlStyle = s.flip();
      l.far = s.flip() ? 35 : 43;
      const indep::Encoded e = indep::encode( s, root, {}, l );
      ctx.say( show( root, false ) );
      for ( auto &j : e.jumps )
         ctx.say( sprintf_( "\nfrom page %llu on at %+lld pages", (unsigned long long)j.first, (long long)j.second ) );
      const std::string path = ctx.dir + "/a.e57";
      const int fd = ::open( path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666 );
      if ( fd < 0 )
         throw pbt::HarnessError( "open" );
      size_t k = 0;
      uint64_t shift = 0;
      bool ok = true;
      for ( uint64_t p = 0; ok && p < e.physical.size() / 1024; ++p )
      {
         while ( k < e.jumps.size() && e.jumps[k].first == p )
            shift = e.jumps[k++].second;
         ok = ::pwrite( fd, e.physical.data() + p * 1024, 1024, static_cast<off_t>( ( p + shift ) * 1024 ) ) == 1024;
      }
      // (a jump may come after the last page)
      if ( ok && !e.jumps.empty() )
         ok = ::ftruncate( fd, static_cast<off_t>( ( e.physical.size() / 1024 + e.jumps.back().second ) * 1024 ) ) == 0;
      ::close( fd );
      if ( !ok )
         throw pbt::HarnessError( "the file system refuses a file of that length" );
      MN got;
      try
      {
         const Sparse sparse;
         ReadOpts ro;
         ro.chunk = s.pick<uint64_t>( { 1, 7, 100, 4096 } );
         ro.blobChunk = s.pick<uint64_t>( { 100, 1 << 20 } );
         got = readFile( path, ro );
      }
      catch ( const e57::E57Exception &x )
      {
         fail( "a conforming file is refused: " + what( x ) );
      }
      const std::string df = diff( root, got );
      if ( !df.empty() )
         fail( "content differs: " + df );
      ::unlink( path.c_str() );
      const uint64_t last = e.jumps.empty() ? 0 : e.jumps.back().second * 1024;
      ctx.nontrivial = last >= 1ull << 31;
      ctx.label( last >= 1ull << 40 ? "read beyond 1 TiB" : last >= 1ull << 32 ? "read beyond 4 GiB" : last >= 1ull << 31 ? "read beyond 2 GiB" : "read near" );
   }

   // ---------------------------------------------------------- files written
   struct Patch
   {
      int64_t at;
      std::string bytes;
   };

   struct Sub
   {
      MN root;
      uint64_t seed = 0;
      std::vector<Patch> patches; // of the first blob, before and after
      size_t early = 0;           // how many before
      int64_t filler = -1;
   };

   void copySparse( int from, const std::string &path, int64_t size )
   {
      const int to = ::open( path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666 );
      if ( to < 0 )
         throw pbt::HarnessError( "open" );
      off_t at = 0;
      std::vector<char> b( 1 << 16 );
      for ( ;; )
      {
         const off_t data = ::lseek( from, at, SEEK_DATA );
         if ( data < 0 )
            break;
         off_t end = ::lseek( from, data, SEEK_HOLE );
         for ( off_t p = data; p < end; )
         {
            const ssize_t n = ::pread( from, b.data(), std::min<size_t>( b.size(), static_cast<size_t>( end - p ) ), p );
            if ( n <= 0 || ::pwrite( to, b.data(), static_cast<size_t>( n ), p ) != n )
               throw pbt::HarnessError( "copy" );
            p += n;
         }
         at = end;
      }
      if ( ::ftruncate( to, size ) )
         throw pbt::HarnessError( "copy" );
      ::close( to );
   }

   std::string perform( e57::ImageFile imf, e57::BlobNode big, int64_t bigLen, const Sub &sub, const std::string &path )
   {
      try
      {
         const auto patch = [&]( size_t from, size_t to ) {
            for ( size_t i = from; i < to; ++i )
            {
               const Patch &p = sub.patches[i];
               big.write( reinterpret_cast<uint8_t *>( const_cast<char *>( p.bytes.data() ) ), p.at, p.bytes.size() );
            }
         };
         patch( 0, sub.early );
         if ( sub.filler >= 0 )
            imf.root().set( "filler", e57::BlobNode( imf, sub.filler ) );
         Session( sub.root, noExts, sub.seed ).build( imf );
         patch( sub.early, sub.patches.size() );
         imf.close();
         const Sparse sparse;
         e57::ImageFile in( path, "r" );
         e57::StructureNode root = in.root();
         MN got;
         for ( int64_t i = 0; i < root.childCount(); ++i )
         {
            const e57::Node n = root.get( i );
            if ( n.elementName() == "big" || n.elementName() == "filler" )
               continue;
            got.kids.push_back( readNode( n ) );
         }
         const std::string df = diff( sub.root, got );
         if ( !df.empty() )
            return "content differs: " + df;
         e57::BlobNode b( root.get( "big" ) );
         if ( b.byteCount() != bigLen )
            return sprintf_( "the blob of %lld bytes has %lld", (long long)bigLen, (long long)b.byteCount() );
         for ( auto &p : sub.patches )
         {
            // with surroundings
            const int64_t from = std::max<int64_t>( 0, p.at - 50 ), to = std::min<int64_t>( bigLen, p.at + static_cast<int64_t>( p.bytes.size() ) + 50 );
            std::string want( static_cast<size_t>( to - from ), '\0' ), have( want.size(), '?' );
            for ( auto &q : sub.patches )
               for ( size_t i = 0; i < q.bytes.size(); ++i )
               {
                  const int64_t at = q.at + static_cast<int64_t>( i ) - from;
                  if ( at >= 0 && at < to - from )
                     want[static_cast<size_t>( at )] = q.bytes[i];
               }
            b.read( reinterpret_cast<uint8_t *>( &have[0] ), from, have.size() );
            if ( have != want )
               return sprintf_( "bytes %lld to %lld of the large blob differ", (long long)from, (long long)to );
         }
         return "";
      }
      catch ( const e57::E57Exception &x )
      {
         return what( x );
      }
   }

   void writing( Ctx &ctx )
   {
      Src &s = ctx.s;
      // where the end of the first blob lies
      static const int64_t G = 1ll << 30;
      const int64_t limit = s.pick<int64_t>( { 4 * G, 4 * G, 2 * G } );
      const int64_t logical = s.flip() ? limit : limit / 1024 * 1020;
      const int64_t len = logical - static_cast<int64_t>( s.below( s.pick<uint64_t>( { 60000, 3000, 100 } ) ) ) - 64;
      std::vector<Sub> subs;
      const size_t n = ctx.thorough ? 40 : 14;
      for ( size_t i = 0; i < n; ++i )
      {
         Sub b;
         b.root = drawTree( s, s.chance( 1, 3 ) ? 100000 : 8000, s.chance( 1, 3 ) ? 40000 : 3000 );
         b.seed = s.bits();
         if ( s.chance( 1, 3 ) )
            b.filler = static_cast<int64_t>( s.below( 30000 ) );
         for ( uint64_t k = s.below( 5 ); k; --k )
         {
            Patch p;
            p.bytes.assign( 1 + s.below( 2500 ), static_cast<char>( 'a' + k ) );
            const int64_t most = len - static_cast<int64_t>( p.bytes.size() );
            int64_t at = s.flip() ? most : s.pick<int64_t>( { 2 * G, 1 * G, 3 * G } ) / 1024 * ( s.flip() ? 1020 : 1024 );
            at -= static_cast<int64_t>( s.below( 4000 ) );
            p.at = std::max<int64_t>( 0, std::min( most, at ) );
            b.patches.push_back( p );
         }
         // (they do not overlap in time order: the later one wins, so keep the order of writing)
         b.early = s.below( b.patches.size() + 1 );
         subs.push_back( std::move( b ) );
      }
      ctx.say( sprintf_( "a blob of %lld bytes, then\n", (long long)len ) );
      for ( auto &b : subs )
         ctx.say( show( b.root, false ) + sprintf_( " %zu patches (%zu before), filler %lld\n", b.patches.size(), b.early, (long long)b.filler ) );

      const std::string path = ctx.dir + "/w.e57";
      fio::sparse = true;
      std::unique_ptr<e57::ImageFile> imf;
      std::unique_ptr<e57::BlobNode> big;
      try
      {
         imf.reset( new e57::ImageFile( path, "w" ) );
         big.reset( new e57::BlobNode( *imf, len ) );
         imf->root().set( "big", *big );
      }
      catch ( const e57::E57Exception &x )
      {
         fio::sparse = false;
         fail( "creating a large blob: " + what( x ) );
      }
      fio::sparse = false;
      const std::vector<int> fds = fio::sparseFiles();
      if ( fds.size() != 1 )
         throw pbt::HarnessError( "which file is it?" );
      // each session goes on from here, in a process and a file of its own
      std::string bad;
      for ( size_t i = 0; i < subs.size() && bad.empty(); ++i )
      {
         const std::string copy = ctx.dir + "/copy.e57", msg = ctx.dir + "/msg";
         {
            const int in = ::open( path.c_str(), O_RDONLY );
            copySparse( in, copy, ( len + 64 + 1019 ) / 1020 * 1024 );
            ::close( in );
         }
         ::unlink( msg.c_str() );
         const pid_t pid = fork();
         if ( pid == 0 )
         {
            const int to = ::open( copy.c_str(), O_RDWR );
            if ( to < 0 || dup2( to, fds[0] ) < 0 )
               _exit( 50 );
            const std::string m = perform( *imf, *big, len, subs[i], copy );
            if ( !m.empty() )
            {
               const int f = ::open( msg.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666 );
               if ( ::write( f, m.data(), m.size() ) < 0 )
                  _exit( 50 );
               _exit( 51 );
            }
            _exit( 0 );
         }
         int status = 0;
         if ( pid < 0 || waitpid( pid, &status, 0 ) != pid )
            throw pbt::HarnessError( "fork" );
         ++ctx.evals;
         ::unlink( copy.c_str() );
         if ( WIFEXITED( status ) && WEXITSTATUS( status ) == 50 )
            throw pbt::HarnessError( "preparing a session" );
         if ( WIFEXITED( status ) && WEXITSTATUS( status ) == 51 )
         {
            char b[2000] = {};
            const int f = ::open( msg.c_str(), O_RDONLY );
            if ( f < 0 || ::read( f, b, sizeof b - 1 ) < 0 )
               throw pbt::HarnessError( "message" );
            ::close( f );
            bad = sprintf_( "session %zu: %s", i, b );
         }
         else if ( status != 0 )
            bad = sprintf_( "session %zu ended with status %d", i, status );
      }
      try
      {
         imf->cancel();
      }
      catch ( const e57::E57Exception &x )
      {
         if ( bad.empty() )
            bad = "cancelling: " + what( x );
      }
      if ( !bad.empty() )
         fail( bad );
      ctx.nontrivial = true;
      ctx.label( limit > 2 * G ? "written across 4 GiB" : "written across 2 GiB" );
   }

   void c34( Ctx &ctx )
   {
      if ( ctx.s.chance( 1, 350 ) )
         writing( ctx );
      else
         reading( ctx );
   }

   pbt::Reg r34( { "C34",
                   c34,
                   3000,
                   40000,
                   "exploration",
                   "a section lies beyond 2 GiB",
                   { "files up to 8 TiB (what the file system allows) are read, up to 4 GiB written", "pages of zeros appended while writing are not stored" },
                   300 } );
}
