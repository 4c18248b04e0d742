#include "wrap.hpp"

#include "indep.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

namespace fio
{
   Plan plan;
   uint64_t badCloses = 0;

   const char *opName( Op o )
   {
      static const char *n[] = { "open", "read", "write", "seek", "close", "remove", "truncate", "" };
      return n[o];
   }

   void start( const Plan &p )
   {
      plan = p;
      plan.seen = 0;
      plan.fired = false;
      plan.trace.clear();
      plan.active = true;
   }
   Plan stop()
   {
      plan.active = false;
      return plan;
   }

   // returns the disturbance for this operation
   static Kind step( Op op )
   {
      if ( !plan.active )
         return None;
      const uint64_t i = plan.seen++;
      if ( plan.keepTrace )
      {
         Pause p;
         plan.trace.push_back( op );
      }
      if ( plan.observer )
      {
         Pause p;
         plan.observer( i, op, plan.arg );
      }
      if ( i == plan.at )
      {
         plan.fired = true;
         plan.firedOp = op;
         return plan.kind;
      }
      if ( plan.fired && plan.sticky && op == plan.firedOp )
         return plan.kind;
      return None;
   }
}

using namespace fio;

extern "C"
{
   int __real_open( const char *p, int f, ... );
   int __real_open64( const char *p, int f, ... );
   ssize_t __real_read( int fd, void *b, size_t n );
   ssize_t __real_write( int fd, const void *b, size_t n );
   off_t __real_lseek( int fd, off_t o, int w );
   off64_t __real_lseek64( int fd, off64_t o, int w );
   int __real_close( int fd );
   int __real_remove( const char *p );
   int __real_unlink( const char *p );
   int __real_ftruncate( int fd, off_t n );
   int __real_ftruncate64( int fd, off64_t n );
   int __real_rename( const char *a, const char *b );
   ssize_t __real_pread( int fd, void *b, size_t n, off_t o );
   ssize_t __real_pread64( int fd, void *b, size_t n, off64_t o );
   ssize_t __real_pwrite( int fd, const void *b, size_t n, off_t o );
   ssize_t __real_pwrite64( int fd, const void *b, size_t n, off64_t o );
   int __real_fstat( int fd, struct stat *st );
   int __real_fstat64( int fd, struct stat64 *st );
}

namespace fio
{
   bool sparse = false;
}

// Sparse files: pages of zeros that are appended to a file are not stored.
namespace
{
   struct Far
   {
      int64_t pos = 0, size = 0;
   };
   std::map<int, Far> fars;
   Far *farOf( int fd )
   {
      if ( fars.empty() )
         return nullptr;
      const auto i = fars.find( fd );
      return i == fars.end() ? nullptr : &i->second;
   }
   // a page of zeros with its checksum
   const char *zeroPage()
   {
      static char p[1024];
      static bool made = false;
      if ( !made )
      {
         memcpy( p, indep::paginate( std::string( 1020, '\0' ) ).data(), 1024 );
         made = true;
      }
      return p;
   }

   int low_open( const char *p, int f, int mode )
   {
      const int fd = __real_open64( p, f, mode );
      if ( fd >= 0 && fio::sparse )
         fars[fd].size = __real_lseek64( fd, 0, SEEK_END );
      return fd;
   }
   off64_t low_lseek( int fd, off64_t o, int w )
   {
      Far *f = farOf( fd );
      if ( !f )
         return __real_lseek64( fd, o, w );
      const int64_t to = o + ( w == SEEK_SET ? 0 : w == SEEK_CUR ? f->pos : f->size );
      if ( to < 0 )
      {
         errno = EINVAL;
         return -1;
      }
      return f->pos = to;
   }
   ssize_t low_pread( int fd, void *b, size_t n, off64_t o )
   {
      Far *f = farOf( fd );
      if ( !f )
         return __real_pread64( fd, b, n, o );
      size_t done = 0;
      while ( done < n && o + static_cast<int64_t>( done ) < f->size )
      {
         const int64_t at = o + static_cast<int64_t>( done ), page = at / 1024;
         char buf[1024] = {};
         static const char zeros[1024] = {};
         if ( __real_pread64( fd, buf, 1024, page * 1024 ) < 0 )
            return -1;
         const char *from = memcmp( buf, zeros, 1024 ) ? buf : zeroPage();
         const size_t off = static_cast<size_t>( at % 1024 );
         size_t k = std::min<size_t>( n - done, 1024 - off );
         k = std::min<size_t>( k, static_cast<size_t>( f->size - at ) );
         memcpy( static_cast<char *>( b ) + done, from + off, k );
         done += k;
      }
      return static_cast<ssize_t>( done );
   }
   ssize_t low_pwrite( int fd, const void *b, size_t n, off64_t o )
   {
      Far *f = farOf( fd );
      if ( !f )
         return __real_pwrite64( fd, b, n, o );
      const int64_t end = o + static_cast<int64_t>( n );
      if ( !( n == 1024 && o % 1024 == 0 && o >= f->size && memcmp( b, zeroPage(), 1024 ) == 0 ) )
      {
         const ssize_t r = __real_pwrite64( fd, b, n, o );
         if ( r != static_cast<ssize_t>( n ) )
            return r;
      }
      f->size = std::max( f->size, end );
      return static_cast<ssize_t>( n );
   }
   ssize_t low_read( int fd, void *b, size_t n )
   {
      Far *f = farOf( fd );
      if ( !f )
         return __real_read( fd, b, n );
      const ssize_t r = low_pread( fd, b, n, f->pos );
      if ( r > 0 )
         f->pos += r;
      return r;
   }
   ssize_t low_write( int fd, const void *b, size_t n )
   {
      Far *f = farOf( fd );
      if ( !f )
         return __real_write( fd, b, n );
      const ssize_t r = low_pwrite( fd, b, n, f->pos );
      if ( r > 0 )
         f->pos += r;
      return r;
   }
   int low_ftruncate( int fd, off64_t n )
   {
      const int r = __real_ftruncate64( fd, n );
      if ( Far *f = farOf( fd ) )
         if ( r == 0 )
            f->size = n;
      return r;
   }
   int low_close( int fd )
   {
      if ( Far *f = farOf( fd ) )
      {
         if ( ( fcntl( fd, F_GETFL ) & O_ACCMODE ) != O_RDONLY )
            if ( __real_ftruncate64( fd, f->size ) )
               return -1;
         fars.erase( fd );
      }
      return __real_close( fd );
   }
}

namespace fio
{
   std::vector<int> sparseFiles()
   {
      std::vector<int> v;
      for ( auto &f : fars )
         v.push_back( f.first );
      return v;
   }
}

extern "C"
{
   __attribute__( ( visibility( "default" ) ) ) int __wrap_fstat( int fd, struct stat *st )
   {
      const int r = __real_fstat( fd, st );
      if ( Far *f = farOf( fd ) )
         st->st_size = f->size;
      return r;
   }
   __attribute__( ( visibility( "default" ) ) ) int __wrap_fstat64( int fd, struct stat64 *st )
   {
      const int r = __real_fstat64( fd, st );
      if ( Far *f = farOf( fd ) )
         st->st_size = f->size;
      return r;
   }

   __attribute__( ( visibility( "default" ) ) ) int __wrap_open64( const char *p, int f, ... )
   {
      va_list ap;
      va_start( ap, f );
      const int mode = ( f & O_CREAT ) ? va_arg( ap, int ) : 0;
      va_end( ap );
      if ( step( OpOpen ) == Fail )
      {
         errno = plan.err;
         return -1;
      }
      return low_open( p, f, mode );
   }
   __attribute__( ( visibility( "default" ) ) ) int __wrap_open( const char *p, int f, ... )
   {
      va_list ap;
      va_start( ap, f );
      const int mode = ( f & O_CREAT ) ? va_arg( ap, int ) : 0;
      va_end( ap );
      if ( step( OpOpen ) == Fail )
      {
         errno = plan.err;
         return -1;
      }
      return low_open( p, f, mode );
   }
   __attribute__( ( visibility( "default" ) ) ) ssize_t __wrap_read( int fd, void *b, size_t n )
   {
      switch ( step( OpRead ) )
      {
         case Fail:
            errno = plan.err;
            return -1;
         case Short:
            return low_read( fd, b, plan.amount < n ? plan.amount : n );
         default:
            return low_read( fd, b, n );
      }
   }
   __attribute__( ( visibility( "default" ) ) ) ssize_t __wrap_write( int fd, const void *b, size_t n )
   {
      switch ( step( OpWrite ) )
      {
         case Fail:
            errno = plan.err;
            return -1;
         case Short:
            return low_write( fd, b, plan.amount < n ? plan.amount : n );
         default:
            return low_write( fd, b, n );
      }
   }
   __attribute__( ( visibility( "default" ) ) ) off_t __wrap_lseek( int fd, off_t o, int w )
   {
      if ( step( OpSeek ) == Fail )
      {
         errno = plan.err;
         return -1;
      }
      return low_lseek( fd, o, w );
   }
   __attribute__( ( visibility( "default" ) ) ) off64_t __wrap_lseek64( int fd, off64_t o, int w )
   {
      if ( step( OpSeek ) == Fail )
      {
         errno = plan.err;
         return -1;
      }
      return low_lseek( fd, o, w );
   }
   __attribute__( ( visibility( "default" ) ) ) int __wrap_close( int fd )
   {
      if ( step( OpClose ) == Fail )
      {
         // like the kernel: the descriptor is gone all the same
         low_close( fd );
         errno = plan.err;
         return -1;
      }
      const int r = low_close( fd );
      if ( r < 0 && errno == EBADF )
         ++fio::badCloses;
      return r;
   }
   __attribute__( ( visibility( "default" ) ) ) int __wrap_remove( const char *p )
   {
      if ( step( OpRemove ) == Fail )
      {
         errno = plan.err;
         return -1;
      }
      return __real_remove( p );
   }
   __attribute__( ( visibility( "default" ) ) ) int __wrap_unlink( const char *p )
   {
      if ( step( OpRemove ) == Fail )
      {
         errno = plan.err;
         return -1;
      }
      return __real_unlink( p );
   }
   __attribute__( ( visibility( "default" ) ) ) int __wrap_ftruncate( int fd, off_t n )
   {
      if ( step( OpTrunc ) == Fail )
      {
         errno = plan.err;
         return -1;
      }
      return low_ftruncate( fd, n );
   }
   __attribute__( ( visibility( "default" ) ) ) int __wrap_ftruncate64( int fd, off64_t n )
   {
      if ( step( OpTrunc ) == Fail )
      {
         errno = plan.err;
         return -1;
      }
      return low_ftruncate( fd, n );
   }
   __attribute__( ( visibility( "default" ) ) ) int __wrap_rename( const char *a, const char *b )
   {
      return __real_rename( a, b );
   }
   __attribute__( ( visibility( "default" ) ) ) ssize_t __wrap_pread( int fd, void *b, size_t n, off_t o )
   {
      switch ( step( OpRead ) )
      {
         case Fail:
            errno = plan.err;
            return -1;
         case Short:
            return low_pread( fd, b, plan.amount < n ? plan.amount : n, o );
         default:
            return low_pread( fd, b, n, o );
      }
   }
   __attribute__( ( visibility( "default" ) ) ) ssize_t __wrap_pread64( int fd, void *b, size_t n, off64_t o )
   {
      switch ( step( OpRead ) )
      {
         case Fail:
            errno = plan.err;
            return -1;
         case Short:
            return low_pread( fd, b, plan.amount < n ? plan.amount : n, o );
         default:
            return low_pread( fd, b, n, o );
      }
   }
   __attribute__( ( visibility( "default" ) ) ) ssize_t __wrap_pwrite( int fd, const void *b, size_t n, off_t o )
   {
      switch ( step( OpWrite ) )
      {
         case Fail:
            errno = plan.err;
            return -1;
         case Short:
            return low_pwrite( fd, b, plan.amount < n ? plan.amount : n, o );
         default:
            return low_pwrite( fd, b, n, o );
      }
   }
   __attribute__( ( visibility( "default" ) ) ) ssize_t __wrap_pwrite64( int fd, const void *b, size_t n, off64_t o )
   {
      switch ( step( OpWrite ) )
      {
         case Fail:
            errno = plan.err;
            return -1;
         case Short:
            return low_pwrite( fd, b, plan.amount < n ? plan.amount : n, o );
         default:
            return low_pwrite( fd, b, n, o );
      }
   }
}
