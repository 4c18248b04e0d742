#include "vary.hpp"

#include <chrono>
#include <cstddef>
#include <cstring>
#include <sys/time.h>
#include <time.h>

namespace
{
   int fill = -1;
   int64_t off = 0;
}

namespace vary
{
   void memory( int pattern ) { fill = pattern; }
   void clock( int64_t seconds ) { off = seconds; }
   __attribute__( ( noinline, no_sanitize( "address" ) ) ) void stack( unsigned char f )
   {
      volatile unsigned char b[48 << 10];
      for ( size_t i = 0; i < sizeof b; ++i )
         b[i] = static_cast<unsigned char>( f + ( f & 1 ? i * 7 : 0 ) );
   }
}

extern "C"
{
   void *__real__Znwm( size_t n );
   void *__real__Znam( size_t n );
   void *__wrap__Znwm( size_t n )
   {
      void *p = __real__Znwm( n );
      if ( fill >= 0 )
         memset( p, fill, n );
      return p;
   }
   void *__wrap__Znam( size_t n )
   {
      void *p = __real__Znam( n );
      if ( fill >= 0 )
         memset( p, fill, n );
      return p;
   }

   time_t __real_time( time_t *t );
   time_t __wrap_time( time_t *t )
   {
      const time_t v = __real_time( nullptr ) + off;
      if ( t )
         *t = v;
      return v;
   }
   int __real_gettimeofday( struct timeval *tv, void *tz );
   int __wrap_gettimeofday( struct timeval *tv, void *tz )
   {
      const int r = __real_gettimeofday( tv, tz );
      if ( r == 0 && tv )
         tv->tv_sec += off;
      return r;
   }
   int __real_clock_gettime( clockid_t c, struct timespec *ts );
   int __wrap_clock_gettime( clockid_t c, struct timespec *ts )
   {
      const int r = __real_clock_gettime( c, ts );
      if ( r == 0 && c == CLOCK_REALTIME )
         ts->tv_sec += off;
      return r;
   }
   int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
   int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return __real__ZNSt6chrono3_V212system_clock3nowEv() + off * 1000000000; }
}
