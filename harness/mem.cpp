#include "mem.hpp"

#include <atomic>
#include <cstdio>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/allocator_interface.h>

// A table of the blocks allocated since reset(): open addressing in static memory, so
// that the hooks allocate nothing themselves.
namespace
{
   constexpr size_t Cap = 1 << 20;
   struct Slot
   {
      const volatile void *p;
      uint32_t epoch;
   };
   Slot table[Cap];
   uint32_t epoch = 0;
   bool active = false, installed = false;
   int64_t bytes = 0, blocks = 0, peak = 0;
   int64_t netN = 0, netB = 0;

   size_t home( const volatile void *p ) { return ( reinterpret_cast<uintptr_t>( p ) >> 4 ) * 0x9e3779b97f4a7c15ull >> 44; }

   void onMalloc( const volatile void *p, size_t n )
   {
      if ( p )
      {
         ++netN;
         netB += static_cast<int64_t>( n );
      }
      if ( !active || !p || blocks >= static_cast<int64_t>( Cap / 2 ) )
         return;
      for ( size_t i = home( p );; i = ( i + 1 ) % Cap )
      {
         Slot &s = table[i];
         if ( s.epoch != epoch || s.p == nullptr || s.p == reinterpret_cast<void *>( 1 ) )
         {
            s.p = p;
            s.epoch = epoch;
            break;
         }
      }
      bytes += static_cast<int64_t>( n );
      ++blocks;
      if ( bytes > peak )
         peak = bytes;
   }
   void onFree( const volatile void *p )
   {
      if ( p )
      {
         --netN;
         netB -= static_cast<int64_t>( __sanitizer_get_allocated_size( p ) );
      }
      if ( !active || !p )
         return;
      for ( size_t i = home( p );; i = ( i + 1 ) % Cap )
      {
         Slot &s = table[i];
         if ( s.epoch != epoch || s.p == nullptr )
            return; // older than reset()
         if ( s.p == p )
         {
            s.p = reinterpret_cast<void *>( 1 ); // deleted
            bytes -= static_cast<int64_t>( __sanitizer_get_allocated_size( p ) );
            --blocks;
            return;
         }
      }
   }
}

namespace mem
{
   void install()
   {
      if ( !installed )
         __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree );
      installed = true;
   }
   void reset()
   {
      install();
      active = false;
      ++epoch;
      bytes = blocks = peak = 0;
      active = true;
   }
   void stop() { active = false; }
   int64_t liveBytes() { return bytes; }
   int64_t liveBlocks() { return blocks; }
   int64_t peakBytes() { return peak; }
   int64_t netBlocks() { return netN; }
   int64_t netBytes() { return netB; }
   void print( const char *path )
   {
      active = false;
      int left = 10;
      FILE *f = fopen( path, "w" );
      if ( !f )
         return;
      for ( auto &s : table )
      {
         if ( s.epoch != epoch || s.p == nullptr || s.p == reinterpret_cast<void *>( 1 ) || left-- <= 0 )
            continue;
         void *pc[24];
         int tid;
         const size_t n = __asan_get_alloc_stack( const_cast<void *>( s.p ), pc, 24, &tid );
         fprintf( f, "block of %zu bytes\n", __sanitizer_get_allocated_size( s.p ) );
         for ( size_t i = 0; i < n; ++i )
         {
            char b[600];
            __sanitizer_symbolize_pc( pc[i], "    %f %s:%l", b, sizeof b );
            fprintf( f, "%s\n", b );
         }
      }
      fclose( f );
   }
}
