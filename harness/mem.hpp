// Counts what is allocated (through the sanitizer's hooks).
#pragma once

#include <cstddef>
#include <cstdint>

namespace mem
{
   void install();
   void reset();             // forget what is live, start counting
   void stop();
   int64_t liveBytes();      // allocated since reset and not freed
   int64_t liveBlocks();
   int64_t peakBytes();      // greatest value of liveBytes
   int64_t netBlocks();      // allocated and not freed since install
   int64_t netBytes();
   void print( const char *path );           // where the live blocks were allocated
}
