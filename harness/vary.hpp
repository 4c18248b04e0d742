// Differences between environments: what fresh memory contains, the time of day.
#pragma once

#include <cstdint>

namespace vary
{
   void memory( int pattern );      // fresh memory is filled with it; -1: not filled
   void clock( int64_t seconds );   // the time of day is off by that
   void stack( unsigned char fill ); // fills the unused stack
}
