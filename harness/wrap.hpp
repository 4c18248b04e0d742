// Interposed file operations: fault injection, crash points, operation trace.
#pragma once

#include <cstdint>
#include <string>
#include <vector>

namespace fio
{
   enum Op
   {
      OpOpen,
      OpRead,
      OpWrite,
      OpSeek,
      OpClose,
      OpRemove,
      OpTrunc,
      OpCount
   };
   const char *opName( Op o );

   enum Kind
   {
      None,
      Fail,     // returns -1 with the errno given
      Short,    // transfers only `amount` bytes (read, write)
      Snapshot, // calls the observer, then goes on (crash point)
   };

   struct Plan
   {
      bool active = false;   // only operations while active are counted
      uint64_t at = UINT64_MAX; // index of the operation to disturb
      Kind kind = None;
      int err = 5;           // EIO
      uint64_t amount = 0;
      bool sticky = false;   // all later operations of the same type fail too
      // state
      uint64_t seen = 0;
      bool fired = false;
      Op firedOp = OpOpen;
      std::vector<Op> trace;
      bool keepTrace = false;
      void ( *observer )( uint64_t index, Op op, void *arg ) = nullptr; // before each operation
      void *arg = nullptr;
   };
   extern Plan plan;
   extern uint64_t badCloses; // of descriptors that were not open

   // Files opened while this is set do not store the pages of zeros they are extended by
   extern bool sparse;
   std::vector<int> sparseFiles(); // descriptors

   // begin counting operations of library calls made by this thread
   void start( const Plan &p );
   Plan stop();
   struct Pause // operations of the harness itself are not counted
   {
      bool was;
      Pause() : was( plan.active ) { plan.active = false; }
      ~Pause() { plan.active = was; }
   };
}
