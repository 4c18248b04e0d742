// C26: all file handles and memory are released. The sessions are those of other checks:
// each is performed repeatedly, and no repetition may leave more behind than the one before.
#include "engine.hpp"
#include "mem.hpp"
#include "wrap.hpp"

#include <cstring>
#include <dirent.h>
#include <filesystem>

using pbt::Ctx;
using pbt::fail;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   int openFiles()
   {
      int n = 0;
      DIR *d = opendir( "/proc/self/fd" );
      if ( !d )
         throw pbt::HarnessError( "/proc/self/fd" );
      while ( readdir( d ) )
         ++n;
      closedir( d );
      return n;
   }

   struct State
   {
      int files;
      int64_t blocks, bytes;
   };
   State state() { return { openFiles(), mem::netBlocks(), mem::netBytes() }; }

   // what sessions of other checks serve: malformed files, odd metadata, failing operations, misuse,
   // abandoned and cut-off files, damaged pages, ordinary use of both interfaces
   const std::pair<const char *, unsigned> kinds[] = { { "C18", 12 }, { "C19", 5 }, { "C21", 14 }, { "C25", 8 }, { "C22", 6 }, { "C16", 5 }, { "C23", 2 },
                                                       { "C10", 1 },  { "C11", 1 }, { "C12", 1 },  { "C13", 1 }, { "C02", 1 }, { "C08", 1 }, { "C27", 1 },
                                                       { "C28", 1 },  { "C29", 1 }, { "C30", 1 },  { "C31", 1 } };

   void c26( Ctx &ctx )
   {
      Src &s = ctx.s;
      mem::install();
      unsigned sum = 0;
      for ( auto &k : kinds )
         sum += k.second;
      unsigned r = static_cast<unsigned>( s.below( sum ) );
      const char *id = nullptr;
      for ( auto &k : kinds )
      {
         if ( r < k.second )
         {
            id = k.first;
            break;
         }
         r -= k.second;
      }
      void ( *fn )( Ctx & ) = nullptr;
      for ( auto &d : pbt::registry() )
         if ( !strcmp( d.id, id ) )
            fn = d.fn;
      if ( !fn )
         throw pbt::HarnessError( "no sessions" );
      ctx.say( sprintf_( "session of %s\n", id ) );
      ctx.label( sprintf_( "%s", id ) );

      const std::string dir = ctx.dir + "/r";
      const uint64_t from = s.used();
      bool counts = false, other = false;
      const auto perform = [&]( Src &src ) {
         std::filesystem::remove_all( dir );
         std::filesystem::create_directory( dir );
         const uint64_t bad = fio::badCloses;
         {
            Ctx sub( src );
            sub.dir = dir;
            sub.index = ctx.index;
            try
            {
               fn( sub );
            }
            catch ( const pbt::Violation & )
            {
               other = true; // of that check's property
            }
            counts = counts || sub.nontrivial;
            fio::stop();
            if ( &src == &s )
               ctx.say( sub.desc );
         }
         fio::start( fio::Plan() );
         fio::stop();
         ++ctx.evals;
         if ( fio::badCloses != bad )
            fail( "a file handle was released that was not held" );
      };
      perform( s );
      const std::vector<uint64_t> choices = s.taken( from );
      std::vector<uint64_t> record( choices.size() + 64 );
      const auto again = [&] {
         uint64_t count = 0;
         {
            Src src( record.data(), &count, record.size() );
            src.replayMode( choices );
            perform( src );
         }
         return state();
      };
      if ( const char *to = getenv( "E57_LEAKS" ) ) // to look into a replay
      {
         again();
         mem::reset();
         again();
         mem::print( to );
      }
      State before = state();
      // what is kept for later use is not allocated again each time
      int files = 0, memory = 0;
      for ( int k = 0; k < 5; ++k )
      {
         const State now = again();
         if ( now.files > before.files )
            ++files;
         else
            files = INT32_MIN;
         if ( now.blocks > before.blocks && now.bytes > before.bytes )
            ++memory;
         else
            memory = INT32_MIN;
         if ( files < 0 && memory < 0 )
            break;
         if ( k == 4 && files > 0 )
            fail( sprintf_( "every repetition leaves %d more file handles open", now.files - before.files ) );
         if ( k == 4 && memory > 0 )
            fail( sprintf_( "every repetition leaves %lld more blocks allocated (%lld bytes)", (long long)( now.blocks - before.blocks ),
                            (long long)( now.bytes - before.bytes ) ) );
         before = now;
      }
      ctx.nontrivial = counts && !other;
   }

   pbt::Reg r26( { "C26",
                   c26,
                   6000,
                   60000,
                   "exploration",
                   "the session counts by the rule of the check it is taken from",
                   { "what grows in each of five identical repetitions counts as not released" } } );
}
