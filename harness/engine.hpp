// Property-based testing engine: recorded choice sequences, process isolation,
// shrinking, replay files and evidence.
#pragma once

#include <cstdint>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <map>
#include <string>
#include <vector>

namespace pbt
{
   // ------------------------------------------------------------------ choices
   // Every random decision of a case is a draw from a Src. A case is therefore a
   // pure function of its choice sequence; random cases derive the sequence from
   // (VERIF_SEED, property, case index), replay and shrinking feed it explicitly.
   struct Overrun : std::runtime_error
   {
      Overrun() : std::runtime_error( "too many choices" ) {}
   };

   class Src
   {
   public:
      // record: storage for the choices made (shared memory), cap: its capacity
      Src( uint64_t *record, uint64_t *count, uint64_t cap );
      void randomMode( uint64_t seed );
      void replayMode( const std::vector<uint64_t> &choices );

      uint64_t raw( uint64_t n ); // uniform in [0,n); n==0: all 64 bits
      uint64_t below( uint64_t n ) { return n <= 1 ? 0 : raw( n ); }
      int64_t range( int64_t lo, int64_t hi ); // inclusive
      bool flip() { return raw( 2 ) == 1; }
      bool chance( uint64_t num, uint64_t den ); // true with probability num/den; 0-choice is false
      uint64_t bits() { return raw( 0 ); }
      size_t weighted( std::initializer_list<unsigned> w );
      template <class T> const T &pick( const std::vector<T> &v ) { return v[below( v.size() )]; }
      template <class T> T pick( std::initializer_list<T> l ) { return *( l.begin() + below( l.size() ) ); }
      uint64_t geom( uint64_t mean, uint64_t max ); // skewed to small numbers
      uint64_t used() const { return pos_; }
      std::vector<uint64_t> taken( uint64_t from ) const { return std::vector<uint64_t>( record_ + from, record_ + pos_ ); }

   private:
      uint64_t next();
      bool replay_ = false;
      std::vector<uint64_t> choices_;
      uint64_t state_[4] = {};
      uint64_t pos_ = 0;
      uint64_t *record_, *count_, cap_;
   };

   // local generator for bulk data: one drawn seed, many values
   class Prng
   {
   public:
      explicit Prng( uint64_t seed ) : s_( seed ) {}
      uint64_t next();
      uint64_t below( uint64_t n ) { return n <= 1 ? 0 : next() % n; }

   private:
      uint64_t s_;
   };

   uint64_t hash64( const std::string &s, uint64_t h = 1469598103934665603ull );

   // ------------------------------------------------------------------ cases
   struct Violation : std::runtime_error
   {
      std::string key; // identifies a known finding; empty: none
      explicit Violation( const std::string &m ) : std::runtime_error( m ) {}
      Violation( const std::string &k, const std::string &m ) : std::runtime_error( m ), key( k ) {}
   };

   struct HarnessError : std::runtime_error // a mistake of the check itself
   {
      explicit HarnessError( const std::string &m ) : std::runtime_error( m ) {}
   };

   struct Ctx
   {
      Src &s;
      std::string dir; // empty scratch directory of this case
      bool thorough = false;
      uint64_t index = 0;
      bool nontrivial = false;
      uint64_t evals = 0; // sub-evaluations (fault points, mutants); 0 counts as 1
      uint64_t hash = 0;  // identity of the case; default: hash of desc or of the choices
      std::string desc;   // human readable description of the case
      std::vector<std::string> labels;
      char *live = nullptr; // copy of desc that survives a crash
      size_t liveCap = 0;
      explicit Ctx( Src &src ) : s( src ) {}
      void label( const std::string &l ) { labels.push_back( l ); }
      void say( const std::string &t )
      {
         if ( desc.size() > 20000 )
            return;
         if ( live && desc.size() + t.size() + 1 < liveCap )
            std::memcpy( live + desc.size(), t.c_str(), t.size() + 1 );
         desc += t;
      }
   };

   [[noreturn]] void fail( const std::string &msg );
   [[noreturn]] void failKey( const std::string &key, const std::string &msg );
   std::string sprintf_( const char *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );

   struct PropDef
   {
      const char *id;
      void ( *fn )( Ctx & );
      uint64_t quick, thorough; // number of cases
      const char *level;
      const char *rule;
      std::vector<std::string> assumptions;
      unsigned caseTimeout = 60; // seconds; a case that takes longer is a hang
      unsigned workers = 8;
   };

   std::vector<PropDef> &registry();
   // Another build configuration of the library with the same harness code
   struct Build
   {
      std::vector<PropDef> checks;
      // draws a session and performs it; error or ""
      std::string ( *write )( Ctx &ctx, const std::string &path ) = nullptr;
      // what a file presents
      std::string ( *read )( const std::string &path, bool high ) = nullptr;
   };
   std::map<std::string, Build> &configs();

   struct Reg
   {
#ifdef VARIANT_REG
      explicit Reg( PropDef d ) { configs()[VARIANT_REG].checks.push_back( std::move( d ) ); }
#else
      explicit Reg( PropDef d ) { registry().push_back( std::move( d ) ); }
#endif
   };

   // What a check runs in a process of its own: <this program> --helper name argument
   using Helper = int ( * )( const std::string &argument );
   std::map<std::string, Helper> &helpers();
   struct RegHelper
   {
#ifdef VARIANT_REG
      RegHelper( const char *, Helper ) {}
#else
      RegHelper( const char *name, Helper h ) { helpers()[name] = h; }
#endif
   };
   // Output of such a process; HarnessError if it fails
   std::string runHelper( const std::string &name, const std::string &argument );
}
