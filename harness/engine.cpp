#include "engine.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options()
{
   return "detect_leaks=0:exitcode=77:handle_abort=1:quarantine_size_mb=32:"
          "max_allocation_size_mb=1024:allocator_may_return_null=0:detect_stack_use_after_return=0:"
          "malloc_context_size=12:symbolize=1:allow_user_segv_handler=0:max_malloc_fill_size=4096:"
          "hard_rss_limit_mb=6000:print_legend=0";
}
extern "C" const char *__ubsan_default_options()
{
   return "print_stacktrace=1:halt_on_error=1:exitcode=77";
}

namespace pbt
{
   static uint64_t splitmix( uint64_t &x )
   {
      uint64_t z = ( x += 0x9e3779b97f4a7c15ull );
      z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
      z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
      return z ^ ( z >> 31 );
   }

   uint64_t Prng::next() { return splitmix( s_ ); }

   uint64_t hash64( const std::string &s, uint64_t h )
   {
      for ( unsigned char c : s )
      {
         h ^= c;
         h *= 1099511628211ull;
      }
      h ^= h >> 29;
      return h;
   }

   Src::Src( uint64_t *record, uint64_t *count, uint64_t cap ) :
      record_( record ), count_( count ), cap_( cap )
   {
      *count_ = 0;
   }

   void Src::randomMode( uint64_t seed )
   {
      replay_ = false;
      for ( auto &s : state_ )
         s = splitmix( seed );
   }

   void Src::replayMode( const std::vector<uint64_t> &c )
   {
      replay_ = true;
      choices_ = c;
   }

   static inline uint64_t rotl( uint64_t x, int k ) { return ( x << k ) | ( x >> ( 64 - k ) ); }

   uint64_t Src::next()
   {
      const uint64_t result = rotl( state_[1] * 5, 7 ) * 9;
      const uint64_t t = state_[1] << 17;
      state_[2] ^= state_[0];
      state_[3] ^= state_[1];
      state_[1] ^= state_[2];
      state_[0] ^= state_[3];
      state_[2] ^= t;
      state_[3] = rotl( state_[3], 45 );
      return result;
   }

   uint64_t Src::raw( uint64_t n )
   {
      uint64_t v;
      if ( replay_ )
         v = pos_ < choices_.size() ? choices_[pos_] : 0;
      else
         v = next();
      if ( n != 0 )
         v %= n;
      if ( pos_ >= cap_ )
         throw Overrun();
      record_[pos_++] = v;
      *count_ = pos_;
      return v;
   }

   int64_t Src::range( int64_t lo, int64_t hi )
   {
      if ( lo >= hi )
         return lo;
      const uint64_t span = static_cast<uint64_t>( hi ) - static_cast<uint64_t>( lo ) + 1;
      return static_cast<int64_t>( static_cast<uint64_t>( lo ) + raw( span ) );
   }

   bool Src::chance( uint64_t num, uint64_t den ) { return raw( den ) >= den - num; }

   size_t Src::weighted( std::initializer_list<unsigned> w )
   {
      uint64_t sum = 0;
      for ( auto x : w )
         sum += x;
      uint64_t r = below( sum );
      size_t i = 0;
      for ( auto x : w )
      {
         if ( r < x )
            return i;
         r -= x;
         ++i;
      }
      return 0;
   }

   uint64_t Src::geom( uint64_t mean, uint64_t max )
   {
      if ( mean == 0 || max == 0 )
         return 0;
      // pick a scale, then uniform below it
      uint64_t scale = 1;
      const uint64_t r = raw( 16 );
      if ( r < 4 )
         scale = 2;
      else if ( r < 9 )
         scale = mean;
      else if ( r < 14 )
         scale = mean * 2;
      else if ( r < 15 )
         scale = mean * 4;
      else
         scale = max;
      scale = std::min( scale, max );
      return below( scale + 1 );
   }

   void fail( const std::string &msg ) { throw Violation( msg ); }
   void failKey( const std::string &key, const std::string &msg ) { throw Violation( key, msg ); }

   std::string sprintf_( const char *fmt, ... )
   {
      char buf[4096];
      va_list ap;
      va_start( ap, fmt );
      vsnprintf( buf, sizeof buf, fmt, ap );
      va_end( ap );
      return buf;
   }

   std::map<std::string, Helper> &helpers()
   {
      static std::map<std::string, Helper> h;
      return h;
   }

   std::string runHelper( const std::string &name, const std::string &argument )
   {
      int fds[2];
      if ( pipe( fds ) )
         throw HarnessError( "pipe" );
      const pid_t pid = fork();
      if ( pid < 0 )
         throw HarnessError( "fork" );
      if ( pid == 0 )
      {
         dup2( fds[1], 1 );
         close( fds[0] );
         close( fds[1] );
         execl( "/proc/self/exe", "e57check", "--helper", name.c_str(), argument.c_str(), static_cast<char *>( nullptr ) );
         _exit( 127 );
      }
      close( fds[1] );
      std::string out;
      char buf[4096];
      for ( ssize_t n; ( n = read( fds[0], buf, sizeof buf ) ) != 0; )
         if ( n > 0 )
            out.append( buf, static_cast<size_t>( n ) );
         else if ( errno != EINTR )
            break;
      close( fds[0] );
      int st = 0;
      while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR )
         ;
      if ( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 )
         throw HarnessError( "helper " + name + " failed" );
      return out;
   }

   std::map<std::string, Build> &configs()
   {
      static std::map<std::string, Build> c;
      return c;
   }

   std::vector<PropDef> &registry()
   {
      static std::vector<PropDef> r;
      return r;
   }
}

using namespace pbt;

namespace
{
   constexpr uint64_t ChoiceCap = 1u << 20;
   constexpr size_t MsgCap = 1u << 16;

   enum Outcome : uint32_t
   {
      OPass = 0,
      ODiscard,
      OViolation,
      OCrash,
      OTimeout,
      OHarness // harness error (foreign exception in the harness itself)
   };

   const char *outcomeName( uint32_t o )
   {
      static const char *n[] = { "pass", "discard", "violation", "crash", "timeout", "harness-error" };
      return n[o];
   }

   struct Shared
   {
      volatile uint64_t index;
      volatile uint32_t outcome;
      uint64_t count;
      char key[256];
      char msg[MsgCap];
      char desc[MsgCap];
      uint64_t choices[ChoiceCap];
   };

   struct Global
   {
      volatile uint64_t stopAt;
   };

   Shared *mapShared()
   {
      void *p = mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
      if ( p == MAP_FAILED )
      {
         perror( "mmap" );
         _exit( 2 );
      }
      return static_cast<Shared *>( p );
   }

   void rmTree( const std::string &dir )
   {
      DIR *d = opendir( dir.c_str() );
      if ( !d )
         return;
      while ( dirent *e = readdir( d ) )
      {
         const std::string n = e->d_name;
         if ( n == "." || n == ".." )
            continue;
         const std::string p = dir + "/" + n;
         struct stat st;
         if ( lstat( p.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ) )
            rmTree( p );
         else
            unlink( p.c_str() );
      }
      closedir( d );
      rmdir( dir.c_str() );
   }

   void cleanDir( const std::string &dir )
   {
      rmTree( dir );
      mkdir( dir.c_str(), 0700 );
   }

   void putStr( char *dst, size_t cap, const std::string &s )
   {
      const size_t n = std::min( cap - 1, s.size() );
      memcpy( dst, s.data(), n );
      dst[n] = 0;
   }

   double now()
   {
      return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count();
   }

   std::string jsonStr( const std::string &s )
   {
      std::string o = "\"";
      for ( unsigned char c : s )
      {
         if ( c == '"' || c == '\\' )
         {
            o += '\\';
            o += c;
         }
         else if ( c < 0x20 || c >= 0x7f )
         {
            char b[8];
            snprintf( b, sizeof b, "\\u%04x", c );
            o += b;
         }
         else
            o += c;
      }
      return o + "\"";
   }

   struct Config
   {
      const PropDef *prop = nullptr;
      uint64_t seed = 1;
      bool thorough = false;
      uint64_t cases = 0;
      uint64_t only = UINT64_MAX;
      std::string scratch;
      std::string verif;
      double budget = 0;
      bool verbose = false;
   };

   uint64_t caseSeed( const Config &c, uint64_t index )
   {
      uint64_t h = hash64( c.prop->id );
      h ^= c.seed * 0x9e3779b97f4a7c15ull;
      h = splitmix( h );
      h ^= index * 0xda942042e4dd58b5ull;
      return splitmix( h );
   }

   // Runs one case in this process. Returns the outcome; details are in sh.
   Outcome runCase( const Config &c, Shared *sh, uint64_t index, const std::vector<uint64_t> *choices,
                    Ctx &ctx )
   {
      sh->index = index;
      sh->outcome = OCrash; // until proven otherwise
      sh->key[0] = sh->msg[0] = sh->desc[0] = 0;
      ctx.live = sh->desc;
      ctx.liveCap = sizeof sh->desc;
      if ( choices )
         ctx.s.replayMode( *choices );
      else
         ctx.s.randomMode( caseSeed( c, index ) );
      ctx.index = index;
      ctx.thorough = c.thorough;
      cleanDir( ctx.dir );
      alarm( c.prop->caseTimeout );
      Outcome o = OPass;
      try
      {
         c.prop->fn( ctx );
      }
      catch ( const Violation &v )
      {
         o = OViolation;
         putStr( sh->key, sizeof sh->key, v.key );
         putStr( sh->msg, sizeof sh->msg, v.what() );
      }
      catch ( const Overrun & )
      {
         o = ODiscard;
      }
      catch ( const HarnessError &e )
      {
         o = OHarness;
         putStr( sh->msg, sizeof sh->msg, e.what() );
      }
      catch ( const std::exception &e )
      {
         // the harness throws nothing else, so this comes from the library
         o = OViolation;
         putStr( sh->key, sizeof sh->key, "" );
         putStr( sh->msg, sizeof sh->msg, std::string( "an exception came out that should not: " ) + e.what() );
      }
      catch ( ... )
      {
         o = OViolation;
         putStr( sh->key, sizeof sh->key, "" );
         putStr( sh->msg, sizeof sh->msg, "an unknown exception came out" );
      }
      alarm( 0 );
      putStr( sh->desc, sizeof sh->desc, ctx.desc );
      sh->outcome = o;
      return o;
   }

   struct Result
   {
      Outcome outcome = OPass;
      std::string key, msg, desc;
      std::vector<uint64_t> choices;
   };

   std::string readFile( const std::string &p, size_t maxTail )
   {
      std::ifstream f( p, std::ios::binary );
      std::stringstream ss;
      ss << f.rdbuf();
      std::string s = ss.str();
      if ( s.size() > maxTail )
         s = s.substr( 0, maxTail );
      return s;
   }

   void redirect( const std::string &path )
   {
      int fd = open( path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
      if ( fd >= 0 )
      {
         dup2( fd, 2 );
         dup2( fd, 1 );
         if ( fd > 2 )
            close( fd );
      }
   }

   // Runs one case in a forked child and reports how it ended.
   // step > 0: all cases index % step, index % step + step, ..., index in one process, for
   // failures that depend on what ran before
   Result runIsolated( const Config &c, Shared *sh, uint64_t index, const std::vector<uint64_t> *choices,
                       uint64_t step = 0 )
   {
      Result r;
      const std::string dir = c.scratch + "/iso";
      const std::string err = c.scratch + "/iso.err";
      fflush( stdout );
      fflush( stderr );
      sh->outcome = OCrash;
      sh->count = 0;
      pid_t pid = fork();
      if ( pid == 0 )
      {
         redirect( err );
         for ( uint64_t i = step ? index % step : index;; i += step )
         {
            Src src( sh->choices, &sh->count, ChoiceCap );
            Ctx ctx( src );
            ctx.dir = dir;
            runCase( c, sh, i, choices, ctx );
            if ( i >= index || step == 0 )
               break;
         }
         _exit( 0 );
      }
      int st = 0;
      waitpid( pid, &st, 0 );
      if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 )
         r.outcome = static_cast<Outcome>( sh->outcome );
      else if ( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM )
      {
         r.outcome = OTimeout;
         r.msg = sprintf_( "no result after %u s", c.prop->caseTimeout );
      }
      else
      {
         r.outcome = OCrash;
         r.msg = ( WIFSIGNALED( st ) ? sprintf_( "killed by signal %d\n", WTERMSIG( st ) )
                                     : sprintf_( "process ended with status %d\n", WEXITSTATUS( st ) ) ) +
                 readFile( err, 6000 );
      }
      r.choices.assign( sh->choices, sh->choices + std::min<uint64_t>( sh->count, ChoiceCap ) );
      if ( r.outcome == OViolation || r.outcome == OHarness )
      {
         r.key = sh->key;
         r.msg = sh->msg;
      }
      r.desc = sh->desc;
      rmTree( dir );
      unlink( err.c_str() );
      return r;
   }

   bool isFailure( Outcome o ) { return o == OViolation || o == OCrash || o == OTimeout; }

   // what a failure is about, without numbers and values: shrinking must not slip to another one
   std::string signature( const Result &r )
   {
      std::string m = r.msg;
      if ( r.outcome == OCrash )
      {
         size_t p = m.find( "runtime error:" );
         if ( p == std::string::npos )
            p = m.find( "ERROR: AddressSanitizer:" );
         if ( p == std::string::npos )
            p = 0;
         m = m.substr( p, 60 );
      }
      std::string o;
      for ( char ch : m )
      {
         if ( isalpha( static_cast<unsigned char>( ch ) ) || ch == ' ' )
            o += ch;
         if ( o.size() >= 24 )
            break;
      }
      return o;
   }

   // choice-sequence shrinking: shortlex-smaller sequences with the same kind of failure
   Result shrink( const Config &c, Shared *sh, Result best, double budget )
   {
      const double end = now() + budget;
      unsigned runs = 0;
      const std::string key = best.key;
      const Outcome kind = best.outcome;
      const std::string sig = signature( best );
      auto attempt = [&]( const std::vector<uint64_t> &cand ) {
         if ( now() > end || runs > 4000 )
            return false;
         ++runs;
         Result r = runIsolated( c, sh, best.choices.size(), &cand );
         if ( r.outcome == kind && r.key == key && signature( r ) == sig &&
              ( r.choices.size() < best.choices.size() ||
                ( r.choices.size() == best.choices.size() && r.choices < best.choices ) ) )
         {
            best = r;
            return true;
         }
         return false;
      };
      // a hang takes the whole timeout for each attempt
      if ( kind == OTimeout )
         return best;
      bool progress = true;
      while ( progress && now() < end )
      {
         progress = false;
         // cut the tail
         for ( size_t keep = best.choices.size() / 2; keep > 0 && keep < best.choices.size(); )
         {
            std::vector<uint64_t> cand( best.choices.begin(), best.choices.begin() + keep );
            if ( attempt( cand ) )
               keep = best.choices.size() / 2, progress = true;
            else
               keep += std::max<size_t>( 1, ( best.choices.size() - keep ) / 2 );
            if ( now() > end )
               break;
         }
         // delete blocks
         for ( size_t len : { size_t( 64 ), size_t( 16 ), size_t( 8 ), size_t( 4 ), size_t( 3 ), size_t( 2 ), size_t( 1 ) } )
         {
            for ( size_t i = best.choices.size(); i >= len && now() < end; )
            {
               i -= std::min( i, len );
               if ( i + len > best.choices.size() )
                  continue;
               std::vector<uint64_t> cand( best.choices );
               cand.erase( cand.begin() + i, cand.begin() + i + len );
               if ( attempt( cand ) )
                  progress = true;
               if ( i == 0 )
                  break;
            }
         }
         // zero blocks
         for ( size_t len : { size_t( 16 ), size_t( 4 ) } )
         {
            for ( size_t i = 0; i + len <= best.choices.size() && now() < end; i += len )
            {
               std::vector<uint64_t> cand( best.choices );
               bool any = false;
               for ( size_t k = i; k < i + len; ++k )
                  any = any || cand[k], cand[k] = 0;
               if ( any && attempt( cand ) )
                  progress = true;
            }
         }
         // minimise single values
         for ( size_t i = 0; i < best.choices.size() && now() < end; ++i )
         {
            if ( best.choices[i] == 0 )
               continue;
            std::vector<uint64_t> cand( best.choices );
            cand[i] = 0;
            if ( attempt( cand ) )
            {
               progress = true;
               continue;
            }
            if ( i >= best.choices.size() )
               break;
            uint64_t lo = 0, hi = best.choices[i];
            for ( int step = 0; step < 12 && hi - lo > 1 && now() < end; ++step )
            {
               const uint64_t mid = lo + ( hi - lo ) / 2;
               cand = best.choices;
               if ( i >= cand.size() )
                  break;
               cand[i] = mid;
               if ( attempt( cand ) )
               {
                  progress = true;
                  if ( i >= best.choices.size() )
                     break;
                  hi = best.choices[i];
               }
               else
                  lo = mid;
            }
         }
      }
      return best;
   }

   std::vector<uint64_t> parseReplay( const std::string &path )
   {
      std::ifstream f( path );
      std::string line;
      std::vector<uint64_t> v;
      while ( std::getline( f, line ) )
      {
         if ( line.rfind( "choices:", 0 ) == 0 )
         {
            std::stringstream ss( line.substr( 8 ) );
            uint64_t x;
            while ( ss >> x )
               v.push_back( x );
         }
      }
      return v;
   }

   struct Stats
   {
      uint64_t cases = 0, evals = 0, discards = 0, known = 0;
      std::set<uint64_t> distinct;
      std::map<std::string, uint64_t> labels;
      std::vector<std::string> samples;
      std::set<std::string> knownKeys;
   };

   void writeStats( const std::string &path, const Stats &s )
   {
      std::ofstream f( path, std::ios::binary );
      f << "c " << s.cases << " " << s.evals << " " << s.discards << " " << s.known << "\n";
      for ( auto h : s.distinct )
         f << "h " << h << "\n";
      for ( auto &l : s.labels )
         f << "l " << l.second << " " << l.first << "\n";
      for ( auto &x : s.samples )
      {
         std::string y = x.substr( 0, 1500 );
         std::replace( y.begin(), y.end(), '\n', ' ' );
         f << "s " << y << "\n";
      }
      for ( auto &k : s.knownKeys )
         f << "k " << k << "\n";
   }

   void readStats( const std::string &path, Stats &s )
   {
      std::ifstream f( path, std::ios::binary );
      std::string line;
      while ( std::getline( f, line ) )
      {
         std::stringstream ss( line );
         char t;
         ss >> t;
         if ( t == 'c' )
         {
            uint64_t a, b, c, d;
            ss >> a >> b >> c >> d;
            s.cases += a;
            s.evals += b;
            s.discards += c;
            s.known += d;
         }
         else if ( t == 'h' )
         {
            uint64_t h;
            ss >> h;
            s.distinct.insert( h );
         }
         else if ( t == 'l' )
         {
            uint64_t n;
            ss >> n;
            ss.get();
            std::string l;
            std::getline( ss, l );
            s.labels[l] += n;
         }
         else if ( t == 's' )
            s.samples.push_back( line.substr( 2 ) );
         else if ( t == 'k' )
            s.knownKeys.insert( line.substr( 2 ) );
      }
   }

   // known findings still open: lines "open: property=<id> key=<key> <text>"
   std::map<std::string, std::string> openFindings( const Config &c )
   {
      std::map<std::string, std::string> m;
      std::ifstream f( c.verif + "/known_findings.txt" );
      std::string line;
      while ( std::getline( f, line ) )
      {
         std::stringstream ss( line );
         std::string a, b, k, rest;
         ss >> a >> b >> k;
         std::getline( ss, rest );
         if ( a == "open:" && b == std::string( "property=" ) + c.prop->id && k.rfind( "key=", 0 ) == 0 )
            m[k.substr( 4 )] = rest;
      }
      return m;
   }

   void worker( const Config &c, Shared *sh, Global *g, unsigned w, unsigned nw, uint64_t first,
                const std::map<std::string, std::string> &open )
   {
      redirect( c.scratch + "/w" + std::to_string( w ) + ".err" );
      Stats st;
      const std::string statsPath = c.scratch + "/w" + std::to_string( w ) + "-" + std::to_string( first ) + ".stats";
      const double end = now() + c.budget;
      for ( uint64_t i = first; i < c.cases; i += nw )
      {
         if ( i > g->stopAt )
            break;
         if ( now() > end )
         {
            st.labels["(time budget reached)"]++;
            break;
         }
         Src src( sh->choices, &sh->count, ChoiceCap );
         Ctx ctx( src );
         ctx.dir = c.scratch + "/w" + std::to_string( w );
         if ( ( i / nw ) % 8 == 0 )
            writeStats( statsPath, st ); // in case this one crashes
         if ( ftruncate( 2, 0 ) == 0 )
            lseek( 2, 0, SEEK_SET );
         const Outcome o = runCase( c, sh, i, nullptr, ctx );
         if ( o == OViolation && open.count( sh->key ) )
         {
            st.known++;
            st.knownKeys.insert( sh->key );
         }
         else if ( o == OViolation || o == OHarness )
         {
            if ( i < g->stopAt )
               g->stopAt = i;
            writeStats( statsPath, st );
            _exit( 10 );
         }
         if ( o == ODiscard )
         {
            st.discards++;
            continue;
         }
         st.cases++;
         st.evals += ctx.evals ? ctx.evals : 1;
         if ( ctx.nontrivial )
         {
            uint64_t h = ctx.hash;
            if ( !h )
               h = hash64( std::string( reinterpret_cast<const char *>( sh->choices ),
                                        sizeof( uint64_t ) * std::min<uint64_t>( sh->count, 4096 ) ) );
            st.distinct.insert( h );
            if ( st.samples.size() < 2 && !ctx.desc.empty() && ( i / nw ) % 5 == 2 )
               st.samples.push_back( sprintf_( "case %llu: ", static_cast<unsigned long long>( i ) ) + ctx.desc );
         }
         for ( auto &l : ctx.labels )
            st.labels[l]++;
      }
      writeStats( statsPath, st );
      rmTree( c.scratch + "/w" + std::to_string( w ) );
      _exit( 0 );
   }

   std::string mkScratch()
   {
      const char *t = getenv( "TMPDIR" );
      std::string tpl = std::string( t && *t ? t : "/tmp" ) + "/e57check-XXXXXX";
      std::vector<char> b( tpl.begin(), tpl.end() );
      b.push_back( 0 );
      if ( !mkdtemp( b.data() ) )
      {
         perror( "mkdtemp" );
         exit( 2 );
      }
      return b.data();
   }
}

int main( int argc, char **argv )
{
   Config c;
   std::string replayIn, replayOut;
   std::string id;
   for ( int i = 1; i < argc; ++i )
   {
      const std::string a = argv[i];
      auto val = [&]() { return std::string( i + 1 < argc ? argv[++i] : "" ); };
      if ( a == "--replay" )
         replayIn = val();
      else if ( a == "--cases" )
         c.cases = std::stoull( val() );
      else if ( a == "--case" )
         c.only = std::stoull( val() );
      else if ( a == "--verif" )
         c.verif = val();
      else if ( a == "--budget" )
         c.budget = std::stod( val() );
      else if ( a == "--verbose" )
         c.verbose = true;
      else if ( a == "--helper" )
      {
         const auto h = helpers().find( val() );
         return h == helpers().end() ? 2 : h->second( val() );
      }
      else if ( a == "--list" )
      {
         for ( auto &p : registry() )
            printf( "%s\n", p.id );
         return 0;
      }
      else
         id = a;
   }
   for ( auto &p : registry() )
      if ( id == p.id )
         c.prop = &p;
   if ( !c.prop )
   {
      fprintf( stderr, "unknown property '%s'\n", id.c_str() );
      return 2;
   }
   if ( c.verif.empty() )
   {
      // the tree this program was built in, so that a copy leaves the original's evidence alone
      char exe[4096];
      const ssize_t n = readlink( "/proc/self/exe", exe, sizeof( exe ) - 1 );
      c.verif = std::string( exe, n > 0 ? static_cast<size_t>( n ) : 0 );
      for ( int up = 0; up < 2; ++up )
         c.verif.erase( std::min( c.verif.size(), c.verif.rfind( '/' ) ) );
      if ( c.verif.empty() )
         c.verif = "/verif";
   }
   const char *e = getenv( "VERIF_SEED" );
   c.seed = e && *e ? strtoull( e, nullptr, 10 ) : 1;
   e = getenv( "VERIF_TIER" );
   c.thorough = e && std::string( e ) == "thorough";
   if ( !c.cases )
      c.cases = c.thorough ? c.prop->thorough : c.prop->quick;
   if ( c.budget <= 0 )
      c.budget = c.thorough ? 7200 : 420;
   c.scratch = mkScratch();
   const double t0 = now();
   Shared *iso = mapShared();

   if ( !replayIn.empty() || c.only != UINT64_MAX )
   {
      Result r;
      if ( !replayIn.empty() )
      {
         std::ifstream f( replayIn );
         std::string line;
         uint64_t step = 0, idx = 0;
         while ( std::getline( f, line ) )
            if ( line.rfind( "sequence:", 0 ) == 0 )
            {
               std::stringstream ss( line.substr( 9 ) );
               ss >> step >> idx >> c.seed >> c.thorough;
            }
            else if ( line == "tier: thorough" )
               c.thorough = true;
         const auto ch = parseReplay( replayIn );
         r = step ? runIsolated( c, iso, idx, nullptr, step ) : runIsolated( c, iso, 0, &ch );
      }
      else
         r = runIsolated( c, iso, c.only, nullptr );
      printf( "outcome: %s\n%s\n%s\n", outcomeName( r.outcome ), r.desc.c_str(), r.msg.c_str() );
      rmTree( c.scratch );
      if ( isFailure( r.outcome ) )
      {
         printf( "VIOLATION property=%s replay=%s\n", c.prop->id, replayIn.c_str() );
         return 1;
      }
      return r.outcome == OHarness ? 2 : 0;
   }

   const auto open = openFindings( c );
   unsigned nw = c.prop->workers;
   const long cpus = sysconf( _SC_NPROCESSORS_ONLN );
   if ( cpus > 0 && nw > static_cast<unsigned>( cpus ) )
      nw = cpus;
   if ( nw > c.cases )
      nw = c.cases ? c.cases : 1;
   Global *g = static_cast<Global *>(
      mmap( nullptr, sizeof( Global ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
   g->stopAt = UINT64_MAX;
   std::vector<Shared *> sh( nw );
   std::map<pid_t, unsigned> pids;
   std::vector<std::string> statFiles;
   // candidates: index -> outcome seen in the worker
   std::map<uint64_t, std::string> suspects;
   auto spawn = [&]( unsigned w, uint64_t first ) {
      fflush( stdout );
      fflush( stderr );
      statFiles.push_back( c.scratch + "/w" + std::to_string( w ) + "-" + std::to_string( first ) + ".stats" );
      pid_t p = fork();
      if ( p == 0 )
         worker( c, sh[w], g, w, nw, first, open );
      pids[p] = w;
   };
   for ( unsigned w = 0; w < nw; ++w )
   {
      sh[w] = mapShared();
      spawn( w, w );
   }
   bool harnessError = false;
   while ( !pids.empty() )
   {
      int st = 0;
      pid_t p = waitpid( -1, &st, 0 );
      if ( p < 0 )
         break;
      auto it = pids.find( p );
      if ( it == pids.end() )
         continue;
      const unsigned w = it->second;
      pids.erase( it );
      if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 )
         continue;
      const uint64_t idx = sh[w]->index;
      if ( idx < g->stopAt )
         g->stopAt = idx;
      suspects[idx] = WIFSIGNALED( st ) ? sprintf_( "signal %d", WTERMSIG( st ) )
                                        : sprintf_( "status %d", WEXITSTATUS( st ) );
   }
   Stats st;
   for ( auto &f : statFiles )
      readStats( f, st );

   int exitCode = 0;
   uint64_t violations = 0;
   std::string note;
   if ( !suspects.empty() )
   {
      const uint64_t idx = suspects.begin()->first;
      Result r = runIsolated( c, iso, idx, nullptr );
      if ( !isFailure( r.outcome ) )
         r = runIsolated( c, iso, idx, nullptr ); // once more
      uint64_t step = 0;
      if ( !isFailure( r.outcome ) && r.outcome != OHarness )
      {
         // does it depend on the cases that ran before it in the same process?
         r = runIsolated( c, iso, idx, nullptr, nw );
         step = nw;
      }
      if ( r.outcome == OHarness )
      {
         printf( "ERROR property=%s case=%llu harness: %s\n", c.prop->id,
                 static_cast<unsigned long long>( idx ), r.msg.c_str() );
         harnessError = true;
         exitCode = 2;
      }
      else if ( !isFailure( r.outcome ) )
      {
         printf( "ERROR property=%s case=%llu ended with %s in the worker but not when repeated\n%s\n",
                 c.prop->id, static_cast<unsigned long long>( idx ), suspects.begin()->second.c_str(),
                 readFile( c.scratch + "/w" + std::to_string( idx % nw ) + ".err", 4000 ).c_str() );
         harnessError = true;
         exitCode = 2;
      }
      else
      {
         printf( "case %llu: %s: %.3000s\n", static_cast<unsigned long long>( idx ), outcomeName( r.outcome ),
                 r.msg.c_str() );
         fflush( stdout );
         Result s = step ? r : shrink( c, iso, r, c.thorough ? 240 : 60 );
         unsigned again = 0;
         for ( int k = 0; k < 3; ++k )
         {
            Result x = step ? runIsolated( c, iso, idx, nullptr, step ) : runIsolated( c, iso, idx, &s.choices );
            again += isFailure( x.outcome );
         }
         const std::string dir = c.verif + "/evidence/replay";
         mkdir( ( c.verif + "/evidence" ).c_str(), 0755 );
         mkdir( dir.c_str(), 0755 );
         const std::string path =
            dir + "/" + c.prop->id + "-seed" + std::to_string( c.seed ) + "-case" + std::to_string( idx ) + ".replay";
         std::ofstream f( path );
         f << "property: " << c.prop->id << "\nseed: " << c.seed << "\ncase: " << idx << "\ntier: "
           << ( c.thorough ? "thorough" : "quick" ) << "\noutcome: " << outcomeName( s.outcome )
           << "\nreproduced: " << again << "/3\nreplay-with: bash /verif/run.sh " << c.prop->id << " --replay " << path
           << "\n";
         if ( step )
            f << "sequence: " << step << " " << idx << " " << c.seed << " " << c.thorough << "\n";
         f << "choices:";
         for ( auto x : s.choices )
            f << " " << x;
         f << "\n--- what failed\n" << s.msg << "\n--- case (shrunk)\n" << s.desc << "\n--- case (as found)\n"
           << r.msg << "\n" << r.desc << "\n";
         f.close();
         printf( "shrunk (%u/3 reproduced): %s\n%s\n", again, s.msg.substr( 0, 3000 ).c_str(),
                 s.desc.substr( 0, 3000 ).c_str() );
         printf( "VIOLATION property=%s replay=%s\n", c.prop->id, path.c_str() );
         violations = 1;
         exitCode = 1;
      }
   }
   for ( auto &k : st.knownKeys )
   {
      auto it = open.find( k );
      printf( "KNOWN-FINDING: property=%s %s%s\n", c.prop->id, k.c_str(),
              it == open.end() ? "" : it->second.c_str() );
   }
   const double wall = now() - t0;
   // too little done to say anything: an error, not a pass
   if ( exitCode == 0 && st.cases + st.discards < c.cases / 4 )
   {
      printf( "ERROR property=%s only %llu of %llu cases could be run in the time allowed\n", c.prop->id,
              static_cast<unsigned long long>( st.cases ), static_cast<unsigned long long>( c.cases ) );
      exitCode = 2;
   }
   {
      mkdir( ( c.verif + "/evidence" ).c_str(), 0755 );
      std::ofstream f( c.verif + "/evidence/" + c.prop->id + ".json" );
      f << "{\n \"property\": " << jsonStr( c.prop->id ) << ",\n \"tier\": \""
        << ( c.thorough ? "thorough" : "quick" ) << "\",\n \"seed\": " << c.seed << ",\n \"level\": \""
        << c.prop->level << "\",\n \"coverage\": {\n  \"evaluations\": " << st.evals
        << ",\n  \"cases\": " << st.cases << ",\n  \"discarded\": " << st.discards
        << ",\n  \"distinct_nontrivial\": " << st.distinct.size() << ",\n  \"rule\": " << jsonStr( c.prop->rule )
        << ",\n  \"classes\": {";
      bool firstL = true;
      for ( auto &l : st.labels )
      {
         f << ( firstL ? "" : ", " ) << "\n   " << jsonStr( l.first ) << ": " << l.second;
         firstL = false;
      }
      f << "\n  },\n  \"samples\": [";
      size_t n = 0;
      for ( auto &x : st.samples )
      {
         if ( n >= 6 )
            break;
         f << ( n ? "," : "" ) << "\n   " << jsonStr( x );
         ++n;
      }
      f << "\n  ]\n },\n \"assumptions\": [";
      n = 0;
      for ( auto &x : c.prop->assumptions )
         f << ( n++ ? ", " : "" ) << jsonStr( x );
      f << "],\n \"known_findings_seen\": " << st.known << ",\n \"wall_s\": " << sprintf_( "%.2f", wall )
        << ",\n \"violations\": " << violations << "\n}\n";
   }
   printf( "property=%s tier=%s seed=%llu cases=%llu evaluations=%llu distinct_nontrivial=%zu discarded=%llu "
           "wall=%.1fs exit=%d\n",
           c.prop->id, c.thorough ? "thorough" : "quick", static_cast<unsigned long long>( c.seed ),
           static_cast<unsigned long long>( st.cases ), static_cast<unsigned long long>( st.evals ),
           st.distinct.size(), static_cast<unsigned long long>( st.discards ), wall, exitCode );
   if ( c.verbose )
      for ( auto &l : st.labels )
         printf( "   %-40s %llu\n", l.first.c_str(), static_cast<unsigned long long>( l.second ) );
   (void)harnessError;
   rmTree( c.scratch );
   return exitCode;
}
