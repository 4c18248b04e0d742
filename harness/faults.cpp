// Unfinished and cut-off files (C20), failing file operations (C21), life of files (C22).
#include "high.hpp"
#include "indep.hpp"
#include "session.hpp"
#include "trace.hpp"
#include "wrap.hpp"

#include <fstream>
#include <iterator>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::Prng;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   std::string slurp( const std::string &path )
   {
      std::ifstream f( path, std::ios::binary );
      return std::string( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() );
   }
   void spew( const std::string &path, const std::string &b )
   {
      std::ofstream f( path, std::ios::binary | std::ios::trunc );
      f.write( b.data(), static_cast<std::streamsize>( b.size() ) );
   }
   bool exists( const std::string &path )
   {
      struct stat st;
      return ::lstat( path.c_str(), &st ) == 0;
   }

   MN someTree( Src &s, unsigned nodes, uint64_t recBytes, size_t blobBytes )
   {
      TreeOpts o;
      o.maxNodes = nodes;
      o.maxDepth = 3;
      o.maxRecBytes = recBytes;
      o.maxBlob = blobBytes;
      MN root = genTree( s, o );
      const auto add = [&]( MN n, const char *name ) {
         n.name = name;
         root.kids.push_back( std::move( n ) );
      };
      if ( s.chance( 2, 3 ) )
         add( genCV( s, o ), "zzrec" );
      if ( s.chance( 2, 3 ) )
      {
         MN b;
         b.t = T::Blob;
         Prng r( s.bits() );
         b.s.resize( s.below( blobBytes + 1 ) );
         for ( auto &c : b.s )
            c = static_cast<char>( r.next() );
         add( std::move( b ), "zzblob" );
      }
      return root;
   }
   const Exts noExts;

   std::string traceOf( const e57::ImageFile &imf, size_t *errors = nullptr )
   {
      TraceOpts o;
      o.retries = 0;
      o.capacity = 512;
      Tracer t( o );
      t.file( imf );
      if ( errors )
         *errors = t.errors;
      return t.out;
   }

   // A writing session of the core or the high-level API
   struct Job
   {
      MN root;
      std::unique_ptr<Session> core;
      std::unique_ptr<HighSession> high;

      Job( Ctx &ctx, unsigned nodes, uint64_t recBytes, size_t blobBytes )
      {
         Src &s = ctx.s;
         if ( s.chance( 1, 4 ) )
         {
            high.reset( new HighSession( drawHigh( s, std::min<size_t>( 200, recBytes / 50 ), blobBytes ) ) );
            ctx.say( high->show() );
            ctx.label( "high-level API" );
            return;
         }
         root = someTree( s, 1 + static_cast<unsigned>( s.below( nodes ) ), recBytes, blobBytes );
         core.reset( new Session( root, noExts, s.bits() ) );
         ctx.say( show( root, false ) );
         ctx.hash = pbt::hash64( show( root ) );
         ctx.label( "core API" );
      }
      void write( const std::string &path ) const { core ? core->write( path ) : high->write( path ); }
   };

   // ------------------------------------------------------------------- C20

   // "" if the bytes cannot be opened; otherwise what they present
   std::string present( Ctx &ctx, const std::string &bytes, e57::ReadChecksumPolicy policy, bool disk )
   {
      try
      {
         if ( disk )
         {
            const std::string p = ctx.dir + "/left.e57";
            spew( p, bytes );
            e57::ImageFile imf( p, "r", policy );
            const std::string t = traceOf( imf );
            return t;
         }
         std::vector<char> v( bytes.begin(), bytes.end() );
         e57::ImageFile imf( v.data(), v.size(), policy );
         return traceOf( imf );
      }
      catch ( const e57::E57Exception & )
      {
         return "";
      }
   }

   struct Snaps
   {
      std::string path;
      std::vector<std::pair<uint64_t, std::string>> at; // distinct states of the file
      static void see( uint64_t i, fio::Op op, void *a )
      {
         if ( op == fio::OpSeek || op == fio::OpRead || op == fio::OpOpen )
            return; // (state is seen before the next operation that changes something)
         auto *me = static_cast<Snaps *>( a );
         std::string b = slurp( me->path );
         if ( me->at.empty() || me->at.back().second != b )
            me->at.emplace_back( i, std::move( b ) );
      }
   };

   void c20( Ctx &ctx )
   {
      Src &s = ctx.s;
      const bool large = s.chance( 1, 15 );
      const std::string path = ctx.dir + "/a.e57";
      const Job job( ctx, 7, large ? 60000 : 6000, large ? 40000 : 4000 );

      std::string old; // what an earlier complete file of that name presents
      if ( s.flip() )
      {
         const MN before = someTree( s, 5, 3000, 2000 );
         try
         {
            writeFile( path, before );
         }
         catch ( const e57::E57Exception &e )
         {
            fail( "writing: " + what( e ) );
         }
         old = slurp( path );
      }
      Snaps snaps;
      snaps.path = path;
      fio::Plan plan;
      plan.observer = &Snaps::see;
      plan.arg = &snaps;
      fio::start( plan );
      try
      {
         job.write( path );
         fio::stop();
      }
      catch ( const e57::E57Exception &e )
      {
         fio::stop();
         fail( "writing: " + what( e ) );
      }
      const std::string whole = slurp( path );
      const std::string full = present( ctx, whole, e57::ChecksumAll, false );
      if ( full.empty() )
         fail( "the finished file cannot be opened" );
      if ( snaps.at.empty() || snaps.at.back().second != whole )
         snaps.at.emplace_back( UINT64_MAX, whole );

      const auto check = [&]( const std::string &bytes, const std::string &how, bool cut ) {
         if ( bytes == whole )
            return;
         const e57::ReadChecksumPolicy policy = s.chance( 1, 3 ) ? e57::ChecksumNone : e57::ChecksumAll;
         const std::string got = present( ctx, bytes, policy, s.chance( 1, 6 ) );
         ++ctx.evals;
         if ( got.empty() )
            return;
         if ( cut || got != full )
            fail( how + sprintf_( ": %zu of %zu bytes are accepted as a complete file (policy %d)%s%s", bytes.size(), whole.size(),
                                  policy, cut ? "" : "; ", cut ? "" : firstDifference( full, got ).c_str() ) );
      };

      // stop between any two operations, or within one
      const size_t n = snaps.at.size(), limit = ctx.thorough ? 600 : 150;
      for ( size_t k = 0; k < std::min( n, limit ); ++k )
      {
         // all states, or the last ones and a sample of the others
         const size_t i = n <= limit || k < 20 ? n - 1 - k : s.below( n );
         const std::string &a = snaps.at[i].second;
         check( a, sprintf_( "writing stopped before operation %llu", (unsigned long long)snaps.at[i].first ), false );
         if ( i + 1 < n )
         {
            // the bytes that changed reach the disk only partly
            const std::string &b = snaps.at[i + 1].second;
            size_t from = 0;
            while ( from < a.size() && from < b.size() && a[from] == b[from] )
               ++from;
            from -= from % 1024;
            const size_t len = std::min<size_t>( 1024, b.size() - from );
            const size_t keep = s.chance( 1, 2 ) ? s.below( std::min<size_t>( len, 60 ) ) : s.below( len );
            std::string torn = a;
            if ( torn.size() < from + keep )
               torn.resize( from + keep );
            torn.replace( from, keep, b, from, keep );
            check( torn, sprintf_( "writing stopped within the operation before %llu after %zu bytes",
                                   (unsigned long long)snaps.at[i + 1].first, keep ),
                   false );
         }
      }
      // cut
      const size_t pages = whole.size() / 1024;
      for ( size_t k = 0; k < std::min<size_t>( pages, 40 ); ++k )
         check( whole.substr( 0, ( pages <= 40 ? k : s.below( pages ) ) * 1024 ), "cut at a page", true );
      for ( int k = 0; k < 10; ++k )
         check( whole.substr( 0, s.chance( 1, 3 ) ? whole.size() - 1 - s.below( std::min<size_t>( whole.size(), 8 ) ) : s.below( whole.size() ) ),
                "cut", true );

      // a file of another writer, where the XML can lie before the data
      if ( s.chance( 1, 3 ) )
      {
         indep::Layout l;
         l.shuffle = true;
         l.gaps = s.flip();
         const std::string other = indep::encode( s, someTree( s, 5, 3000, 4000 ), {}, l ).physical;
         for ( int k = 0; k < 12; ++k )
         {
            const size_t keep = k < 8 ? ( other.size() / 1024 - std::min<size_t>( other.size() / 1024, 1 + s.below( k < 4 ? 2 : 20 ) ) ) * 1024
                                      : s.below( other.size() );
            const e57::ReadChecksumPolicy policy = s.flip() ? e57::ChecksumNone : e57::ChecksumAll;
            ++ctx.evals;
            if ( !present( ctx, other.substr( 0, keep ), policy, s.chance( 1, 6 ) ).empty() )
               fail( sprintf_( "file of another writer cut: %zu of %zu bytes are accepted as a complete file (policy %d)", keep, other.size(),
                               policy ) );
         }
         ctx.label( "other writer's file" );
      }

      ctx.nontrivial = n > 3;
      ctx.label( n > 100 ? "states>100" : n > 30 ? "states 31-100" : "states<=30" );
      ctx.label( old.empty() ? "new file" : "over an older file" );
   }

   // ------------------------------------------------------------------- C21

   struct Outcome
   {
      bool reported = false;
      std::string err, out;
      std::vector<fio::Op> trace;
      bool fired = false;
      fio::Op op = fio::OpOpen;
   };

   // goOn: what follows an error; with the high-level API also: the writer is left to close the file
   Outcome writing( const Job &job, const std::string &path, fio::Plan plan, bool goOn )
   {
      Outcome o;
      fio::start( plan );
      if ( job.high )
      {
         try
         {
            e57::Writer w( path, job.high->opt );
            job.high->build( w );
            if ( goOn )
               o.reported = true; // (it could not be)
            else
               w.Close();
         }
         catch ( const e57::E57Exception &e )
         {
            o.reported = true;
            o.err = what( e );
         }
         const fio::Plan p = fio::stop();
         o.trace = p.trace;
         o.fired = p.fired;
         o.op = p.firedOp;
         return o;
      }
      try
      {
         e57::ImageFile imf( path, "w" );
         try
         {
            job.core->build( imf );
            imf.close();
         }
         catch ( const e57::E57Exception &e )
         {
            o.reported = true;
            o.err = what( e );
            if ( goOn )
            {
               // nothing is promised, but the library must survive it
               try
               {
                  imf.close();
               }
               catch ( const e57::E57Exception & )
               {
                  try
                  {
                     imf.cancel();
                  }
                  catch ( const e57::E57Exception & )
                  {
                  }
               }
            }
         }
      }
      catch ( const e57::E57Exception &e )
      {
         o.reported = true;
         o.err = what( e );
      }
      const fio::Plan p = fio::stop();
      o.trace = p.trace;
      o.fired = p.fired;
      o.op = p.firedOp;
      return o;
   }

   Outcome reading( const std::string &path, fio::Plan plan, e57::ReadChecksumPolicy policy, bool high )
   {
      Outcome o;
      fio::start( plan );
      try
      {
         if ( high )
         {
            size_t errors = 0;
            e57::ReaderOptions opt;
            opt.checksumPolicy = policy;
            e57::Reader r( path, opt );
            o.out = dumpHigh<double>( r, errors );
            o.reported = errors > 0;
            if ( plan.at % 2 )
               r.Close();
         }
         else
         {
         e57::ImageFile imf( path, "r", policy );
         size_t errors = 0;
         o.out = traceOf( imf, &errors );
         o.reported = errors > 0;
         imf.close();
         }
      }
      catch ( const e57::E57Exception &e )
      {
         o.reported = true;
         o.err = what( e );
      }
      const fio::Plan p = fio::stop();
      o.trace = p.trace;
      o.fired = p.fired;
      o.op = p.firedOp;
      return o;
   }

   // a disturbance of one of the operations seen in an undisturbed run
   fio::Plan drawFault( Src &s, const std::vector<fio::Op> &trace )
   {
      std::vector<std::vector<uint64_t>> by( fio::OpCount );
      for ( size_t i = 0; i < trace.size(); ++i )
         by[trace[i]].push_back( i );
      by[fio::OpRemove].clear();
      std::vector<size_t> kinds;
      for ( size_t k = 0; k < by.size(); ++k )
         if ( !by[k].empty() )
            kinds.push_back( k );
      fio::Plan p;
      if ( kinds.empty() )
         return p;
      // mostly transfers
      size_t kind = kinds[s.below( kinds.size() )];
      if ( s.flip() && !by[fio::OpWrite].empty() )
         kind = fio::OpWrite;
      const auto &v = by[kind];
      const uint64_t from = s.chance( 1, 3 ) ? v.size() - std::min<size_t>( v.size(), 6 ) : 0; // often among the last
      p.at = v[from + s.below( v.size() - from )];
      p.kind = fio::Fail;
      static const int errs[] = { 5, 28, 4, 9, 27, 122 }; // EIO ENOSPC EINTR EBADF EFBIG EDQUOT
      p.err = errs[s.below( 6 )];
      if ( ( kind == fio::OpRead || kind == fio::OpWrite ) && s.chance( 2, 3 ) )
      {
         p.kind = fio::Short;
         p.amount = s.chance( 1, 3 ) ? 1023 : s.chance( 1, 3 ) ? 1020 : s.below( 1024 );
      }
      p.sticky = s.chance( 1, 3 );
      return p;
   }
   std::string showFault( const fio::Plan &p, const std::vector<fio::Op> &t )
   {
      return sprintf_( "operation %llu of %zu (%s) %s%s", (unsigned long long)p.at, t.size(), fio::opName( t[p.at] ),
                       p.kind == fio::Short ? sprintf_( "transfers %llu bytes", (unsigned long long)p.amount ).c_str()
                                            : sprintf_( "fails with %d", p.err ).c_str(),
                       p.sticky ? " and all later ones of its type" : "" );
   }

   void c21( Ctx &ctx )
   {
      Src &s = ctx.s;
      const bool large = s.chance( 1, 15 );
      const std::string path = ctx.dir + "/a.e57";
      const Job job( ctx, 6, large ? 60000 : 5000, large ? 40000 : 3000 );
      fio::Plan look;
      look.keepTrace = true;
      const Outcome dry = writing( job, path, look, false );
      if ( dry.reported )
         fail( "writing: " + dry.err );
      const std::string whole = slurp( path );
      unsigned fired = 0, quiet = 0;
      const int rounds = ctx.thorough ? 24 : 12;
      for ( int k = 0; k < rounds; ++k )
      {
         const fio::Plan p = drawFault( s, dry.trace );
         const bool over = s.chance( 1, 3 );
         if ( !over )
            ::unlink( path.c_str() );
         const Outcome o = writing( job, path, p, s.flip() );
         ++ctx.evals;
         fired += o.fired;
         if ( o.reported || !o.fired )
            continue;
         ++quiet;
         const std::string how = "writing reports success although " + showFault( p, dry.trace );
         if ( slurp( path ) == whole )
            continue;
         try
         {
            const indep::Decoded d = indep::decode( slurp( path ) );
            const std::string df = diff( job.core ? job.root : indep::decode( whole ).root, d.root );
            if ( !df.empty() )
               fail( how + "; the file differs: " + df );
         }
         catch ( const indep::Bad &b )
         {
            fail( how + "; the file is bad: " + b.what() );
         }
      }
      spew( path, whole );
      const e57::ReadChecksumPolicy policy = s.chance( 1, 3 ) ? 0 : 100;
      const Outcome r = reading( path, look, policy, !!job.high );
      if ( r.reported )
         fail( "reading: " + r.err );
      for ( int k = 0; k < rounds / 2; ++k )
      {
         const fio::Plan p = drawFault( s, r.trace );
         const Outcome o = reading( path, p, policy, !!job.high );
         ++ctx.evals;
         fired += o.fired;
         if ( !o.reported && o.out != r.out )
            fail( "reading reports success although " + showFault( p, r.trace ) + "; " + firstDifference( r.out, o.out ) );
         quiet += !o.reported && o.fired;
         if ( s.chance( 1, 6 ) )
         {
            const Outcome again = reading( path, look, policy, !!job.high );
            if ( again.reported || again.out != r.out )
               fail( "after " + showFault( p, r.trace ) + " another reading of the file fails: " + again.err );
         }
      }
      if ( slurp( path ) != whole )
         fail( "reading changed the file" );
      ctx.nontrivial = fired > 0;
      ctx.label( quiet ? "some faults unreported and harmless" : "all faults reported" );
      ctx.label( dry.trace.size() > 1000 ? "operations>1000" : "operations<=1000" );
   }

   // ------------------------------------------------------------------- C22

   struct World
   {
      Ctx &ctx;
      Src &s;
      struct Handle
      {
         std::vector<e57::ImageFile> copies;
         bool write = false, open = true;
         size_t path = 0;
         MN root;
         std::string trace; // reading: what it presents
         std::vector<e57::Node> nodes;
         std::vector<std::pair<std::shared_ptr<Buf>, e57::CompressedVectorWriter>> writers; // left open
      };
      std::vector<std::string> paths;
      std::map<size_t, std::string> content;   // finished files
      std::map<size_t, std::string> presented; // their traces
      std::set<size_t> writing;                // paths an open writer owns
      std::vector<std::unique_ptr<Handle>> handles;
      unsigned closed = 0, cancelled = 0, dropped = 0, reads = 0;

      std::string said;

      World( Ctx &c ) : ctx( c ), s( c.s ) {}

      void say( const std::string &t )
      {
         said = t;
         ctx.say( t + "; " );
      }

      void verify( const std::string &after )
      {
         for ( size_t i = 0; i < paths.size(); ++i )
         {
            if ( writing.count( i ) )
               continue;
            const bool have = content.count( i );
            if ( exists( paths[i] ) != have )
               fail( "after " + after + ": file " + std::to_string( i ) + ( have ? " is gone" : " exists" ) );
            if ( have && slurp( paths[i] ) != content[i] )
               fail( "after " + after + ": file " + std::to_string( i ) + " has changed" );
         }
      }
      bool inUse( size_t p ) const
      {
         for ( auto &h : handles )
            if ( h->path == p && ( h->open || h->write ) )
               return true;
         return false;
      }
      void finish( Handle &h )
      {
         // the file must be there with its full content
         const std::string &p = paths[h.path];
         writing.erase( h.path );
         if ( !exists( p ) )
            fail( "after close: the file does not exist" );
         content[h.path] = slurp( p );
         try
         {
            const indep::Decoded d = indep::decode( content[h.path] );
            const std::string df = diff( h.root, d.root );
            if ( !df.empty() )
               fail( "after close: the file differs: " + df );
         }
         catch ( const indep::Bad &b )
         {
            fail( std::string( "after close: the file is bad: " ) + b.what() );
         }
         e57::ImageFile imf( p, "r" );
         presented[h.path] = traceOf( imf );
      }
      void discard( Handle &h )
      {
         writing.erase( h.path );
         content.erase( h.path );
         presented.erase( h.path );
      }
      void openWrite( size_t p )
      {
         std::unique_ptr<Handle> h( new Handle );
         h->write = true;
         h->path = p;
         h->root.t = T::Struct;
         h->copies.emplace_back( paths[p], "w" );
         writing.insert( p );
         content.erase( p );
         presented.erase( p );
         if ( !exists( paths[p] ) )
            ctx.label( "file appears only later" );
         handles.push_back( std::move( h ) );
      }
      void openRead( size_t p )
      {
         std::unique_ptr<Handle> h( new Handle );
         h->path = p;
         if ( !content.count( p ) )
         {
            try
            {
               h->copies.emplace_back( paths[p], "r" );
            }
            catch ( const e57::E57Exception & )
            {
               return;
            }
            fail( writing.count( p ) ? "an unfinished file could be opened" : "a missing file could be opened" );
         }
         h->copies.emplace_back( paths[p], "r", s.flip() ? 100 : 0 );
         h->trace = presented[p];
         handles.push_back( std::move( h ) );
      }
      void step()
      {
         const size_t p = s.below( paths.size() );
         const uint64_t what = s.below( handles.empty() ? 3 : 14 );
         try
         {
            if ( what == 0 )
            {
               if ( inUse( p ) )
                  return;
               say( sprintf_( "open %zu for writing", p ) );
               openWrite( p );
               return verify( "opening for writing" );
            }
            if ( what == 1 )
            {
               say( sprintf_( "open %zu for reading", p ) );
               openRead( p );
               return verify( "opening for reading" );
            }
            if ( what == 2 )
            {
               static const char *modes[] = { "", "a", "rw", "r+", "w+", "W", "R", "wb", "rb", " w" };
               const char *m = modes[s.below( 10 )];
               say( sprintf_( "open %zu in mode '%s'", p, m ) );
               if ( writing.count( p ) )
                  return;
               try
               {
                  e57::ImageFile imf( paths[p], m );
               }
               catch ( const e57::E57Exception & )
               {
                  return verify( "opening in a mode that does not exist" );
               }
               fail( sprintf_( "mode '%s' is accepted", m ) );
            }
            Handle &h = *handles[s.below( handles.size() )];
            const char *kind = h.write ? "writing" : "reading";
            e57::ImageFile &imf = h.copies[s.below( h.copies.size() )];
            switch ( what )
            {
               case 3:
               case 4:
                  if ( !h.writers.empty() && h.open )
                     break; // (not specified while a writer is open)
                  say( sprintf_( "close %zu (%s)", h.path, kind ) );
                  imf.close();
                  if ( h.open && h.write )
                  {
                     finish( h );
                     ++closed;
                  }
                  h.open = false;
                  break;
               case 5:
                  say( sprintf_( "cancel %zu (%s)", h.path, kind ) );
                  imf.cancel();
                  if ( h.open && h.write )
                  {
                     discard( h );
                     ++cancelled;
                  }
                  h.open = false;
                  break;
               case 6:
               case 7:
               {
                  say( sprintf_( "drop a handle of %zu (%s)", h.path, kind ) );
                  h.nodes.clear();
                  if ( h.copies.size() == 1 && s.flip() )
                     h.writers.clear(); // (before the file, otherwise after it)
                  h.copies.erase( h.copies.begin() + static_cast<long>( &imf - h.copies.data() ) );
                  if ( h.copies.empty() )
                  {
                     if ( h.open && h.write )
                     {
                        discard( h );
                        ++dropped;
                     }
                     for ( size_t i = 0; i < handles.size(); ++i )
                        if ( handles[i].get() == &h )
                        {
                           handles.erase( handles.begin() + static_cast<long>( i ) );
                           break;
                        }
                  }
                  break;
               }
               case 8:
                  h.copies.push_back( s.flip() || !h.open ? imf : imf.root().destImageFile() );
                  break;
               default:
                  if ( !h.open )
                     break;
                  if ( h.write && h.writers.empty() && s.chance( 1, 10 ) )
                  {
                     // a writer that is never closed: only cancelling and dropping remain
                     say( sprintf_( "leave a writer open in %zu", h.path ) );
                     e57::StructureNode proto( imf );
                     proto.set( "v", e57::FloatNode( imf, 0. ) );
                     e57::CompressedVectorNode cv( imf, proto, e57::VectorNode( imf, true ) );
                     imf.root().set( "unfinished", cv );
                     std::shared_ptr<Buf> b( new Buf( F64, 2000, false, false ) );
                     std::vector<e57::SourceDestBuffer> v{ b->sdb( imf, "v" ) };
                     h.writers.emplace_back( b, cv.writer( v ) );
                     for ( uint64_t i = s.below( 12 ); i > 0; --i )
                        h.writers.back().second.write( 2000 );
                  }
                  else if ( h.write && h.writers.empty() && h.root.kids.size() < 6 )
                  {
                     // one more element
                     MN t = someTree( s, 2, 3000, 3000 );
                     if ( t.kids.empty() )
                        break;
                     MN k = t.kids[s.below( t.kids.size() )];
                     k.name = sprintf_( "k%zu", h.root.kids.size() );
                     say( sprintf_( "build in %zu", h.path ) );
                     const e57::Node n = buildNode( imf, k );
                     imf.root().set( k.name, n );
                     writeContent( n, k );
                     h.root.kids.push_back( k );
                     if ( s.flip() )
                        h.nodes.push_back( n );
                  }
                  else if ( !h.write )
                  {
                     say( sprintf_( "read %zu", h.path ) );
                     ++reads;
                     const std::string t = traceOf( imf );
                     if ( t != h.trace )
                        fail( "reading gives other content: " + firstDifference( h.trace, t ) );
                  }
                  break;
            }
            verify( said );
         }
         catch ( const e57::E57Exception &e )
         {
            fail( "unexpected exception: " + VARIANT::what( e ) );
         }
      }
   };

   void c22( Ctx &ctx )
   {
      Src &s = ctx.s;
      World w( ctx );
      static const char *names[] = { "a.e57", "with space.e57", "gr\xc3\xb6\xc3\x9f" "e.e57", "noext", "b.e57.e57", "c.xml" };
      const size_t n = 1 + s.below( 3 );
      for ( size_t i = 0; i < n; ++i )
         w.paths.push_back( ctx.dir + "/" + names[( s.below( 2 ) * 3 + i ) % 6] + std::to_string( i ) );
      // some file may be there before and be no E57 file at all
      if ( s.chance( 1, 4 ) )
      {
         spew( w.paths[0], "something else" );
         w.content[0] = "something else";
         w.presented[0] = "";
         try
         {
            e57::ImageFile imf( w.paths[0], "r" );
            fail( "a file that is no E57 file could be opened" );
         }
         catch ( const e57::E57Exception & )
         {
         }
         w.verify( "opening a foreign file" );
         w.openWrite( 0 );
      }
      const unsigned steps = 4 + static_cast<unsigned>( s.below( 30 ) );
      for ( unsigned i = 0; i < steps; ++i )
         w.step();
      // everything left is dropped
      while ( !w.handles.empty() )
      {
         World::Handle &h = *w.handles.back();
         if ( h.open && h.write )
         {
            w.discard( h );
            ++w.dropped;
         }
         if ( s.flip() )
         {
            // the elements go last
            std::vector<e57::Node> keep = h.nodes;
            auto writers = std::move( h.writers );
            w.handles.pop_back();
         }
         else
            w.handles.pop_back();
         w.verify( "dropping" );
      }
      ctx.hash = pbt::hash64( std::to_string( s.bits() ) );
      ctx.nontrivial = w.closed + w.cancelled + w.dropped > 0;
      if ( w.closed )
         ctx.label( "closed" );
      if ( w.cancelled )
         ctx.label( "cancelled" );
      if ( w.dropped )
         ctx.label( "dropped" );
      if ( w.reads )
         ctx.label( "read" );
   }

   pbt::Reg r20( { "C20", c20, 6000, 20000, "exploration",
                   "non-trivial: the session leaves more than three different states of the file on disk",
                   { "files up to about 100 KB; stops within an operation are modelled as a partly transferred page" } } );
   pbt::Reg r21( { "C21", c21, 2400, 20000, "exploration",
                   "non-trivial: a fault took effect during the session",
                   { "file operations are those of the C library called by the library (open, read, write, pread, pwrite, lseek, ftruncate, close)" } } );
   pbt::Reg r22( { "C22", c22, 18000, 60000, "exploration",
                   "non-trivial: a file opened for writing was closed, cancelled or dropped",
                   { "readers and writers of records are closed before the file is" } } );
}
