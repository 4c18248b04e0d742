// Damaged pages (C16), checksum policies (C17) and memory against disk (C23).
#include "indep.hpp"
#include "trace.hpp"

#include <fstream>
#include <iterator>
#include <set>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::Prng;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   std::string slurp( const std::string &path )
   {
      std::ifstream f( path, std::ios::binary );
      return std::string( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() );
   }
   void spew( const std::string &path, const std::string &b )
   {
      std::ofstream f( path, std::ios::binary | std::ios::trunc );
      f.write( b.data(), static_cast<std::streamsize>( b.size() ) );
   }

   MN smallTree( Src &s, uint64_t recBytes, size_t blobBytes )
   {
      TreeOpts o;
      o.maxNodes = 8;
      o.maxDepth = 3;
      o.maxRecBytes = recBytes;
      o.maxBlob = blobBytes;
      MN root = genTree( s, o );
      if ( s.chance( 3, 4 ) )
      {
         MN cv = genCV( s, o );
         cv.name = "zzrec";
         root.kids.push_back( std::move( cv ) );
      }
      if ( s.chance( 3, 4 ) )
      {
         MN b;
         b.t = T::Blob;
         b.name = "zzblob";
         Prng r( s.bits() );
         b.s.resize( s.below( blobBytes + 1 ) );
         for ( auto &c : b.s )
            c = static_cast<char>( r.next() );
         root.kids.push_back( std::move( b ) );
      }
      if ( s.chance( 1, 12 ) )
      {
         // XML of many pages
         MN t;
         t.t = T::Str;
         t.name = "zztext";
         t.s.assign( s.below( 120000 ), 'a' );
         for ( size_t i = 0; i < t.s.size(); ++i )
            t.s[i] = static_cast<char>( 'a' + i / 7 % 26 );
         root.kids.push_back( std::move( t ) );
      }
      return root;
   }

   // a file with this content, by the library or by the independent encoder
   std::string makeFile( Ctx &ctx, const MN &root, const std::string &path )
   {
      Src &s = ctx.s;
      if ( s.flip() )
      {
         try
         {
            writeFile( path, root );
         }
         catch ( const e57::E57Exception &e )
         {
            fail( "writing: " + what( e ) );
         }
         ctx.say( "written by the library; " );
         return slurp( path );
      }
      indep::Layout l;
      l.shuffle = s.flip();
      l.gaps = s.flip();
      l.packets = s.flip();
      ctx.say( sprintf_( "encoded independently (shuffled %d gaps %d packets %d); ", l.shuffle, l.gaps, l.packets ) );
      return indep::encode( s, root, {}, l ).physical;
   }

   std::set<uint64_t> badPages( const std::string &f )
   {
      std::set<uint64_t> r;
      for ( size_t p = 0; p < f.size() / 1024; ++p )
      {
         const uint32_t c = indep::crc32c( &f[p * 1024], 1020 );
         const uint8_t *q = reinterpret_cast<const uint8_t *>( &f[p * 1024 + 1020] );
         if ( c != ( ( uint32_t( q[0] ) << 24 ) | ( uint32_t( q[1] ) << 16 ) | ( uint32_t( q[2] ) << 8 ) | q[3] ) )
            r.insert( p );
      }
      return r;
   }
   bool touches( const std::set<uint64_t> &bad, uint64_t logicalStart, uint64_t length )
   {
      if ( !length )
         return false;
      auto it = bad.lower_bound( logicalStart / 1020 );
      return it != bad.end() && *it <= ( logicalStart + length - 1 ) / 1020;
   }

   // ------------------------------------------------------------------- C16

   struct Reading
   {
      const indep::Decoded &d;
      const std::set<uint64_t> &bad;
      Src &s;
      size_t refused = 0, delivered = 0;

      const indep::Section *section( const std::string &path ) const
      {
         for ( auto &x : d.sections )
            if ( x.what == path )
               return &x;
         return nullptr;
      }

      void node( const e57::Node &n, const MN &m, const std::string &path )
      {
         if ( m.t == T::Struct || m.t == T::Vec )
         {
            for ( size_t i = 0; i < m.kids.size(); ++i )
               node( m.t == T::Struct ? e57::StructureNode( n ).get( static_cast<int64_t>( i ) ) : e57::VectorNode( n ).get( static_cast<int64_t>( i ) ),
                     m.kids[i], path + "/" + ( m.t == T::Vec ? std::to_string( i ) : m.kids[i].name ) );
            return;
         }
         if ( m.t == T::Blob )
            blob( e57::BlobNode( n ), m, path );
         if ( m.t == T::CV )
            records( e57::CompressedVectorNode( n ), m, path );
      }

      void blob( e57::BlobNode b, const MN &m, const std::string &path )
      {
         const indep::Section *sec = section( path );
         for ( int k = 0; k < 6; ++k )
         {
            const uint64_t start = k == 0 ? 0 : s.below( m.s.size() + 1 );
            const uint64_t count = k == 0 ? m.s.size() : s.below( m.s.size() - start + 1 );
            if ( !count )
               continue;
            std::vector<uint8_t> buf( count, 0x5A );
            bool err = false;
            try
            {
               b.read( buf.data(), static_cast<int64_t>( start ), count );
            }
            catch ( const e57::E57Exception & )
            {
               err = true;
            }
            const bool hit = touches( bad, sec->start + 16 + start, count );
            if ( hit && !err )
               fail( path + sprintf_( ": reading %llu bytes at %llu succeeded although a page of them is damaged", (unsigned long long)count,
                                      (unsigned long long)start ) );
            if ( err && !hit && !touches( bad, sec->start, 16 ) )
               fail( path + ": reading intact bytes of a blob fails" );
            if ( !err && memcmp( buf.data(), m.s.data() + start, count ) != 0 )
               fail( path + ": other bytes delivered than were stored" );
            ( err ? refused : delivered )++;
         }
      }

      void records( e57::CompressedVectorNode cv, const MN &m, const std::string &path )
      {
         const indep::Section *sec = section( path );
         const auto all = leavesOf( m.proto[0] );
         if ( all.empty() )
            return;
         // some or all fields
         std::vector<size_t> use;
         for ( size_t i = 0; i < all.size(); ++i )
            if ( s.chance( 4, 5 ) )
               use.push_back( i );
         if ( use.empty() )
            use.push_back( s.below( all.size() ) );
         const uint64_t chunk = s.pick<uint64_t>( { 1, 5, 64, 1000, 100000 } );
         std::vector<std::unique_ptr<Buf>> bufs;
         std::vector<e57::SourceDestBuffer> db;
         for ( size_t f : use )
         {
            bufs.emplace_back( new Buf( widest( *all[f].n ), std::min<uint64_t>( chunk, m.nrec + 1 ), false, false ) );
            db.push_back( bufs.back()->sdb( cv.destImageFile(), all[f].path ) );
         }
         uint64_t got = 0;
         bool err = false, ended = false;
         const bool hit = [&] {
            if ( touches( bad, sec->start, 32 ) )
               return true;
            // packets with bytes of the fields asked for
            const auto st = indep::streams( m );
            std::vector<uint64_t> pos( st.size(), 0 );
            for ( auto &p : d.packets )
            {
               if ( p.start < sec->start || p.start >= sec->start + sec->length || p.type != 1 )
                  continue;
               uint64_t at = p.start + 6 + 2 * p.streams.size();
               for ( size_t f = 0; f < p.streams.size(); ++f )
               {
                  const uint64_t left = st[f].size() - std::min<uint64_t>( st[f].size(), pos[f] );
                  const uint64_t n = std::min<uint64_t>( left, p.streams[f] );
                  const bool asked = std::find( use.begin(), use.end(), f ) != use.end();
                  if ( asked && n && ( touches( bad, p.start, 6 + 2 * p.streams.size() ) || touches( bad, at, n ) ) )
                     return true;
                  pos[f] += p.streams[f];
                  at += p.streams[f];
               }
            }
            return false;
         }();
         try
         {
            e57::CompressedVectorReader r = cv.reader( db );
            while ( !ended )
            {
               unsigned n = 0;
               try
               {
                  n = r.read();
               }
               catch ( const e57::E57Exception & )
               {
                  err = true;
                  break; // the documentation leaves the reader in no defined state
               }
               if ( n == 0 )
               {
                  ended = true;
                  break;
               }
               if ( got + n > m.nrec )
                  fail( path + ": more records delivered than stored" );
               for ( size_t k = 0; k < use.size(); ++k )
               {
                  const MN &leaf = *all[use[k]].n;
                  Col c;
                  store( *bufs[k], leaf, c, n );
                  for ( unsigned i = 0; i < n; ++i )
                  {
                     const Col &w = m.cols[use[k]];
                     const bool same = leaf.t == T::Str   ? c.s[i] == w.s[got + i]
                                       : leaf.t == T::Flt ? sameNum( c.d[i], w.d[got + i] )
                                                          : c.i[i] == w.i[got + i];
                     if ( !same )
                        fail( path + sprintf_( ": record %llu of field %s is not the one stored", (unsigned long long)( got + i ),
                                               all[use[k]].path.c_str() ) );
                  }
               }
               got += n;
            }
         }
         catch ( const e57::E57Exception & )
         {
            err = true;
         }
         if ( ended && !err && got != m.nrec )
            fail( path + sprintf_( ": the reader ended after %llu of %llu records without an error", (unsigned long long)got, (unsigned long long)m.nrec ) );
         if ( ended && !err && hit && m.nrec )
            fail( path + ": all records delivered without an error although a page with a needed packet is damaged" );
         if ( err && !touches( bad, sec->start, sec->length ) )
            fail( path + ": reading records of intact pages fails" );
         ( err ? refused : delivered )++;
      }
   };

   void c16( Ctx &ctx )
   {
      Src &s = ctx.s;
      const MN root = smallTree( s, s.chance( 1, 4 ) ? 60000 : 4000, s.pick<size_t>( { 5000, 5000, 5000, 5000, 5000, 5000, 40000, 40000, 300000 } ) );
      const std::string path = ctx.dir + "/a.e57";
      const std::string good = makeFile( ctx, root, path );
      const indep::Decoded d = indep::decode( good );
      const size_t pages = good.size() / 1024;
      size_t refused = 0, delivered = 0;
      ctx.say( sprintf_( "%zu pages; ", pages ) );
      const unsigned rounds = ctx.thorough ? 12 : 6;
      for ( unsigned round = 0; round < rounds; ++round )
      {
         std::string f = good;
         const unsigned n = s.chance( 2, 3 ) ? 1 : 1 + static_cast<unsigned>( s.below( 6 ) );
         // mostly pages that opening does not need
         for ( unsigned k = 0; k < n; ++k )
         {
            uint64_t page = s.below( pages );
            if ( s.chance( 2, 3 ) && d.sections.size() > 2 )
            {
               const auto &sec = d.sections[1 + s.below( d.sections.size() - 1 )];
               page = ( sec.start + s.below( std::max<uint64_t>( 1, sec.length ) ) ) / 1020;
            }
            const uint64_t at = page * 1024 + ( s.chance( 1, 5 ) ? 1020 + s.below( 4 ) : s.below( 1024 ) );
            switch ( s.below( 4 ) )
            {
               case 0: // one bit
                  f[at] = static_cast<char>( f[at] ^ ( 1 << s.below( 8 ) ) );
                  break;
               case 1: // one byte
                  f[at] = static_cast<char>( f[at] ^ ( 1 + s.below( 255 ) ) );
                  break;
               case 2: // a run of bytes within the page
               {
                  Prng r( s.bits() );
                  const uint64_t end = std::min<uint64_t>( ( page + 1 ) * 1024, at + 1 + s.below( 300 ) );
                  for ( uint64_t i = at; i < end; ++i )
                     f[i] = static_cast<char>( r.next() );
                  break;
               }
               default: // another page in its place, or zeros
               {
                  const uint64_t other = s.below( pages );
                  if ( s.flip() )
                     std::fill( f.begin() + static_cast<long>( page * 1024 ), f.begin() + static_cast<long>( page * 1024 + 1024 ), s.flip() ? '\0' : '\xff' );
                  else
                     f.replace( page * 1024, 1020, good, other * 1024, 1020 );
                  break;
               }
            }
         }
         const auto bad = badPages( f );
         std::string list;
         for ( auto p : bad )
            list += " " + std::to_string( p );
         ctx.say( "bad pages" + list + "; " );
         // alterations that leave a page with a right checksum but other content are
         // outside the promise (a page moved with its checksum is not generated)
         bool escaped = false;
         for ( size_t p = 0; p < pages; ++p )
            escaped = escaped || ( !bad.count( p ) && f.compare( p * 1024, 1024, good, p * 1024, 1024 ) != 0 );
         if ( escaped )
            continue;
         ctx.evals++;
         spew( path, f );
         const bool needed = touches( bad, 0, 48 ) || touches( bad, d.xmlStart, d.xmlLength );
         const bool memory = s.chance( 1, 4 );
         try
         {
            e57::ImageFile imf = memory ? e57::ImageFile( f.data(), f.size() ) : e57::ImageFile( path, "r" );
            if ( needed )
               fail( "opened although the pages of header or XML are damaged" );
            ReadOpts ro;
            ro.content = false;
            MN got = readNode( imf.root(), ro, true );
            Reading rd{ d, bad, s };
            rd.node( imf.root(), root, "" );
            refused += rd.refused;
            delivered += rd.delivered;
            imf.close();
         }
         catch ( const e57::E57Exception &e )
         {
            if ( !needed )
               fail( "opening fails although header and XML are intact: " + what( e ) );
            ++refused;
         }
      }
      ctx.nontrivial = refused > 0;
      ctx.label( delivered ? "partly readable" : "nothing readable" );
      ctx.label( refused ? "refused" : "nothing refused" );
   }

   // ------------------------------------------------------------------- C17

   void c17( Ctx &ctx )
   {
      Src &s = ctx.s;
      MN root = smallTree( s, 5000, 5000 );
      // one blob that covers many pages shows the share that is verified
      const bool shares = s.chance( 1, 3 );
      if ( shares )
      {
         MN b;
         b.t = T::Blob;
         b.name = "zzzshare";
         Prng r( s.bits() );
         b.s.resize( 1020 * ( 60 + s.below( 80 ) ) );
         for ( auto &c : b.s )
            c = static_cast<char>( r.next() );
         root.kids.push_back( std::move( b ) );
      }
      const std::string path = ctx.dir + "/a.e57";
      const std::string good = makeFile( ctx, root, path );
      const indep::Decoded d = indep::decode( good );
      const size_t pages = good.size() / 1024;
      const auto drawPolicy = [&]() -> int {
         switch ( s.weighted( { 3, 4, 1, 2 } ) )
         {
            case 0:
               return s.pick( { 0, 25, 50, 100 } );
            case 1:
               return static_cast<int>( s.range( 1, 99 ) );
            case 2:
               return s.pick( { INT32_MIN, -1, -100, 101, 1000, INT32_MAX } );
            default:
               return s.pick( { 1, 2, 3, 33, 34, 66, 67, 99 } );
         }
      };
      const auto read = [&]( const std::string &f, int policy, std::string &res ) {
         ReadOpts ro;
         ro.chunk = s.pick<uint64_t>( { 3, 1000 } );
         ro.blobChunk = s.pick<uint64_t>( { 700, 5000, 1 << 20 } );
         try
         {
            e57::ImageFile imf = s.chance( 1, 3 ) ? e57::ImageFile( f.data(), f.size(), policy ) : ( spew( path, f ), e57::ImageFile( path, "r", policy ) );
            const MN got = readNode( imf.root(), ro, true );
            imf.close();
            res = diff( root, got );
            return true;
         }
         catch ( const e57::E57Exception &e )
         {
            res = what( e );
            return false;
         }
      };
      for ( int k = 0; k < 3; ++k )
      {
         const int p = drawPolicy();
         ctx.say( sprintf_( "policy %d; ", p ) );
         std::string r;
         ctx.evals++;
         if ( !read( good, p, r ) )
            fail( sprintf_( "policy %d refuses an intact file: ", p ) + r );
         if ( !r.empty() )
            fail( sprintf_( "policy %d delivers other content: ", p ) + r );
      }
      // verification off: wrong checksums do not matter
      {
         std::string f = good;
         Prng r( s.bits() );
         const unsigned den = static_cast<unsigned>( 1 + s.below( 4 ) );
         for ( size_t p = 0; p < pages; ++p )
            if ( r.below( den ) == 0 )
               f[p * 1024 + 1020 + r.below( 4 )] ^= static_cast<char>( 1 + r.below( 255 ) );
         const int p = s.pick( { 0, 0, -1, INT32_MIN } );
         std::string res;
         ctx.evals++;
         if ( !read( f, p, res ) )
            fail( sprintf_( "with policy %d a wrong checksum causes an error: ", p ) + res );
         if ( !res.empty() )
            fail( sprintf_( "policy %d delivers other content: ", p ) + res );
      }
      // the last page is always verified (when something on it is read)
      const uint64_t last = pages - 1;
      if ( ( d.xmlStart + d.xmlLength - 1 ) / 1020 == last )
      {
         std::string f = good;
         f[last * 1024 + 1020 + s.below( 4 )] ^= 0x10;
         const int p = static_cast<int>( s.range( 1, 120 ) );
         std::string res;
         ctx.evals++;
         if ( read( f, p, res ) )
            fail( sprintf_( "policy %d accepts a wrong checksum on the last page", p ) );
      }
      if ( shares )
      {
         const indep::Section *sec = nullptr;
         for ( auto &x : d.sections )
            if ( x.what == "/zzzshare" )
               sec = &x;
         const uint64_t first = ( sec->start + 16 ) / 1020 + 1, end = ( sec->start + sec->length ) / 1020 - 1;
         const int p = s.chance( 1, 2 ) ? s.pick( { 25, 50, 100 } ) : static_cast<int>( s.range( 1, 99 ) );
         // one transfer for the whole blob; one wrong checksum at a time
         uint64_t found = 0;
         const std::string &bytes = root.kids.back().s;
         std::vector<uint8_t> buf( bytes.size() );
         std::string f = good;
         for ( uint64_t pg = first; pg < end; ++pg )
         {
            f[pg * 1024 + 1023] ^= 1;
            try
            {
               // header and XML are read as well and are not damaged
               e57::ImageFile imf( f.data(), f.size(), p );
               e57::BlobNode b( imf.root().get( "zzzshare" ) );
               try
               {
                  b.read( buf.data(), 0, buf.size() );
                  if ( memcmp( buf.data(), bytes.data(), buf.size() ) != 0 )
                     fail( "other bytes delivered" );
               }
               catch ( const e57::E57Exception &e )
               {
                  if ( e.errorCode() != e57::ErrorBadChecksum )
                     throw;
                  ++found;
               }
               imf.close();
            }
            catch ( const e57::E57Exception &e )
            {
               fail( sprintf_( "policy %d: ", p ) + what( e ) );
            }
            f[pg * 1024 + 1023] ^= 1;
            ctx.evals++;
         }
         const double n = static_cast<double>( end - first ), share = p / 100.0 * n;
         ctx.say( sprintf_( "policy %d verified %llu of %.0f pages; ", p, (unsigned long long)found, n ) );
         if ( static_cast<double>( found ) < 0.75 * share - 1.5 )
            fail( sprintf_( "policy %d verifies only %llu of %.0f pages", p, (unsigned long long)found, n ) );
         if ( static_cast<double>( found ) > 1.5 * share + 2.5 )
            fail( sprintf_( "policy %d verifies %llu of %.0f pages", p, (unsigned long long)found, n ) );
         ctx.label( "share measured" );
      }
      ctx.nontrivial = pages > 2;
      ctx.label( pages > 20 ? "pages>20" : "pages<=20" );
   }

   // ------------------------------------------------------------------- C23

   void c23( Ctx &ctx )
   {
      Src &s = ctx.s;
      const MN root = smallTree( s, 6000, 5000 );
      const std::string path = ctx.dir + "/a.e57";
      std::string f = makeFile( ctx, root, path );
      bool damaged = false;
      switch ( s.weighted( { 3, 3, 2, 2, 1 } ) )
      {
         case 0:
            break;
         case 1: // bytes altered, checksums wrong or recomputed
         {
            damaged = true;
            const unsigned n = 1 + static_cast<unsigned>( s.below( 5 ) );
            for ( unsigned k = 0; k < n; ++k )
            {
               const size_t at = s.flip() ? s.below( 48 ) : s.below( f.size() );
               f[at] = static_cast<char>( s.flip() ? f[at] ^ ( 1 << s.below( 8 ) ) : s.below( 256 ) );
            }
            if ( s.chance( 3, 4 ) )
               indep::resum( f );
            break;
         }
         case 2: // cut or lengthened
            damaged = true;
            f.resize( s.flip() ? 1024 * s.below( f.size() / 1024 + 3 ) : s.below( f.size() + 3000 ), s.flip() ? '\0' : 'x' );
            break;
         case 3: // 64-bit fields of the header or of a section header replaced
         {
            damaged = true;
            const indep::Decoded d = indep::decode( f );
            uint64_t at;
            if ( d.sections.size() > 2 && s.flip() )
            {
               const auto &sec = d.sections[1 + s.below( d.sections.size() - 1 )];
               at = indep::toPhysical( sec.start + 8 * s.below( 4 ) );
            }
            else
               at = 16 + 8 * s.below( 4 );
            const uint64_t v = s.pick<uint64_t>( { 0, 1, 47, 48, 1020, 1023, 1024, f.size() - 1, f.size(), f.size() + 4, 1ull << 32, 1ull << 40,
                                                   INT64_MAX, 1ull << 63, UINT64_MAX, UINT64_MAX - 1020, s.below( f.size() ) } );
            ctx.say( sprintf_( "bytes %llu set to %llx; ", (unsigned long long)at, (unsigned long long)v ) );
            for ( unsigned i = 0; i < 8 && at + i < f.size(); ++i )
               f[at + i] = static_cast<char>( v >> ( 8 * i ) );
            indep::resum( f );
            break;
         }
         default: // nothing of the sort
         {
            damaged = true;
            Prng r( s.bits() );
            f.assign( s.below( 5000 ), '\0' );
            for ( auto &c : f )
               c = static_cast<char>( r.next() );
            break;
         }
      }
      spew( path, f );
      const int policy = s.pick( { 100, 100, 0, 25 } );
      TraceOpts to;
      to.capacity = s.pick<uint64_t>( { 1, 10, 300 } );
      const auto run = [&]( bool memory, size_t &values ) {
         Tracer t( to );
         try
         {
            if ( memory )
            {
               // an exact copy on the heap, so that the sanitizer sees any access outside
               std::unique_ptr<char[]> m( new char[f.size()] );
               memcpy( m.get(), f.data(), f.size() );
               {
                  e57::ImageFile imf( m.get(), f.size(), policy );
                  t.file( imf );
                  imf.close();
               }
               if ( memcmp( m.get(), f.data(), f.size() ) != 0 )
                  fail( "the caller's buffer was changed" );
            }
            else
            {
               e57::ImageFile imf( path, "r", policy );
               t.file( imf );
               imf.close();
            }
            t.out += "done\n";
         }
         catch ( const e57::E57Exception &e )
         {
            t.out += sprintf_( "open: error %d\n", static_cast<int>( e.errorCode() ) );
         }
         values = t.values;
         return t.out;
      };
      size_t v1 = 0, v2 = 0;
      // positions outside the file: a file is refused at the read, memory at the seek
      const auto sameKind = []( std::string t ) {
         for ( const char *code : { "error 19\n", "error 21\n" } )
            for ( size_t p = 0; ( p = t.find( code, p ) ) != std::string::npos; )
               t.replace( p, 9, "error 11\n" );
         return t;
      };
      const std::string a = sameKind( run( false, v1 ) );
      const std::string b = sameKind( run( true, v2 ) );
      ctx.say( sprintf_( "%zu bytes, damaged %d, policy %d, %zu values; ", f.size(), damaged, policy, v1 ) );
      if ( a != b )
         fail( "disk and memory differ: " + firstDifference( a, b ) );
      if ( slurp( path ) != f )
         fail( "the file was changed by reading it" );
      ctx.nontrivial = v1 > 0;
      ctx.label( damaged ? "damaged" : "intact" );
      ctx.label( a.find( "error" ) == std::string::npos ? "no error" : "errors" );
   }

   pbt::Reg r16( { "C16", c16, 5000, 40000, "exploration",
                   "a case counts if at least one operation was refused because of damage; evaluations are damaged files",
                   { "alterations that leave a page with a matching checksum are skipped" } } );
   pbt::Reg r17( { "C17", c17, 600, 10000, "exploration",
                   "a case counts if the file has more than two pages; evaluations are readings",
                   { "a policy's share counts as kept from 75 % of the promised pages (the divisor is rounded)" } } );
   pbt::Reg r23( { "C23", c23, 12000, 100000, "exploration", "a case counts if at least one value was delivered",
                   { "ErrorInternal, ErrorReadFailed and ErrorSeekFailed count as the same error (position outside the file)" } } );
}
