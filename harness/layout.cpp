// What the library writes, judged by an independent decoder (C14), and what it reads of
// files laid out by an independent encoder (C15).
#include "indep.hpp"
#include "lib.hpp"

#include <fstream>
#include <iterator>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   std::string slurp( const std::string &path )
   {
      std::ifstream f( path, std::ios::binary );
      return std::string( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() );
   }
   void spew( const std::string &path, const std::string &b )
   {
      std::ofstream f( path, std::ios::binary );
      f.write( b.data(), static_cast<std::streamsize>( b.size() ) );
   }

   Exts drawExts( Src &s, TreeOpts &o )
   {
      Exts x;
      const unsigned n = s.chance( 1, 2 ) ? static_cast<unsigned>( 1 + s.below( 3 ) ) : 0;
      for ( unsigned i = 0; i < n; ++i )
      {
         x.emplace_back( sprintf_( "p%u%s", i, s.flip() ? "_x" : "" ), sprintf_( "http://example.org/%u?a=b&c=<%u>", i, i ) );
         o.prefixes.push_back( x.back().first );
      }
      return x;
   }

   // ------------------------------------------------------------------- C14

   // performs the same building and writing as writeFile, in a drawn order
   struct Session
   {
      Src &s;
      e57::ImageFile imf;
      std::vector<std::pair<e57::Node, const MN *>> todo;

      void collect( const e57::Node &n, const MN &m )
      {
         if ( m.t == T::Struct )
            for ( size_t i = 0; i < m.kids.size(); ++i )
               collect( e57::StructureNode( n ).get( static_cast<int64_t>( i ) ), m.kids[i] );
         else if ( m.t == T::Vec )
            for ( size_t i = 0; i < m.kids.size(); ++i )
               collect( e57::VectorNode( n ).get( static_cast<int64_t>( i ) ), m.kids[i] );
         else if ( m.t == T::CV || m.t == T::Blob )
            todo.emplace_back( n, &m );
      }
      void run( const MN &root, const Exts &exts )
      {
         for ( auto &x : exts )
            imf.extensionsAdd( x.first, x.second );
         attachRoot( imf, root );
         collect( imf.root(), root );
         for ( size_t i = todo.size(); i > 1; --i )
            std::swap( todo[i - 1], todo[s.below( i )] );
         for ( auto &t : todo )
         {
            const MN &m = *t.second;
            if ( m.t == T::CV )
            {
               writeRecords( e57::CompressedVectorNode( t.first ), m, s.flip() ? 0 : 1 + s.geom( 20, 3000 ) );
               continue;
            }
            e57::BlobNode b( t.first );
            std::vector<uint8_t> d( m.s.begin(), m.s.end() );
            for ( size_t p = 0; p < d.size(); )
            {
               const size_t k = s.flip() ? d.size() - p : 1 + s.below( d.size() - p );
               b.write( d.data() + p, static_cast<int64_t>( p ), k );
               p += k;
            }
         }
         imf.close();
      }
   };

   void c14( Ctx &ctx )
   {
      Src &s = ctx.s;
      TreeOpts o;
      o.maxNodes = 25;
      const bool big = s.chance( 1, 10 );
      o.maxRecBytes = big ? 300000 : 5000;
      o.maxBlob = big ? 100000 : 3000;
      const Exts exts = drawExts( s, o );
      MN root = genTree( s, o );
      if ( s.flip() )
      {
         if ( s.chance( 1, 30 ) )
            o.minLeaves = s.pick<unsigned>( { 30, 100, 300 } );
         MN cv = genCV( s, o );
         cv.name = "zzrecords";
         root.kids.push_back( std::move( cv ) );
      }
      ctx.say( show( root, false ) );
      ctx.hash = pbt::hash64( show( root ) );
      const std::string path = ctx.dir + "/a.e57";
      try
      {
         Session ses{ s, e57::ImageFile( path, "w" ), {} };
         ses.run( root, exts );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "writing: " + what( e ) );
      }
      indep::Decoded d;
      try
      {
         d = indep::decode( slurp( path ) );
      }
      catch ( const indep::Bad &b )
      {
         fail( std::string( "the file does not conform: " ) + b.what() );
      }
      const std::string df = diff( root, d.root );
      if ( !df.empty() )
         fail( "an independent decoder finds other content: " + df );
      if ( d.exts != exts )
         fail( "declared namespaces differ" );
      size_t data = 0;
      for ( auto &p : d.packets )
         data += p.type == 1;
      ctx.nontrivial = d.sections.size() > 2;
      ctx.label( d.sections.size() > 4 ? "sections>2" : "sections<=2" );
      ctx.label( data > 3 ? "data packets>3" : "data packets<=3" );
   }

   // ------------------------------------------------------------------- C15

   void c15( Ctx &ctx )
   {
      Src &s = ctx.s;
      TreeOpts o;
      o.maxNodes = 20;
      const bool big = s.chance( 1, 12 );
      o.maxRecBytes = big ? 100000 : 2000;
      o.maxBlob = big ? 20000 : 2500;
      const Exts exts = drawExts( s, o );
      MN root = genTree( s, o );
      if ( s.chance( 2, 3 ) )
      {
         if ( s.chance( 1, 30 ) )
            o.minLeaves = s.pick<unsigned>( { 30, 100, 300 } );
         MN cv = genCV( s, o );
         if ( s.chance( 1, 30 ) )
         {
            // enough for packets of the largest size
            ProtoOpts po;
            po.maxLeaves = 3;
            cv.proto[0] = genProto( s, po );
            uint64_t bits = 0;
            for ( auto &f : leavesOf( cv.proto[0] ) )
               bits += f.n->t == T::Str ? 64 : bitsOf( *f.n );
            cv.nrec = std::min<uint64_t>( 150000, s.range( 66000, 200000 ) * 8 / std::max<uint64_t>( bits, 1 ) );
            cv.cols = genCols( s, cv.proto[0], cv.nrec, ColOpts() );
            ctx.label( "large section" );
         }
         cv.name = "zzrecords";
         root.kids.push_back( std::move( cv ) );
      }
      indep::Layout l;
      l.shuffle = s.flip();
      l.gaps = s.flip();
      l.packets = s.chance( 2, 3 );
      l.full = s.chance( 1, 3 );
      l.xmlStyle = s.flip();
      l.spellings = s.flip();
      l.pad = s.flip();
      const indep::Encoded e = indep::encode( s, root, exts, l );
      ctx.say( show( root, false ) );
      ctx.say( sprintf_( "\nlayout: shuffled %d gaps %d packets %d XML style %d spellings %d padding %d; %u data packets, %u others\n%s", l.shuffle,
                         l.gaps, l.packets, l.xmlStyle, l.spellings, l.pad, e.dataPackets, e.otherPackets, e.xml.c_str() ) );
      ctx.hash = pbt::hash64( e.physical );
      // the encoder must agree with the decoder before the library is judged by it
      try
      {
         const indep::Decoded d = indep::decode( e.physical );
         const std::string df = diff( root, d.root );
         if ( !df.empty() )
            throw pbt::HarnessError( "encoder and decoder disagree: " + df );
      }
      catch ( const indep::Bad &b )
      {
         throw pbt::HarnessError( std::string( "encoder made a bad file: " ) + b.what() );
      }
      const std::string path = ctx.dir + "/a.e57";
      spew( path, e.physical );
      MN got;
      try
      {
         ReadOpts ro;
         ro.chunk = s.pick<uint64_t>( { 1, 2, 7, 100, 4096, 100000 } );
         if ( !root.kids.empty() )
            ro.chunk = std::max<uint64_t>( ro.chunk, root.kids.back().nrec / 2000 );
         ro.blobChunk = s.pick<uint64_t>( { 1, 100, 1 << 20 } );
         e57::ImageFile imf( path, "r" );
         got = readNode( imf.root(), ro, true );
         for ( auto &x : exts )
         {
            std::string uri;
            if ( !imf.extensionsLookupPrefix( x.first, uri ) || uri != x.second )
               fail( "namespace " + x.first + " reads as '" + uri + "'" );
         }
         imf.close();
      }
      catch ( const e57::E57Exception &x )
      {
         fail( "a conforming file is refused: " + what( x ) );
      }
      const std::string df = diff( root, got );
      if ( !df.empty() )
         fail( "content differs: " + df );
      ctx.nontrivial = l.shuffle || l.gaps || l.packets || l.xmlStyle || l.spellings;
      ctx.label( e.otherPackets ? "foreign packets" : "no foreign packets" );
      ctx.label( e.dataPackets > 5 ? "data packets>5" : "data packets<=5" );
      if ( e.fullPackets )
         ctx.label( "packets of 65536 bytes" );
      if ( e.dataPackets > 32 )
         ctx.label( "data packets>32" );
      if ( e.chunks > 1 )
         ctx.label( "several chunks" );
      ctx.label( l.shuffle ? "shuffled" : "in order" );
      ctx.label( l.xmlStyle ? "free XML" : "plain XML" );
   }

   pbt::Reg r14( { "C14", c14, 24000, 200000, "exploration",
                   "the file has at least one binary section",
                   { "the independent decoder (harness/indep.cpp) was written from the published format" } } );
   pbt::Reg r15( { "C15", c15, 8000, 80000, "exploration",
                   "the file differs from this library's layout in section order, gaps, packets, XML form or number spelling",
                   { "files are made by an independent encoder and confirmed by the strict independent decoder" } } );
}
