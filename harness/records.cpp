// C01, C02, C05, C06: record data
#include "lib.hpp"

using namespace VARIANT;
using namespace model;
using pbt::Ctx;
using pbt::fail;
using pbt::Src;

namespace
{
   // Writes n with drawn buffer types, strides and batch sizes.
   void writeDrawn( Src &s, e57::CompressedVectorNode cv, const MN &n, Ctx &ctx )
   {
      e57::ImageFile imf = cv.destImageFile();
      const auto lv = leavesOf( n.proto[0] );
      uint64_t cap = n.nrec == 0 ? 1 + s.below( 3 ) : s.chance( 1, 3 ) ? 1 + s.below( n.nrec ) : n.nrec;
      if ( n.nrec > 60000 )
         cap = std::max<uint64_t>( cap, 100 );
      auto make = [&]( uint64_t c, std::vector<std::unique_ptr<Buf>> &bufs, std::vector<e57::SourceDestBuffer> &sb ) {
         bufs.clear();
         sb.clear();
         std::vector<size_t> order( lv.size() );
         for ( size_t i = 0; i < order.size(); ++i )
            order[i] = i;
         for ( size_t i = order.size(); i > 1; --i )
            std::swap( order[i - 1], order[i - 1 - s.below( i )] );
         bufs.resize( lv.size() );
         for ( size_t f : order )
         {
            bufs[f].reset( new Buf( drawType( s, *lv[f].n, n.cols[f] ), c, false, false, s.chance( 1, 3 ) ? s.below( 5 ) : 0 ) );
            sb.push_back( bufs[f]->sdb( imf, lv[f].path ) );
         }
      };
      std::vector<std::unique_ptr<Buf>> bufs;
      std::vector<e57::SourceDestBuffer> sb;
      make( cap, bufs, sb );
      e57::CompressedVectorWriter w = cv.writer( sb );
      uint64_t from = 0;
      unsigned batches = 0;
      const bool replacing = s.chance( 1, 4 );
      std::vector<std::unique_ptr<Buf>> retired;
      while ( from < n.nrec )
      {
         bool fresh = false;
         if ( replacing && batches > 0 && batches < 50 && s.flip() )
         {
            // identical buffers at other addresses, the old ones filled with other data
            std::vector<e57::SourceDestBuffer> sb2;
            for ( auto &b : sb )
               for ( size_t f = 0; f < lv.size(); ++f )
                  if ( b.pathName() == lv[f].path )
                  {
                     std::unique_ptr<Buf> nb( new Buf( *bufs[f] ) );
                     bufs[f]->reset();
                     retired.push_back( std::move( bufs[f] ) );
                     bufs[f] = std::move( nb );
                     sb2.push_back( bufs[f]->sdb( imf, lv[f].path ) );
                     break;
                  }
            sb.swap( sb2 );
            fresh = true;
            ctx.label( "source buffers replaced" );
         }
         uint64_t k = std::min<uint64_t>( cap, n.nrec - from );
         if ( k > 1 && batches < 50 && s.chance( 1, 3 ) )
            k = s.below( k + 1 );
         for ( size_t f = 0; f < lv.size(); ++f )
         {
            bufs[f]->reset();
            load( *bufs[f], *lv[f].n, n.cols[f], from, k );
         }
         fresh ? w.write( sb, k ) : w.write( k );
         from += k;
         ++batches;
      }
      ctx.say( pbt::sprintf_( " [%u batches]", batches ) );
      w.close();
   }

   // rarely more records than 16 bits count, and more packets than are kept at a time
   bool many( Ctx &ctx, ProtoOpts &po )
   {
      if ( !ctx.s.chance( 1, 100 ) )
         return false;
      po.minLeaves = 1;
      po.maxLeaves = 3;
      ctx.label( "more than 65536 records" );
      return true;
   }
   uint64_t manyRecords( Src &s ) { return 65530 + s.below( s.chance( 1, 3 ) ? 20 : 100000 ); }

   void c01( Ctx &ctx )
   {
      Src &s = ctx.s;
      MN cv;
      cv.t = T::CV;
      ProtoOpts po;
      po.maxLeaves = s.chance( 1, 8 ) ? 20 : 6;
      if ( s.chance( 1, 30 ) )
      {
         po.minLeaves = s.pick<unsigned>( { 30, 100, 260, 500 } );
         po.maxLeaves = po.minLeaves + 20;
         ctx.label( "many fields" );
      }
      const bool long_ = many( ctx, po );
      cv.proto.push_back( genProto( s, po ) );
      cv.nrec = long_ ? manyRecords( s ) : genCount( s, cv.proto[0], ctx.thorough ? 600000 : 260000 );
      ColOpts co;
      co.maxString = s.chance( 1, 4 ) && !long_ ? 3000 : 60;
      if ( cv.nrec <= co.individually && s.chance( 1, 3 ) )
         co.maxString = 200000;
      cv.cols = genCols( s, cv.proto[0], cv.nrec, co );
      ctx.say( show( cv ) );
      const std::string path = ctx.dir + "/f.e57";
      MN got;
      try
      {
         {
            e57::ImageFile imf( path, "w" );
            e57::CompressedVectorNode node( buildNode( imf, cv ) );
            imf.root().set( "pts", node );
            writeDrawn( s, node, cv, ctx );
            if ( node.childCount() != static_cast<int64_t>( cv.nrec ) )
               fail( "childCount after writing" );
            imf.close();
         }
         ReadOpts ro;
         ro.chunk = cv.nrec + 1;
         if ( s.chance( 1, 3 ) )
            ro.chunk = 1 + s.below( cv.nrec + 1 );
         MN root = readFile( path, ro );
         got = root.kids.at( 0 );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( what( e ) );
      }
      cv.name = "pts";
      MN w = cv;
      w.codecs.clear();
      const std::string d = diff( w, got );
      if ( !d.empty() )
         fail( d );
      ctx.nontrivial = cv.nrec > 0;
      uint64_t bits = 0;
      for ( auto &l : leavesOf( cv.proto[0] ) )
      {
         bits += bitsOf( *l.n );
         ctx.label( std::string( "field " ) + tname( l.n->t ) );
      }
      ctx.label( cv.nrec == 0 ? "no records" : bits * cv.nrec / 8 > 65536 ? "more than 64 KiB" : "up to 64 KiB" );
   }

   // ---------------------------------------------------------------- C02

   // Reads node (holding n) in the way drawn from s and compares every step.
   void readPlan( Ctx &ctx, e57::CompressedVectorNode node, const MN &n )
   {
      Src &s = ctx.s;
      e57::ImageFile imf = node.destImageFile();
      const auto lv = leavesOf( n.proto[0] );
      // subset and order
      std::vector<size_t> order( lv.size() );
      for ( size_t i = 0; i < order.size(); ++i )
         order[i] = i;
      for ( size_t i = order.size(); i > 1; --i )
         std::swap( order[i - 1], order[i - 1 - s.below( i )] );
      if ( s.flip() )
         order.resize( 1 + s.below( order.size() ) );
      uint64_t cap;
      switch ( s.weighted( { 2, 2, 2, 1, 3 } ) )
      {
         case 0:
            cap = 1 + s.below( 4 );
            break;
         case 1:
            cap = n.nrec + s.below( 3 );
            break;
         case 2:
            cap = n.nrec / ( 1 + s.below( 5 ) ) + s.below( 2 );
            break;
         case 3:
            cap = n.nrec + 1 + s.below( 200 );
            break;
         default:
            cap = 1 + s.below( n.nrec + 1 );
      }
      if ( cap == 0 )
         cap = 1;
      if ( n.nrec / cap > 400 ) // bounded number of calls
         cap = n.nrec / 400 + 1;
      const bool absolute = s.chance( 1, 4 );
      std::vector<std::unique_ptr<Buf>> bufs, old;
      std::vector<e57::SourceDestBuffer> db;
      ctx.say( pbt::sprintf_( " | cap %llu fields", (unsigned long long)cap ) );
      for ( size_t f : order )
      {
         bufs.emplace_back( new Buf( drawType( s, *lv[f].n, n.cols[f] ), cap, false, false, s.chance( 1, 3 ) ? s.below( 5 ) : 0 ) );
         db.push_back( bufs.back()->sdb( imf, ( absolute ? "/" : "" ) + lv[f].path ) );
         ctx.say( " " + lv[f].path + ":" + mtName( bufs.back()->t ) );
      }
      e57::CompressedVectorReader r = node.reader( db );
      const bool replacing = s.chance( 1, 3 );
      uint64_t pos = 0;
      unsigned calls = 0;
      bool first = true;
      for ( unsigned after = 0; after < 2; )
      {
         bool fresh = false;
         if ( replacing && ( calls < 40 ) && s.flip() )
         {
            db.clear();
            for ( size_t k = 0; k < order.size(); ++k )
            {
               std::unique_ptr<Buf> nb( new Buf( *bufs[k] ) );
               bufs[k]->reset();
               old.push_back( std::move( bufs[k] ) );
               bufs[k] = std::move( nb );
               db.push_back( bufs[k]->sdb( imf, ( absolute ? "/" : "" ) + lv[order[k]].path ) );
            }
            fresh = true;
            ctx.label( "buffers replaced" );
         }
         if ( !first && s.chance( 1, 40 ) )
         {
            // another capacity is either refused or honoured
            std::vector<std::unique_ptr<Buf>> other;
            std::vector<e57::SourceDestBuffer> odb;
            for ( size_t k = 0; k < order.size(); ++k )
            {
               other.emplace_back( new Buf( bufs[k]->t, cap + 1, false, false, bufs[k]->stride / std::max<size_t>( 1, mtSize( bufs[k]->t ) ) - ( bufs[k]->t == STR ? 0 : 1 ) ) );
               odb.push_back( other.back()->sdb( imf, ( absolute ? "/" : "" ) + lv[order[k]].path ) );
            }
            try
            {
               unsigned got = r.read( odb );
               const uint64_t want = std::min<uint64_t>( cap + 1, n.nrec - pos );
               if ( got != want )
                  fail( "larger buffers: number of records" );
               for ( size_t k = 0; k < order.size(); ++k )
               {
                  Col c;
                  store( *other[k], *lv[order[k]].n, c, got );
                  const std::vector<Leaf> one{ lv[order[k]] };
                  const std::string d = diffCols( one, { slice( n.cols[order[k]], pos, got ) }, { c }, got );
                  if ( !d.empty() )
                     fail( "larger buffers: " + d );
               }
               ctx.label( "larger buffers accepted" );
               return;
            }
            catch ( const e57::E57Exception &e )
            {
               if ( e.errorCode() != e57::ErrorBuffersNotCompatible )
                  throw;
               ctx.label( "larger buffers refused" );
            }
         }
         first = false;
         for ( auto &b : bufs )
            b->reset();
         const unsigned got = fresh ? r.read( db ) : r.read();
         ++calls;
         const uint64_t want = std::min<uint64_t>( cap, n.nrec - pos );
         if ( got != want )
            fail( pbt::sprintf_( "read %u delivered %u records at record %llu of %llu with capacity %llu", calls, got,
                                 (unsigned long long)pos, (unsigned long long)n.nrec, (unsigned long long)cap ) );
         for ( size_t k = 0; k < order.size(); ++k )
         {
            std::string d = bufs[k]->guardsIntact( got );
            if ( !d.empty() )
               fail( lv[order[k]].path + ": " + d );
            Col c;
            store( *bufs[k], *lv[order[k]].n, c, got );
            const std::vector<Leaf> one{ lv[order[k]] };
            d = diffCols( one, { slice( n.cols[order[k]], pos, got ) }, { c }, got );
            if ( !d.empty() )
               fail( pbt::sprintf_( "read %u from record %llu: ", calls, (unsigned long long)pos ) + d );
         }
         for ( auto &b : old )
         {
            const std::string d = b->guardsIntact( 0 );
            if ( !d.empty() )
               fail( "replaced buffer: " + d );
         }
         pos += got;
         if ( got == 0 )
            ++after;
      }
      if ( node.childCount() != static_cast<int64_t>( n.nrec ) )
         fail( "childCount after reading" );
      r.close();
   }

   MN drawCV( Ctx &ctx, uint64_t quickBytes, uint64_t deepBytes )
   {
      Src &s = ctx.s;
      MN cv;
      cv.t = T::CV;
      ProtoOpts po;
      po.maxLeaves = s.chance( 1, 8 ) ? 20 : 6;
      const bool long_ = quickBytes >= 150000 && many( ctx, po );
      cv.proto.push_back( genProto( s, po ) );
      cv.nrec = long_ ? manyRecords( s ) : genCount( s, cv.proto[0], ctx.thorough ? deepBytes : quickBytes );
      ColOpts co;
      co.maxString = s.chance( 1, 4 ) && !long_ ? 3000 : 60;
      if ( cv.nrec <= co.individually && s.chance( 1, 3 ) )
         co.maxString = 200000;
      cv.cols = genCols( s, cv.proto[0], cv.nrec, co );
      return cv;
   }

   void c02( Ctx &ctx )
   {
      Src &s = ctx.s;
      MN cv = drawCV( ctx, 150000, 500000 );
      ctx.say( show( cv ) );
      const std::string path = ctx.dir + "/f.e57";
      try
      {
         e57::ImageFile imf( path, "w" );
         e57::CompressedVectorNode node( buildNode( imf, cv ) );
         imf.root().set( "pts", node );
         writeRecords( node, cv );
         if ( s.chance( 1, 8 ) )
         {
            ctx.label( "read before closing" );
            readPlan( ctx, node, cv );
         }
         imf.close();
         e57::ImageFile in( path, "r" );
         e57::CompressedVectorNode back( in.root().get( "pts" ) );
         const unsigned plans = 1 + s.below( 4 );
         for ( unsigned k = 0; k < plans; ++k )
            readPlan( ctx, back, cv );
         in.close();
      }
      catch ( const e57::E57Exception &e )
      {
         fail( what( e ) );
      }
      ctx.nontrivial = cv.nrec > 1;
      ctx.label( cv.nrec == 0 ? "no records" : "records" );
   }

   // ---------------------------------------------------------------- C05

   // like drawCV, but at least one integer field a bad value can be given for
   MN drawBreakable( Ctx &ctx, size_t &field )
   {
      Src &s = ctx.s;
      MN cv = drawCV( ctx, 150000, 400000 );
      auto lv = leavesOf( cv.proto[0] );
      std::vector<size_t> ok;
      for ( size_t f = 0; f < lv.size(); ++f )
         if ( ( lv[f].n->t == T::Int || lv[f].n->t == T::SInt ) && ( lv[f].n->mn > INT64_MIN || lv[f].n->mx < INT64_MAX ) )
            ok.push_back( f );
      if ( ok.empty() )
      {
         MN x;
         x.t = T::Int;
         x.name = "breakable";
         x.mn = -3;
         x.mx = 12;
         cv.proto[0].kids.push_back( x );
         Col c;
         for ( uint64_t r = 0; r < cv.nrec; ++r )
            c.i.push_back( static_cast<int64_t>( r % 16 ) - 3 );
         cv.cols.push_back( c );
         // keeps the order of leaves: the new field is the last leaf
         field = cv.cols.size() - 1;
      }
      else
         field = ok[s.below( ok.size() )];
      return cv;
   }

   void c05( Ctx &ctx )
   {
      Src &s = ctx.s;
      size_t field = 0;
      MN cv = drawBreakable( ctx, field );
      TreeOpts small;
      small.maxRecBytes = 6000;
      MN before = genCV( s, small ), after = genCV( s, small ), again = genCV( s, small );
      const std::string blobA = genBytes( s, 3000 ), blobB = genBytes( s, 3000 );
      const size_t mode = s.weighted( { 5, 3, 1, 1 } ); // bad value, dropped, too many, missing conversion
      const uint64_t cap = cv.nrec == 0 ? 1 : 1 + s.below( cv.nrec );
      const uint64_t badRecord = cv.nrec == 0 ? 0 : s.below( cv.nrec );
      const bool dropWriter = s.flip();
      const bool more = s.chance( 1, 3 );
      ctx.say( pbt::sprintf_( "mode %zu cap %llu bad field %zu record %llu of ", mode, (unsigned long long)cap, field,
                              (unsigned long long)badRecord ) + show( cv ) );
      const std::string path = ctx.dir + "/f.e57";
      uint64_t handed = 0;
      bool failed = false;
      try
      {
         e57::ImageFile imf( path, "w" );
         e57::StructureNode root = imf.root();
         e57::BlobNode ba( imf, static_cast<int64_t>( blobA.size() ) );
         root.set( "blobA", ba );
         writeBlob( ba, blobA );
         e57::CompressedVectorNode nb( buildNode( imf, before ) );
         root.set( "before", nb );
         writeRecords( nb, before );

         e57::CompressedVectorNode node( buildNode( imf, cv ) );
         root.set( "pts", node );
         {
            const auto lv = leavesOf( cv.proto[0] );
            std::vector<std::unique_ptr<Buf>> bufs;
            std::vector<e57::SourceDestBuffer> sb;
            for ( size_t f = 0; f < lv.size(); ++f )
            {
               const MT t = mode == 3 && f == field ? F64 : widest( *lv[f].n );
               bufs.emplace_back( new Buf( t, cap, false, false ) );
               sb.push_back( bufs.back()->sdb( imf, lv[f].path ) );
            }
            std::unique_ptr<e57::CompressedVectorWriter> w( new e57::CompressedVectorWriter( node.writer( sb ) ) );
            uint64_t stopAt = mode == 1 && cv.nrec ? s.below( cv.nrec + 1 ) : UINT64_MAX;
            for ( uint64_t from = 0; from < cv.nrec && !failed && handed < stopAt; )
            {
               const uint64_t k = std::min<uint64_t>( cap, cv.nrec - from );
               for ( size_t f = 0; f < lv.size(); ++f )
                  if ( bufs[f]->t == F64 && lv[f].n->t != T::Flt )
                     for ( uint64_t r = 0; r < k; ++r )
                        bufs[f]->setD( r, 0 );
                  else
                     load( *bufs[f], *lv[f].n, cv.cols[f], from, k );
               bool bad = mode == 3;
               if ( mode == 0 && badRecord >= from && badRecord < from + k )
               {
                  const MN &l = *lv[field].n;
                  const int64_t v = l.mx < INT64_MAX && ( l.mn == INT64_MIN || s.flip() ) ? l.mx + 1 : l.mn - 1;
                  bufs[field]->setI( badRecord - from, v );
                  bad = true;
               }
               uint64_t ask = k;
               if ( mode == 2 && s.chance( 1, 3 ) )
               {
                  ask = cap + 1 + s.below( 5 );
                  bad = true;
               }
               try
               {
                  w->write( ask );
                  if ( bad )
                     fail( "a bad write was accepted" );
                  handed += k;
               }
               catch ( const e57::E57Exception &e )
               {
                  if ( !bad )
                     throw;
                  failed = true;
                  if ( mode == 2 && e.errorCode() != e57::ErrorBadAPIArgument )
                     fail( "too many records: " + what( e ) );
               }
               from += k;
            }
            if ( failed && more && mode != 2 )
            {
               // the writer can't be used any further: whatever a call does, the vector stays empty
               try
               {
                  const auto &l = leavesOf( cv.proto[0] );
                  for ( size_t f = 0; f < l.size(); ++f )
                     if ( bufs[f]->t == widest( *l[f].n ) )
                        load( *bufs[f], *l[f].n, cv.cols[f], 0, 1 );
                  w->write( 1 );
               }
               catch ( const e57::E57Exception & )
               {
               }
               ctx.label( "written to after the failure" );
            }
            if ( mode == 2 )
               ;
            if ( ( mode == 1 || ( failed && dropWriter ) ) )
            {
               w.reset();
               ctx.label( "writer dropped" );
            }
            else
            {
               try
               {
                  w->close();
               }
               catch ( const e57::E57Exception &e )
               {
                  fail( "closing the writer: " + what( e ) );
               }
               ctx.label( "writer closed" );
            }
         }
         if ( imf.writerCount() != 0 )
            fail( "writer still counted" );
         const int64_t n = node.childCount();
         if ( failed && mode != 2 && n != 0 )
            fail( pbt::sprintf_( "%lld records present after a failed write", (long long)n ) );

         e57::CompressedVectorNode na( buildNode( imf, after ) );
         root.set( "after", na );
         writeRecords( na, after );
         e57::BlobNode bb( imf, static_cast<int64_t>( blobB.size() ) );
         root.set( "blobB", bb );
         writeBlob( bb, blobB );
         imf.close();

         e57::ImageFile in( path, "r" );
         e57::StructureNode r = in.root();
         ReadOpts ro;
         auto same = [&]( const char *name, const MN &want ) {
            MN got = readNode( r.get( name ), ro );
            got.name.clear();
            MN w = want;
            w.name.clear();
            w.codecs.clear();
            const std::string d = diff( w, got );
            if ( !d.empty() )
               fail( std::string( name ) + ": " + d );
         };
         same( "before", before );
         same( "after", after );
         if ( readBlob( e57::BlobNode( r.get( "blobA" ) ), ro ) != blobA )
            fail( "blobA changed" );
         if ( readBlob( e57::BlobNode( r.get( "blobB" ) ), ro ) != blobB )
            fail( "blobB changed" );
         e57::CompressedVectorNode p( r.get( "pts" ) );
         const uint64_t m = static_cast<uint64_t>( p.childCount() );
         if ( failed && mode != 2 && m != 0 )
            fail( pbt::sprintf_( "%llu records in the file after a failed write", (unsigned long long)m ) );
         if ( m != 0 && m != handed )
            fail( pbt::sprintf_( "%llu records in the file, %llu handed over", (unsigned long long)m,
                                 (unsigned long long)handed ) );
         if ( !failed && mode != 1 && m != handed )
            fail( "records lost" );
         MN got;
         got.proto.push_back( readNode( p.prototype(), ro, true ) );
         got.nrec = m;
         try
         {
            readRecords( p, got, ro );
            if ( got.nrec != m )
               fail( "number of records read" );
            const auto lv = leavesOf( cv.proto[0] );
            const std::string d = diffCols( lv, slice( cv.cols, 0, m ), got.cols, m );
            if ( !d.empty() )
               fail( "pts: " + d );
         }
         catch ( const e57::E57Exception &e )
         {
            if ( m != 0 || e.errorCode() != e57::ErrorData3DReadInvalidZeroRecords )
               throw;
         }
         in.close();
         ctx.label( failed ? "write failed" : "no failure" );
         ctx.label( m ? "records kept" : "empty" );
         ctx.nontrivial = failed || mode == 1;
      }
      catch ( const e57::E57Exception &e )
      {
         fail( what( e ) );
      }
   }

   // ---------------------------------------------------------------- C06

   void c06( Ctx &ctx )
   {
      Src &s = ctx.s;
      const size_t nSec = 2 + s.below( 6 );
      std::vector<MN> sec;
      for ( size_t k = 0; k < nSec; ++k )
      {
         if ( s.flip() )
            sec.push_back( drawCV( ctx, 40000, 150000 ) );
         else
         {
            MN b;
            b.t = T::Blob;
            b.s = genBytes( s, s.chance( 1, 3 ) ? 20000 : 3000 );
            sec.push_back( b );
         }
         sec.back().name = "s" + std::to_string( k );
         ctx.say( show( sec.back() ) + " " );
      }
      const std::string path = ctx.dir + "/f.e57";
      const bool blobInside = s.chance( 1, 25 ); // a blob element created while records are being written
      bool insideDone = false;
      std::string insideBytes;
      try
      {
         e57::ImageFile imf( path, "w" );
         e57::StructureNode root = imf.root();
         // elements created up front or when first written to, in a drawn order
         struct BlobJob
         {
            size_t k;
            std::vector<std::pair<size_t, size_t>> pieces;
         };
         std::vector<e57::Node> nodes;
         std::vector<bool> made( nSec, false );
         std::vector<std::vector<std::pair<size_t, size_t>>> pieces( nSec );
         auto make = [&]( size_t k ) {
            if ( !made[k] )
            {
               root.set( sec[k].name, buildNode( imf, sec[k] ) );
               made[k] = true;
            }
         };
         for ( size_t k = 0; k < nSec; ++k )
            if ( s.flip() )
               make( k );
         for ( size_t k = 0; k < nSec; ++k )
            if ( sec[k].t == T::Blob )
            {
               for ( size_t pos = 0; pos < sec[k].s.size(); )
               {
                  const size_t len = s.flip() ? sec[k].s.size() - pos : 1 + s.below( sec[k].s.size() - pos );
                  pieces[k].push_back( { pos, len } );
                  pos += len;
                  if ( pieces[k].size() > 6 )
                  {
                     pieces[k].push_back( { pos, sec[k].s.size() - pos } );
                     break;
                  }
               }
               for ( size_t i = pieces[k].size(); i > 1; --i )
                  std::swap( pieces[k][i - 1], pieces[k][s.below( i )] );
            }
         auto onePiece = [&]( size_t k ) {
            const auto p = pieces[k].back();
            pieces[k].pop_back();
            if ( p.second == 0 )
               return;
            make( k );
            std::vector<uint8_t> d( sec[k].s.begin() + p.first, sec[k].s.begin() + p.first + p.second );
            e57::BlobNode( root.get( sec[k].name ) ).write( d.data(), p.first, d.size() );
         };
         auto somePiece = [&]( bool onlyMade ) {
            std::vector<size_t> c;
            for ( size_t k = 0; k < nSec; ++k )
               if ( !pieces[k].empty() && ( made[k] || !onlyMade ) )
                  c.push_back( k );
            if ( c.empty() )
               return false;
            onePiece( c[s.below( c.size() )] );
            return true;
         };
         std::vector<size_t> todo;
         for ( size_t k = 0; k < nSec; ++k )
            if ( sec[k].t == T::CV )
               todo.push_back( k );
         for ( size_t i = todo.size(); i > 1; --i )
            std::swap( todo[i - 1], todo[s.below( i )] );
         for ( size_t k : todo )
         {
            while ( s.flip() && somePiece( false ) )
               ;
            make( k );
            const MN &n = sec[k];
            const auto lv = leavesOf( n.proto[0] );
            const uint64_t cap = n.nrec == 0 ? 1 : 1 + s.below( n.nrec );
            const uint64_t cap2 = std::max<uint64_t>( cap, n.nrec / 30 + 1 );
            std::vector<std::unique_ptr<Buf>> bufs;
            std::vector<e57::SourceDestBuffer> sb;
            for ( auto &l : lv )
            {
               bufs.emplace_back( new Buf( widest( *l.n ), cap2, false, false ) );
               sb.push_back( bufs.back()->sdb( imf, l.path ) );
            }
            e57::CompressedVectorWriter w = e57::CompressedVectorNode( root.get( n.name ) ).writer( sb );
            for ( uint64_t from = 0; from < n.nrec; )
            {
               const uint64_t c = std::min<uint64_t>( cap2, n.nrec - from );
               for ( size_t f = 0; f < lv.size(); ++f )
                  load( *bufs[f], *lv[f].n, n.cols[f], from, c );
               w.write( c );
               from += c;
               // blobs that exist already may be filled while records are being written
               if ( s.chance( 1, 3 ) && somePiece( true ) )
                  ctx.label( "blob filled between record writes" );
               if ( s.chance( 1, 10 ) )
                  root.set( "x" + std::to_string( k ) + "_" + std::to_string( from ), e57::IntegerNode( imf, 5 ) );
               if ( blobInside && !insideDone && s.flip() )
               {
                  insideDone = true;
                  insideBytes = genBytes( s, 2000 );
                  try
                  {
                     e57::BlobNode b( imf, static_cast<int64_t>( insideBytes.size() ) );
                     root.set( "inside", b );
                     writeBlob( b, insideBytes );
                  }
                  catch ( const e57::E57Exception &e )
                  {
                     // refusing is fine as well
                     ctx.label( "blob refused while a writer is open" );
                     insideDone = false;
                     if ( root.isDefined( "inside" ) )
                        fail( "refused blob is present: " + what( e ) );
                     break;
                  }
               }
            }
            w.close();
         }
         while ( somePiece( false ) )
            ;
         for ( size_t k = 0; k < nSec; ++k )
            make( k );
         imf.close();
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "writing: " + what( e ) );
      }
      std::string problem;
      try
      {
         e57::ImageFile in( path, "r" );
         e57::StructureNode r = in.root();
         if ( insideDone && readBlob( e57::BlobNode( r.get( "inside" ) ), ReadOpts() ) != insideBytes )
            problem = "blob created between record writes changed";
         // one by one
         for ( size_t k = 0; k < nSec && problem.empty(); ++k )
         {
            MN got = readNode( r.get( sec[k].name ) );
            MN w = sec[k];
            w.codecs.clear();
            problem = diff( w, got );
         }
         if ( !problem.empty() )
            throw std::runtime_error( problem );
         // interleaved: several readers open, steps in a drawn order
         struct Open
         {
            size_t k;
            uint64_t pos = 0, cap = 1;
            bool done = false;
            std::vector<std::unique_ptr<Buf>> bufs;
            std::unique_ptr<e57::CompressedVectorReader> r;
         };
         std::vector<Open> rd;
         // one reader per open file is what the library promises; more handles on the same file give more
         std::vector<e57::ImageFile> handles;
         for ( size_t k = 0; k < nSec; ++k )
         {
            if ( sec[k].t != T::CV )
               continue;
            const unsigned copies = 1 + s.chance( 1, 3 );
            for ( unsigned c = 0; c < copies; ++c )
            {
               Open o;
               o.k = k;
               o.cap = std::max<uint64_t>( 1 + s.below( sec[k].nrec + 1 ), sec[k].nrec / 20 + 1 );
               std::vector<e57::SourceDestBuffer> db;
               for ( auto &l : leavesOf( sec[k].proto[0] ) )
               {
                  o.bufs.emplace_back( new Buf( widest( *l.n ), o.cap, false, false ) );
                  (void)l;
               }
               auto open = [&]( const e57::ImageFile &f ) {
                  db.clear();
                  const auto lv = leavesOf( sec[k].proto[0] );
                  for ( size_t i = 0; i < lv.size(); ++i )
                     db.push_back( o.bufs[i]->sdb( f, lv[i].path ) );
                  o.r.reset( new e57::CompressedVectorReader( e57::CompressedVectorNode( f.root().get( sec[k].name ) ).reader( db ) ) );
               };
               try
               {
                  open( in );
               }
               catch ( const e57::E57Exception &e )
               {
                  if ( e.errorCode() != e57::ErrorTooManyReaders || rd.empty() )
                     throw;
                  handles.emplace_back( path, "r" );
                  open( handles.back() );
               }
               rd.push_back( std::move( o ) );
            }
         }
         size_t left = rd.size();
         while ( left > 0 )
         {
            if ( s.chance( 1, 4 ) )
            {
               const size_t k = s.below( nSec );
               if ( sec[k].t == T::Blob && !sec[k].s.empty() )
               {
                  const size_t from = s.below( sec[k].s.size() ), len = 1 + s.below( sec[k].s.size() - from );
                  std::vector<uint8_t> d( len );
                  e57::BlobNode( r.get( sec[k].name ) ).read( d.data(), from, len );
                  if ( memcmp( d.data(), sec[k].s.data() + from, len ) )
                     fail( "blob " + sec[k].name + " read between record reads differs" );
               }
            }
            std::vector<size_t> live;
            for ( size_t i = 0; i < rd.size(); ++i )
               if ( !rd[i].done )
                  live.push_back( i );
            Open &o = rd[live[s.below( live.size() )]];
            const MN &n = sec[o.k];
            const auto lv = leavesOf( n.proto[0] );
            const unsigned got = o.r->read();
            if ( got != std::min<uint64_t>( o.cap, n.nrec - o.pos ) )
               fail( "interleaved reading: number of records of " + n.name );
            for ( size_t f = 0; f < lv.size(); ++f )
            {
               Col c;
               store( *o.bufs[f], *lv[f].n, c, got );
               const std::vector<Leaf> one{ lv[f] };
               const std::string d = diffCols( one, { slice( n.cols[f], o.pos, got ) }, { c }, got );
               if ( !d.empty() )
                  fail( "interleaved reading of " + n.name + ": " + d );
            }
            o.pos += got;
            if ( got == 0 )
            {
               o.done = true;
               --left;
               if ( s.flip() )
                  o.r->close();
            }
         }
         for ( auto &o : rd )
            if ( o.r->isOpen() )
               o.r->close();
         in.close();
         for ( auto &f : handles )
            f.close();
      }
      catch ( const e57::E57Exception &e )
      {
         problem = "reading: " + what( e );
      }
      catch ( const pbt::Violation & )
      {
         throw;
      }
      catch ( const std::runtime_error &e )
      {
         problem = e.what();
      }
      if ( !problem.empty() )
      {
         if ( insideDone )
            pbt::failKey( "blob-created-during-record-writing", problem );
         fail( problem );
      }
      ctx.nontrivial = true;
      ctx.label( pbt::sprintf_( "%zu sections", nSec ) );
   }

   pbt::Reg r01( { "C01", c01, 6000, 40000, "exploration",
                   "a case counts if at least one record was written and compared; distinct by choice sequence",
                   { "records per case <= 30000, in one case of 100 up to 165530; up to 520 fields" } } );

   pbt::Reg r02( { "C02", c02, 2000, 40000, "exploration",
                   "a case counts if it reads at least two records; distinct by choice sequence",
                   { "at most about 400 read calls per plan" } } );
   pbt::Reg r05( { "C05", c05, 3000, 30000, "exploration",
                   "a case counts if a write failed or the writer was dropped", {} } );
   pbt::Reg r06( { "C06", c06, 2000, 20000, "exploration", "every case holds at least two data sections", {} } );
}
