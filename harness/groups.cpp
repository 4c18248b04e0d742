// C30: line groups and sizes of scans; C33: file-level information and generated identifiers
#include "heads.hpp"

#include <E57Version.h>

#include <set>
#include <sstream>

using namespace pbt;
using namespace VARIANT;

namespace
{
   // ------------------------------------------------------------------- C30

   struct Range
   {
      bool there = false;
      int64_t lo = 0, hi = 0;
      // number of integers in it; -1: not a number of integers
      int64_t size() const
      {
         const uint64_t n = static_cast<uint64_t>( hi ) - static_cast<uint64_t>( lo ) + 1;
         return lo > hi || n == 0 || n > static_cast<uint64_t>( INT64_MAX ) ? -1 : static_cast<int64_t>( n );
      }
   };
   Range drawRange( Src &s )
   {
      Range r;
      r.there = true;
      switch ( s.below( 6 ) )
      {
         case 0: r.hi = s.range( 0, 5 ); break;
         case 1: r.lo = s.range( -5, 5 ), r.hi = r.lo + s.range( 0, 9 ); break;
         case 2: r.hi = s.range( 0, 1000000 ); break;
         case 3: r.lo = r.hi = genInt64( s ); break;
         case 4: r.hi = INT64_MAX, r.lo = s.range( 1, 100 ); break;
         default:
            r.lo = genInt64( s );
            r.hi = genInt64( s );
            if ( r.lo > r.hi && !s.chance( 1, 8 ) )
               std::swap( r.lo, r.hi );
            break;
      }
      return r;
   }

   // A scan with its groups
   struct Grouped
   {
      bool foreign = false; // built with the core API
      Range row, column, ret;
      bool bounds = false; // (foreign) has index bounds at all
      std::string by;     // empty: no grouping
      Range id, start, count; // of the record members
      size_t points = 0;
      int64_t groupsSize = 0, countSize = 0;
      std::vector<int64_t> v[3]; // id, start, count
      size_t groups() const { return v[0].size(); }

      std::string show() const
      {
         std::string o = sprintf_( "%s scan of %zu points", foreign ? "foreign" : "own", points );
         const auto one = [&]( const char *n, const Range &r ) {
            if ( r.there )
               o += sprintf_( " %s [%lld,%lld]", n, (long long)r.lo, (long long)r.hi );
         };
         one( "row", row );
         one( "column", column );
         one( "return", ret );
         o += " by '" + by + "'";
         one( "id", id );
         one( "start", start );
         one( "count", count );
         return o + sprintf_( " groups %zu (size %lld, count %lld)\n", groups(), (long long)groupsSize, (long long)countSize );
      }
   };

   int64_t within( Src &s, const Range &r )
   {
      if ( !r.there )
         return 0;
      switch ( s.below( 4 ) )
      {
         case 0: return r.lo;
         case 1: return r.hi;
         default: return s.range( r.lo, r.hi );
      }
   }

   Grouped drawGrouped( Src &s )
   {
      Grouped g;
      g.foreign = s.flip();
      g.points = s.below( 5 );
      for ( Range *r : { &g.row, &g.column, &g.ret } )
         if ( s.chance( 1, 2 ) )
            *r = drawRange( s );
      g.bounds = g.row.there || g.column.there || g.ret.there || s.chance( 1, 4 );
      if ( s.chance( 5, 6 ) )
         g.by = s.flip() ? "columnIndex" : "rowIndex";
      if ( g.by.empty() )
         return g;
      size_t n = s.chance( 1, 6 ) ? 0 : s.chance( 1, 10 ) ? 1000 + s.below( 30000 ) : 1 + s.below( 40 );
      if ( g.foreign )
      {
         for ( Range *r : { &g.id, &g.start, &g.count } )
            if ( s.chance( 3, 4 ) )
            {
               do
                  *r = drawRange( s );
               while ( r->lo > r->hi );
            }
         if ( !g.id.there && !g.start.there && !g.count.there )
            g.start = Range{ true, 0, 100 };
      }
      else
      {
         g.groupsSize = static_cast<int64_t>( n );
         g.countSize = s.chance( 1, 6 ) ? 0 : s.chance( 1, 4 ) ? INT64_MAX : s.range( 1, 1000 );
         if ( s.chance( 1, 8 ) )
            n /= 2; // fewer than announced
         g.id = Range{ true, 0, std::max<int64_t>( 0, g.groupsSize - 1 ) };
         g.start = Range{ true, 0, g.points ? static_cast<int64_t>( g.points ) - 1 : 0 };
         g.count = Range{ true, 0, g.countSize };
      }
      const Range *m[3] = { &g.id, &g.start, &g.count };
      if ( n <= 60 )
      {
         for ( int k = 0; k < 3; ++k )
            for ( size_t i = 0; i < n; ++i )
               g.v[k].push_back( within( s, *m[k] ) );
      }
      else
      {
         Prng r( s.bits() );
         for ( int k = 0; k < 3; ++k )
            for ( size_t i = 0; i < n; ++i )
            {
               const uint64_t size = static_cast<uint64_t>( m[k]->hi ) - static_cast<uint64_t>( m[k]->lo ) + 1;
               const uint64_t off = size ? r.next() % size : r.next();
               g.v[k].push_back( m[k]->there ? static_cast<int64_t>( static_cast<uint64_t>( m[k]->lo ) + off ) : 0 );
            }
      }
      return g;
   }

   int64_t midOf( const Range &r ) { return r.lo > 0 ? r.lo : r.hi < 0 ? r.hi : 0; }

   void putForeign( e57::Writer &w, Grouped &g, size_t at )
   {
      e57::ImageFile imf = w.GetRawIMF();
      e57::VectorNode data3D = w.GetRawData3D();
      e57::StructureNode scan( imf );
      data3D.append( scan );
      scan.set( "guid", e57::StringNode( imf, sprintf_( "scan %zu", at ) ) );
      if ( g.bounds )
      {
         e57::StructureNode b( imf );
         scan.set( "indexBounds", b );
         const Range *r[3] = { &g.row, &g.column, &g.ret };
         const char *n[3] = { "row", "column", "return" };
         for ( int k = 0; k < 3; ++k )
            if ( r[k]->there )
            {
               b.set( std::string( n[k] ) + "Minimum", e57::IntegerNode( imf, r[k]->lo ) );
               b.set( std::string( n[k] ) + "Maximum", e57::IntegerNode( imf, r[k]->hi ) );
            }
      }
      e57::StructureNode proto( imf );
      proto.set( "cartesianX", e57::FloatNode( imf ) );
      e57::CompressedVectorNode points( imf, proto, e57::VectorNode( imf, true ) );
      scan.set( "points", points );
      std::vector<double> x( g.points + 1, 1.0 );
      if ( g.points )
      {
         std::vector<e57::SourceDestBuffer> b;
         b.emplace_back( imf, "cartesianX", x.data(), g.points );
         e57::CompressedVectorWriter pw = points.writer( b );
         pw.write( g.points );
         pw.close();
      }
      if ( g.by.empty() )
         return;
      e57::StructureNode schemes( imf ), byLine( imf );
      scan.set( "pointGroupingSchemes", schemes );
      schemes.set( "groupingByLine", byLine );
      byLine.set( "idElementName", e57::StringNode( imf, g.by ) );
      e57::StructureNode rec( imf );
      std::vector<e57::SourceDestBuffer> b;
      const Range *m[3] = { &g.id, &g.start, &g.count };
      const char *n[3] = { "idElementValue", "startPointIndex", "pointCount" };
      for ( int k = 0; k < 3; ++k )
         if ( m[k]->there )
         {
            rec.set( n[k], e57::IntegerNode( imf, midOf( *m[k] ), m[k]->lo, m[k]->hi ) );
            if ( g.groups() )
               b.emplace_back( imf, n[k], g.v[k].data(), g.groups() );
         }
      e57::CompressedVectorNode groups( imf, rec, e57::VectorNode( imf, true ) );
      byLine.set( "groups", groups );
      if ( g.groups() )
      {
         e57::CompressedVectorWriter gw = groups.writer( b );
         gw.write( g.groups() );
         gw.close();
      }
   }

   void putOwn( e57::Writer &w, Grouped &g, size_t at )
   {
      e57::Data3D h;
      h.pointFields.cartesianXField = true;
      h.pointFields.pointRangeNodeType = NT::Double;
      h.pointCount = g.points;
      if ( g.row.there )
         h.indexBounds.rowMinimum = g.row.lo, h.indexBounds.rowMaximum = g.row.hi;
      if ( g.column.there )
         h.indexBounds.columnMinimum = g.column.lo, h.indexBounds.columnMaximum = g.column.hi;
      if ( g.ret.there )
         h.indexBounds.returnMinimum = g.ret.lo, h.indexBounds.returnMaximum = g.ret.hi;
      // all zero is "not set"
      for ( Range *r : { &g.row, &g.column, &g.ret } )
         if ( r->lo == 0 && r->hi == 0 )
            r->there = false;
      auto &gl = h.pointGroupingSchemes.groupingByLine;
      gl.idElementName = g.by;
      gl.groupsSize = g.groupsSize;
      gl.pointCountSize = g.countSize;
      const int64_t i = w.NewData3D( h );
      if ( i != static_cast<int64_t>( at ) )
         fail( "NewData3D returned a wrong index" );
      std::vector<double> x( g.points + 1, 1.0 );
      e57::Data3DPointsDouble p;
      p.cartesianX = x.data();
      if ( g.points )
      {
         e57::CompressedVectorWriter pw = w.SetUpData3DPointsData( i, g.points, p );
         pw.write( g.points );
         pw.close();
      }
      if ( g.by.empty() || g.groups() )
      {
         int64_t one = 0;
         const bool ok = w.WriteData3DGroupsData( i, std::max<size_t>( 1, g.groups() ), g.groups() ? g.v[0].data() : &one, g.groups() ? g.v[1].data() : &one,
                                                  g.groups() ? g.v[2].data() : &one );
         if ( ok != !g.by.empty() )
            fail( "WriteData3DGroupsData tells wrongly whether the scan has groups" );
      }
   }

   void c30( Ctx &ctx )
   {
      Src &s = ctx.s;
      std::vector<Grouped> gs;
      for ( size_t k = 1 + s.below( 3 ); k; --k )
      {
         gs.push_back( drawGrouped( s ) );
         ctx.say( gs.back().show() );
         if ( !gs.back().by.empty() )
            ctx.nontrivial = true;
         ctx.label( gs.back().foreign ? "foreign" : "own" );
         ctx.label( gs.back().by.empty() ? "no grouping" : gs.back().groups() ? "groups" : "no groups" );
      }
      const std::string path = ctx.dir + "/g.e57";
      try
      {
         e57::Writer w( path, e57::WriterOptions{} );
         for ( size_t i = 0; i < gs.size(); ++i )
            gs[i].foreign ? putForeign( w, gs[i], i ) : putOwn( w, gs[i], i );
         w.Close();
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "writing: " + what( e ) );
      }
      try
      {
         e57::Reader r( path, e57::ReaderOptions{} );
         for ( size_t i = gs.size(); i-- > 0; )
         {
            const Grouped &g = gs[i];
            const int64_t at = static_cast<int64_t>( i );
            const bool grouped = !g.by.empty(), byColumn = g.by == "columnIndex";

            // sizes
            int64_t row = -1, column = -1, points = -1, groups = -1, count = -1;
            bool isColumn = !byColumn;
            if ( !r.GetData3DSizes( at, row, column, points, groups, count, isColumn ) )
               fail( "GetData3DSizes fails" );
            // -1: not determined
            const int64_t row0 = g.row.there ? g.row.size() : 0, column0 = g.column.there ? g.column.size() : 0;
            const int64_t element = !grouped ? 0 : g.id.there ? g.id.size() : byColumn ? column0 : row0;
            const int64_t count2 = !grouped ? 0 : g.count.there ? g.count.hi : byColumn ? row0 : column0;
            const int64_t row2 = row0 ? row0 : byColumn ? count2 : element, column2 = column0 ? column0 : byColumn ? element : count2;
            const auto same = [&]( const char *n, int64_t want, int64_t got ) {
               if ( want != got && ( want >= 0 || g.count.hi < 0 ) )
                  fail( sprintf_( "scan %zu: %s: %lld reported instead of %lld", i, n, (long long)got, (long long)want ) );
            };
            if ( isColumn != byColumn )
               fail( sprintf_( "scan %zu: wrong element reported", i ) );
            same( "points", static_cast<int64_t>( g.points ), points );
            same( "groups", static_cast<int64_t>( g.groups() ), groups );
            if ( count2 >= 0 || g.count.there )
               same( "points per group", count2, count );
            if ( row0 >= 0 && column0 >= 0 && element >= 0 && count2 >= 0 )
            {
               same( "rows", row2, row );
               same( "columns", column2, column );
            }

            // header
            e57::Data3D h;
            if ( !r.ReadData3D( at, h ) )
               fail( "ReadData3D fails" );
            const auto &gl = h.pointGroupingSchemes.groupingByLine;
            if ( gl.idElementName != g.by || gl.groupsSize != static_cast<int64_t>( g.groups() ) || gl.pointCountSize != ( grouped && g.count.there ? g.count.hi : 0 ) )
               fail( sprintf_( "scan %zu: header has grouping '%s' groups %lld points %lld", i, gl.idElementName.c_str(), (long long)gl.groupsSize,
                               (long long)gl.pointCountSize ) );

            // records
            for ( int tries = 0; tries < 3; ++tries )
            {
               const size_t n = g.groups(), cap = s.chance( 2, 3 ) ? n + ( s.flip() ? 3 : 0 ) : 1 + s.below( n + 2 );
               const unsigned ask = 1 + static_cast<unsigned>( s.below( 7 ) );
               const Range *m[3] = { &g.id, &g.start, &g.count };
               bool any = false;
               for ( int k = 0; k < 3; ++k )
                  any = any || ( ( ask >> k & 1 ) && m[k]->there );
               if ( cap == 0 || ( grouped && ( !any || n == 0 ) ) ) // (vectors without records cannot be read)
                  continue;
               const int64_t mark = 0x5A5A5A5A5A5A5A5A;
               std::vector<int64_t> got[3];
               for ( auto &v : got )
                  v.assign( cap + 1, mark );
               const bool ok = r.ReadData3DGroupsData( at, cap, ask & 1 ? got[0].data() : nullptr, ask & 2 ? got[1].data() : nullptr,
                                                       ask & 4 ? got[2].data() : nullptr );
               if ( ok != grouped )
                  fail( "ReadData3DGroupsData tells wrongly whether the scan has groups" );
               for ( int k = 0; k < 3; ++k )
               {
                  const bool filled = grouped && ( ask >> k & 1 ) && m[k]->there;
                  for ( size_t j = 0; j < got[k].size(); ++j )
                     if ( filled && j < n && j < cap ? got[k][j] != g.v[k][j] : got[k][j] != mark )
                        fail( sprintf_( "scan %zu: member %d of group %zu of %zu (asked: %u, capacity %zu) is %lld instead of %lld", i, k, j, n, ask, cap,
                                        (long long)got[k][j], (long long)( filled && j < n && j < cap ? g.v[k][j] : mark ) ) );
               }
            }
         }
         int64_t a, b, c, d, e;
         bool f;
         if ( r.GetData3DSizes( -1, a, b, c, d, e, f ) || r.GetData3DSizes( static_cast<int64_t>( gs.size() ), a, b, c, d, e, f ) ||
              r.ReadData3DGroupsData( static_cast<int64_t>( gs.size() ), 1, &a, &b, &c ) || r.ReadData3DGroupsData( -1, 1, &a, &b, &c ) )
            fail( "a scan that does not exist has sizes or groups" );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "reading: " + what( e ) );
      }
   }

   pbt::Reg r30( { "C30",
                   c30,
                   10000,
                   100000,
                   "exploration",
                   "a scan has a grouping",
                   { "sizes that depend on reversed bounds, or on a range with more integers than an int64_t can count, are not compared",
                     "group records are asked for when there are some, with at least one member the file has" } } );

   // ------------------------------------------------------------------- C33

   std::string badGuid( const std::string &g )
   {
      if ( g.size() != 38 || g[0] != '{' || g[37] != '}' )
         return "identifier '" + g + "' is not 36 characters in braces";
      for ( size_t i = 1; i < 37; ++i )
      {
         const bool dash = i == 9 || i == 14 || i == 19 || i == 24;
         if ( dash ? g[i] != '-' : !isxdigit( static_cast<unsigned char>( g[i] ) ) )
            return "identifier '" + g + "' is malformed";
      }
      return "";
   }

   // Identifiers of a file, its scans and images as they are given by the writer
   int guidHelper( const std::string &path )
   {
      e57::Writer w( path, e57::WriterOptions{} );
      for ( int i = 0; i < 3; ++i )
      {
         e57::Image2D im;
         w.NewImage2D( im );
         printf( "%s\n", im.guid.c_str() );
      }
      w.Close();
      e57::Reader r( path, e57::ReaderOptions{} );
      e57::E57Root root;
      r.GetE57Root( root );
      printf( "%s\n", root.guid.c_str() );
      fflush( stdout );
      return 0;
   }
   pbt::RegHelper h33( "guids", guidHelper );

   void c33( Ctx &ctx )
   {
      Src &s = ctx.s;
      struct File
      {
         e57::WriterOptions o;
         bool old = false; // made by the deprecated constructor
         std::vector<std::string> scans, images;
      };
      const size_t files = 1 + s.below( 3 );
      std::vector<File> fs( files );
      std::set<std::string> made;
      size_t count = 0;
      const auto generated = [&]( const std::string &g ) {
         const std::string bad = badGuid( g );
         if ( !bad.empty() )
            fail( bad );
         ++count;
         if ( !made.insert( g ).second )
            fail( "identifier " + g + " was generated twice" );
      };
      try
      {
         std::vector<e57::Writer> ws;
         for ( size_t f = 0; f < files; ++f )
         {
            auto &o = fs[f].o;
            if ( s.flip() )
               o.guid = text( s );
            if ( s.flip() )
               o.coordinateMetadata = text( s );
            fs[f].old = s.chance( 1, 4 );
            if ( fs[f].old )
               o.guid.clear();
            const std::string path = sprintf_( "%s/f%zu.e57", ctx.dir.c_str(), f );
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
            ws.push_back( fs[f].old ? ( o.coordinateMetadata.empty() && s.flip() ? e57::Writer( path ) : e57::Writer( path, o.coordinateMetadata ) )
                                    : e57::Writer( path, o ) );
#pragma GCC diagnostic pop
         }
         size_t n = s.chance( 1, 30 ) ? 200 + s.below( 800 ) : s.below( 30 );
         ctx.say( sprintf_( "%zu files, %zu scans and images\n", files, n ) );
         while ( n-- )
         {
            const size_t f = s.below( files );
            const std::string given = s.chance( 1, 4 ) ? text( s ) : "";
            if ( s.flip() )
            {
               e57::Data3D h;
               h.guid = given;
               h.pointFields.cartesianXField = true;
               const int64_t at = ws[f].NewData3D( h );
               if ( at != static_cast<int64_t>( fs[f].scans.size() ) )
                  fail( "NewData3D returned a wrong index" );
               fs[f].scans.push_back( h.guid );
               given.empty() ? generated( h.guid ) : (void)( given == h.guid || ( fail( "a given identifier was replaced" ), false ) );
            }
            else
            {
               e57::Image2D h;
               h.guid = given;
               const int64_t at = ws[f].NewImage2D( h );
               if ( at != static_cast<int64_t>( fs[f].images.size() ) )
                  fail( "NewImage2D returned a wrong index" );
               fs[f].images.push_back( h.guid );
               given.empty() ? generated( h.guid ) : (void)( given == h.guid || ( fail( "a given identifier was replaced" ), false ) );
            }
         }
         for ( auto &w : ws )
            if ( !w.IsOpen() || !w.Close() || w.IsOpen() || w.Close() )
               fail( "IsOpen() or Close() of a writer is wrong" );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "writing: " + what( e ) );
      }
      try
      {
         for ( size_t f = 0; f < files; ++f )
         {
            e57::Reader r( sprintf_( "%s/f%zu.e57", ctx.dir.c_str(), f ), e57::ReaderOptions{} );
            e57::E57Root root;
            root.coordinateMetadata = "x";
            root.creationDateTime.dateTimeValue = 3;
            if ( !r.GetE57Root( root ) )
               fail( "GetE57Root fails" );
            if ( fs[f].o.guid.empty() )
               generated( root.guid );
            else if ( root.guid != fs[f].o.guid )
               fail( "the identifier of the file " + showStr( fs[f].o.guid ) + " was read as " + showStr( root.guid ) );
            if ( root.coordinateMetadata != fs[f].o.coordinateMetadata )
               fail( "coordinate metadata " + showStr( fs[f].o.coordinateMetadata ) + " was read as " + showStr( root.coordinateMetadata ) );
            if ( root.formatName != "ASTM E57 3D Imaging Data File" || root.versionMajor != 1 || root.versionMinor != 0 )
               fail( "format name or version is wrong" );
            if ( root.e57LibraryVersion != e57::Version::library() )
               fail( "library version '" + root.e57LibraryVersion + "' reported" );
            if ( root.data3DSize != static_cast<int64_t>( fs[f].scans.size() ) || root.images2DSize != static_cast<int64_t>( fs[f].images.size() ) ||
                 r.GetData3DCount() != root.data3DSize || r.GetImage2DCount() != root.images2DSize )
               fail( sprintf_( "%lld scans and %lld images reported instead of %zu and %zu", (long long)root.data3DSize, (long long)root.images2DSize,
                               fs[f].scans.size(), fs[f].images.size() ) );
            for ( size_t i = 0; i < fs[f].scans.size(); ++i )
            {
               e57::Data3D h;
               if ( !r.ReadData3D( static_cast<int64_t>( i ), h ) || h.guid != fs[f].scans[i] )
                  fail( "the identifier of a scan is read back wrongly" );
            }
            for ( size_t i = 0; i < fs[f].images.size(); ++i )
            {
               e57::Image2D h;
               if ( !r.ReadImage2D( static_cast<int64_t>( i ), h ) || h.guid != fs[f].images[i] )
                  fail( "the identifier of an image is read back wrongly" );
            }
            if ( !r.IsOpen() || !r.Close() || r.IsOpen() || r.Close() || r.GetE57Root( root ) )
               fail( "IsOpen(), Close() or GetE57Root() of a closed reader is wrong" );
         }
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "reading: " + what( e ) );
      }
      // processes of their own
      if ( s.chance( 1, 60 ) )
      {
         for ( int k = 0; k < 3; ++k )
         {
            std::stringstream out( runHelper( "guids", ctx.dir + "/h.e57" ) );
            for ( std::string g; std::getline( out, g ); )
               generated( g );
         }
         ctx.label( "several processes" );
      }
      ctx.nontrivial = count > 0;
   }

   pbt::Reg r33( { "C33",
                   c33,
                   8000,
                   40000,
                   "exploration",
                   "at least one identifier was generated",
                   { "identifiers are generated in the order and in the processes of one case only; they are compared with each other within the case" } } );
}
