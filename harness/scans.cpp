// The high-level API: points (C27), automatic limits (C31), scan headers (C28), line
// groups (C30), images (C29), file header and identifiers (C33).
#include "heads.hpp"

#include <set>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::Prng;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   // whether the coordinates fit single precision buffers
   bool fitsFloat( const Scan &c )
   {
      for ( unsigned f = 0; f < PFCount; ++f )
         if ( isCoord( f ) )
            for ( const double v : c.v[f] )
               if ( std::fabs( v ) > 1e38 )
                  return false;
      return true;
   }

   void readScan( Src &s, const e57::Reader &r, int64_t at, const Scan &c, const e57::Data3D &head )
   {
      e57::Data3D h;
      if ( !r.ReadData3D( at, h ) )
         fail( "ReadData3D fails" );
      if ( h.pointCount != c.n )
         fail( sprintf_( "pointCount is %zu, not %zu", h.pointCount, c.n ) );
      for ( unsigned f = 0; f < PFCount; ++f )
         if ( pfFlag( h.pointFields, f ) != ( ( c.mask >> f & 1 ) != 0 ) )
            fail( sprintf_( "%s is reported as %s", pfName( f ), pfFlag( h.pointFields, f ) ? "present" : "absent" ) );
      const bool dbl = fitsFloat( c ) ? s.flip() : true;
      const size_t cap = s.flip() ? c.n + 1 : 1 + s.below( c.n + 2 );
      uint64_t fields = ( 1ull << PFCount ) - 1;
      if ( s.chance( 1, 3 ) )
         fields = s.below( 1ull << PFCount );
      if ( !( fields & c.mask ) )
         fields |= c.mask; // (at least one is needed)
      if ( dbl )
         checkPoints<double>( r, at, c, head, cap, fields, s.bits() );
      else
         checkPoints<float>( r, at, c, head, cap, fields, s.bits() );
   }

   void scans( Ctx &ctx, bool automatic )
   {
      Src &s = ctx.s;
      ScanOpts o;
      o.maxPoints = ctx.thorough ? 6000 : 2500;
      o.autoLimits = automatic;
      o.large = s.chance( 1, 250 );
      const size_t k = o.large ? 1 : 1 + s.geom( 1, 3 );
      std::vector<Scan> sc;
      std::vector<e57::Data3D> heads;
      size_t total = 0;
      for ( size_t i = 0; i < k; ++i )
      {
         sc.push_back( drawScan( s, o ) );
         Scan &c = sc.back();
         if ( automatic )
            c.once = true, c.own = c.spare ? false : s.flip(), c.cap = c.n;
         heads.push_back( c.head );
         ctx.say( c.show() );
         total += c.n;
         for ( unsigned g = 0; g < 4; ++g )
            ctx.label( std::string( g == 0 ? "coord " : g == 1 ? "angle " : g == 2 ? "time " : "int " ) + ntName( c.span[g].type ) );
         ctx.label( c.n == 0 ? "no points" : c.n > 65000 ? "more than 65500 points" : c.n > 60 ? "many points" : "points" );
         ctx.label( c.once ? c.own ? "once own" : "once" : "batches" );
      }
      ctx.nontrivial = total > 0;
      if ( automatic )
      {
         ctx.nontrivial = false;
         for ( auto &c : sc )
         {
            const auto &p = c.head.pointFields;
            const auto derived = [&]( uint64_t fields, NT t, double mn, double mx ) {
               if ( c.n && ( c.mask & fields ) && t == NT::ScaledInteger && ( mn == e57::DOUBLE_MIN || mx == e57::DOUBLE_MAX ) )
                  ctx.nontrivial = true;
            };
            derived( 7 | 1ull << SphR, p.pointRangeNodeType, p.pointRangeMinimum, p.pointRangeMaximum );
            derived( 3ull << SphA, p.angleNodeType, p.angleMinimum, p.angleMaximum );
            derived( 1ull << Time, p.timeNodeType, p.timeMinimum, p.timeMaximum );
         }
      }
      const std::string path = ctx.dir + "/s.e57";
      try
      {
         e57::Writer w( path, e57::WriterOptions{} );
         for ( size_t i = 0; i < k; ++i )
            if ( putScan( w, sc[i], heads[i] ) != static_cast<int64_t>( i ) )
               fail( "the index of a new scan is wrong" );
         if ( !w.Close() )
            fail( "Close fails" );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "writing: " + what( e ) );
      }
      if ( automatic )
         for ( size_t i = 0; i < k; ++i )
         {
            const auto &a = sc[i].head.pointFields, &b = heads[i].pointFields;
            const auto kept = [&]( const char *n, NT t, double was, double now ) {
               if ( t == NT::ScaledInteger && was != e57::DOUBLE_MIN && was != e57::DOUBLE_MAX && was != now )
                  fail( sprintf_( "scan %zu: %s was set to %.17g and is now %.17g", i, n, was, now ) );
            };
            kept( "pointRangeMinimum", a.pointRangeNodeType, a.pointRangeMinimum, b.pointRangeMinimum );
            kept( "pointRangeMaximum", a.pointRangeNodeType, a.pointRangeMaximum, b.pointRangeMaximum );
            kept( "angleMinimum", a.angleNodeType, a.angleMinimum, b.angleMinimum );
            kept( "angleMaximum", a.angleNodeType, a.angleMaximum, b.angleMaximum );
            kept( "timeMinimum", a.timeNodeType, a.timeMinimum, b.timeMinimum );
            kept( "timeMaximum", a.timeNodeType, a.timeMaximum, b.timeMaximum );
         }
      try
      {
         e57::Reader r( path, e57::ReaderOptions{} );
         if ( r.GetData3DCount() != static_cast<int64_t>( k ) )
            fail( sprintf_( "%lld scans instead of %zu", (long long)r.GetData3DCount(), k ) );
         for ( size_t i = 0; i < k; ++i )
            readScan( s, r, static_cast<int64_t>( i ), sc[i], heads[i] );
         if ( !r.Close() )
            fail( "Close fails" );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "reading: " + what( e ) );
      }
   }

   void c27( Ctx &ctx ) { scans( ctx, false ); }
   void c31( Ctx &ctx ) { scans( ctx, true ); }

   pbt::Reg r27( { "C27",
                   c27,
                   12000,
                   60000,
                   "exploration",
                   "the scans have at least one point",
                   { "values lie within the limits set; scaled values need at most 48 bits" } } );
   pbt::Reg r31( { "C31",
                   c31,
                   12000,
                   60000,
                   "exploration",
                   "a scan with points has a scaled field of which at least one limit is derived",
                   { "values divided by the scale need at most 48 bits" } } );

   // ------------------------------------------------------------------- C28

   void c28( Ctx &ctx )
   {
      Src &s = ctx.s;
      ScanOpts o;
      o.maxPoints = 6;
      const size_t k = 1 + s.below( 3 );
      std::vector<Scan> sc;
      std::vector<e57::Data3D> heads;
      for ( size_t i = 0; i < k; ++i )
      {
         sc.push_back( drawScan( s, o ) );
         Scan &c = sc.back();
         drawHead( s, c.head, c );
         heads.push_back( c.head );
         ctx.say( c.show() );
         const e57::Data3D &h = c.head;
         ctx.say( sprintf_( "  name '%s' guid '%s' T %g H %g P %g start %g/%d end %g/%d row %lld..%lld col %lld..%lld ret %lld..%lld cart x %g..%g y %g..%g z %g..%g sph %g..%g\n",
                            showStr( h.name ).c_str(), showStr( h.guid ).c_str(), h.temperature, h.relativeHumidity, h.atmosphericPressure,
                            h.acquisitionStart.dateTimeValue, h.acquisitionStart.isAtomicClockReferenced, h.acquisitionEnd.dateTimeValue,
                            h.acquisitionEnd.isAtomicClockReferenced, (long long)h.indexBounds.rowMinimum, (long long)h.indexBounds.rowMaximum,
                            (long long)h.indexBounds.columnMinimum, (long long)h.indexBounds.columnMaximum, (long long)h.indexBounds.returnMinimum,
                            (long long)h.indexBounds.returnMaximum, h.cartesianBounds.xMinimum, h.cartesianBounds.xMaximum, h.cartesianBounds.yMinimum,
                            h.cartesianBounds.yMaximum, h.cartesianBounds.zMinimum, h.cartesianBounds.zMaximum, h.sphericalBounds.rangeMinimum,
                            h.sphericalBounds.rangeMaximum ) );
         const e57::Data3D unset;
         unsigned members = 0;
         members += h.name != unset.name;
         members += h.guid != unset.guid;
         members += h.temperature != unset.temperature;
         members += h.pose != unset.pose;
         members += h.indexBounds != unset.indexBounds;
         members += h.cartesianBounds != unset.cartesianBounds;
         members += h.sphericalBounds != unset.sphericalBounds;
         members += h.acquisitionStart != unset.acquisitionStart;
         if ( members )
            ctx.nontrivial = true;
         ctx.label( members == 0 ? "bare header" : members < 4 ? "some members" : "many members" );
      }
      const std::string path = ctx.dir + "/s.e57";
      try
      {
         e57::Writer w( path, e57::WriterOptions{} );
         for ( size_t i = 0; i < k; ++i )
         {
            putScan( w, sc[i], heads[i] );
            if ( heads[i].guid.empty() || ( !sc[i].head.guid.empty() && sc[i].head.guid != heads[i].guid ) )
               fail( "the identifier of the header was not given or changed" );
         }
         w.Close();
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "writing: " + what( e ) );
      }
      try
      {
         e57::Reader r( path, e57::ReaderOptions{} );
         if ( r.GetData3DCount() != static_cast<int64_t>( k ) )
            fail( "the number of scans is wrong" );
         e57::Data3D h;
         if ( r.ReadData3D( -1, h ) || r.ReadData3D( static_cast<int64_t>( k ), h ) )
            fail( "a scan that does not exist is read" );
         for ( size_t i = 0; i < k; ++i )
         {
            const size_t at = k - 1 - i; // (into a header that holds another scan)
            if ( !r.ReadData3D( static_cast<int64_t>( at ), h ) )
               fail( "ReadData3D fails" );
            const std::string d = diffHead( heads[at], h, sc[at].mask );
            if ( !d.empty() )
               fail( sprintf_( "scan %zu: ", at ) + d );
         }
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "reading: " + what( e ) );
      }
   }

   pbt::Reg r28( { "C28",
                   c28,
                   12000,
                   150000,
                   "exploration",
                   "a header has a member set that is not determined by the point fields",
                   { "color limits and limits of Integer intensity are whole numbers; limits of Float fields are single precision numbers",
                     "limits of fields a scan does not have are not compared",
                     "limits of coordinates are compared when the scan has cartesianX or sphericalRange, of angles when it has sphericalAzimuth, of "
                     "returns when it has returnIndex" } } );
}
