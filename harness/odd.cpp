// The high-level reader on well-formed but odd element trees (C19).
#include "indep.hpp"
#include "simple.hpp"

#include <cmath>
#include <fstream>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::sprintf_;
using pbt::Src;

namespace
{
   struct Odd
   {
      Src &s;
      unsigned missing = 0, otherType = 0, extreme = 0; // chances in 100
      unsigned oddities = 0;

      explicit Odd( Src &src ) : s( src )
      {
         missing = s.pick<unsigned>( { 0, 2, 5, 30 } );
         otherType = s.pick<unsigned>( { 0, 1, 2, 10 } );
         extreme = s.pick<unsigned>( { 0, 5, 30 } );
      }

      MN leaf( const std::string &name, T t )
      {
         MN n;
         n.name = name;
         n.t = t;
         return n;
      }
      MN other( const std::string &name )
      {
         ++oddities;
         MN n;
         n.name = name;
         switch ( s.below( 8 ) )
         {
            case 0:
               n.t = T::Int;
               n.v = genInt64( s );
               break;
            case 1:
               n.t = T::SInt;
               n.v = s.range( -5, 5 );
               n.scale = 0.5;
               break;
            case 2:
               n.t = T::Flt;
               n.d = genDouble( s );
               break;
            case 3:
               n.t = T::Str;
               n.s = genXmlText( s, 10 );
               break;
            case 4:
               n.t = T::Struct;
               break;
            case 5:
               n.t = T::Vec;
               n.hetero = s.flip();
               break;
            case 6:
               n.t = T::Blob;
               n.s = genBytes( s, 20 );
               break;
            default:
               n = points( name, 0 );
               break;
         }
         return n;
      }
      void add( MN &to, MN n )
      {
         if ( s.chance( missing, 100 ) )
         {
            ++oddities;
            return;
         }
         if ( s.chance( otherType, 100 ) )
            n = other( n.name );
         to.kids.push_back( std::move( n ) );
      }
      MN I( const std::string &name, int64_t v )
      {
         MN n = leaf( name, T::Int );
         n.v = s.chance( extreme, 100 ) ? genInt64( s ) : v;
         if ( s.chance( 1, 10 ) )
            n.mn = n.mx = n.v;
         return n;
      }
      MN F( const std::string &name, double v )
      {
         MN n = leaf( name, T::Flt );
         n.d = s.chance( extreme, 100 ) ? genDouble( s ) : v;
         return n;
      }
      // bounds may be of three types
      MN B( const std::string &name, double v, uint64_t kind )
      {
         if ( kind == 0 )
            return F( name, v );
         if ( kind == 1 )
            return I( name, static_cast<int64_t>( v ) );
         MN n = leaf( name, T::SInt );
         n.scale = 0.25;
         n.v = s.chance( extreme, 100 ) ? genInt64( s ) : static_cast<int64_t>( v );
         return n;
      }
      MN S( const std::string &name )
      {
         MN n = leaf( name, T::Str );
         n.s = genXmlText( s, 12 );
         return n;
      }
      MN blob( const std::string &name )
      {
         MN n = leaf( name, T::Blob );
         n.s = genBytes( s, s.chance( 1, 10 ) ? 2500 : 40 );
         return n;
      }
      MN time( const std::string &name )
      {
         MN n = leaf( name, T::Struct );
         add( n, F( "dateTimeValue", 1e9 ) );
         add( n, I( "isAtomicClockReferenced", 1 ) );
         return n;
      }
      MN pose()
      {
         MN n = leaf( "pose", T::Struct ), r = leaf( "rotation", T::Struct ), t = leaf( "translation", T::Struct );
         for ( const char *k : { "w", "x", "y", "z" } )
            add( r, F( k, 0.5 ) );
         for ( const char *k : { "x", "y", "z" } )
            add( t, F( k, 3 ) );
         add( n, r );
         add( n, t );
         return n;
      }
      MN field( const std::string &name, bool coordinate )
      {
         if ( s.chance( otherType, 300 ) )
         {
            ++oddities;
            MN n = leaf( name, T::Struct );
            switch ( s.below( 3 ) )
            {
               case 0:
                  n.t = T::Str;
                  break;
               case 1:
                  n.kids.push_back( leaf( "z", T::Flt ) );
                  break;
               default:
                  n.t = T::Vec;
                  n.kids.push_back( leaf( "0", T::Int ) );
                  break;
            }
            return n;
         }
         MN n = leaf( name, T::Int );
         switch ( s.below( coordinate ? 4 : 6 ) )
         {
            case 0:
            case 1:
               n.t = T::Flt;
               n.single = s.flip();
               n.dmn = n.single ? -FLT_MAX : -DBL_MAX;
               n.dmx = n.single ? FLT_MAX : DBL_MAX;
               if ( s.chance( 1, 3 ) )
               {
                  n.dmn = -100;
                  n.dmx = 100;
               }
               break;
            case 2:
               n.t = T::SInt;
               n.scale = s.pick<double>( { 0.001, 1, 0.25, 1e300, 1e-300 } );
               n.off = s.pick<double>( { 0, 10, -1e9 } );
               [[fallthrough]];
            default:
               genBounds( s, static_cast<unsigned>( s.below( 65 ) ), n.mn, n.mx );
               if ( s.chance( 2, 3 ) )
               {
                  n.mn = 0;
                  n.mx = s.pick<int64_t>( { 1, 255, 65535, 1000 } );
               }
               n.v = n.mn > 0 ? n.mn : n.mx < 0 ? n.mx : 0;
               break;
         }
         return n;
      }
      MN points( const std::string &name, uint64_t maxRec )
      {
         MN cv = leaf( name, T::CV );
         MN p = leaf( "prototype", T::Struct );
         const uint64_t dense = s.pick<uint64_t>( { 30, 60, 100 } );
         for ( unsigned f = 0; f < PFCount; ++f )
            if ( s.chance( dense, 100 ) )
               p.kids.push_back( field( pfName( f ), f < SphInv ) );
         if ( s.chance( 1, 10 ) )
            p.kids.push_back( field( "userField", false ) );
         if ( p.kids.empty() )
            p.kids.push_back( field( "cartesianX", true ) );
         finish( cv, p, s.below( maxRec + 1 ) );
         return cv;
      }
      void finish( MN &cv, const MN &proto, uint64_t n )
      {
         ColOpts co;
         co.individually = 0;
         MN codecs = leaf( "codecs", T::Vec );
         codecs.hetero = true;
         cv.proto.push_back( proto );
         cv.codecs.push_back( codecs );
         cv.nrec = n;
         cv.cols = genCols( s, proto, n, co );
      }
      MN groups()
      {
         MN cv = leaf( "groups", T::CV );
         MN p = leaf( "prototype", T::Struct );
         for ( const char *k : { "idElementValue", "startPointIndex", "pointCount", "more" } )
            if ( s.chance( 100 - missing / 2, 100 ) )
            {
               MN f = s.chance( otherType, 100 ) ? field( k, true ) : I( k, 0 );
               if ( f.t == T::Int && s.flip() )
               {
                  f.v = f.mn = 0;
                  f.mx = s.pick<int64_t>( { 0, 3, 1000, INT64_MAX } );
               }
               p.kids.push_back( f );
            }
         if ( p.kids.empty() )
            p.kids.push_back( I( "pointCount", 0 ) );
         finish( cv, p, s.below( 30 ) );
         return cv;
      }
      MN scan( const std::string &name )
      {
         MN n = leaf( name, T::Struct );
         add( n, points( "points", s.chance( 1, 8 ) ? 3000 : 40 ) );
         for ( const char *k : { "guid", "name", "description", "sensorVendor", "sensorModel", "sensorSerialNumber",
                                 "sensorHardwareVersion", "sensorSoftwareVersion", "sensorFirmwareVersion" } )
            add( n, S( k ) );
         MN og = leaf( "originalGuids", T::Vec );
         og.hetero = true;
         for ( uint64_t i = s.below( 3 ); i > 0; --i )
            add( og, S( std::to_string( og.kids.size() ) ) );
         add( n, og );
         for ( const char *k : { "temperature", "relativeHumidity", "atmosphericPressure" } )
            add( n, F( k, 20 ) );
         MN ib = leaf( "indexBounds", T::Struct );
         for ( const char *k : { "rowMinimum", "rowMaximum", "columnMinimum", "columnMaximum", "returnMinimum", "returnMaximum" } )
            add( ib, I( k, s.below( 10 ) ) );
         add( n, ib );
         if ( s.flip() )
         {
            MN pg = leaf( "pointGroupingSchemes", T::Struct ), gl = leaf( "groupingByLine", T::Struct );
            MN id = leaf( "idElementName", T::Str );
            id.s = s.pick<const char *>( { "columnIndex", "rowIndex", "", "other" } );
            add( gl, id );
            add( gl, groups() );
            add( pg, gl );
            add( n, pg );
         }
         const auto box = [&]( const char *boxName, std::initializer_list<const char *> names ) {
            MN b = leaf( boxName, T::Struct );
            const uint64_t kind = s.below( 3 );
            for ( const char *k : names )
               add( b, B( k, 7, s.chance( otherType, 100 ) ? s.below( 3 ) : kind ) );
            add( n, b );
         };
         box( "cartesianBounds", { "xMinimum", "xMaximum", "yMinimum", "yMaximum", "zMinimum", "zMaximum" } );
         box( "sphericalBounds", { "rangeMinimum", "rangeMaximum", "elevationMinimum", "elevationMaximum", "azimuthStart", "azimuthEnd" } );
         if ( s.chance( 2, 3 ) )
            box( "intensityLimits", { "intensityMinimum", "intensityMaximum" } );
         if ( s.chance( 2, 3 ) )
            box( "colorLimits", { "colorRedMinimum", "colorRedMaximum", "colorGreenMinimum", "colorGreenMaximum", "colorBlueMinimum", "colorBlueMaximum" } );
         add( n, pose() );
         add( n, time( "acquisitionStart" ) );
         add( n, time( "acquisitionEnd" ) );
         if ( s.chance( 1, 10 ) )
            add( n, S( "userText" ) );
         return n;
      }
      MN image( const std::string &name, bool dist )
      {
         MN n = leaf( name, T::Struct );
         for ( const char *k : { "guid", "name", "description", "sensorVendor", "sensorModel", "sensorSerialNumber", "associatedData3DGuid" } )
            add( n, S( k ) );
         add( n, time( "acquisitionDateTime" ) );
         add( n, pose() );
         for ( const char *r : { "visualReferenceRepresentation", "pinholeRepresentation", "sphericalRepresentation", "cylindricalRepresentation" } )
            if ( s.flip() )
            {
               MN p = leaf( r, T::Struct );
               for ( const char *k : { "jpegImage", "pngImage", "imageMask" } )
                  if ( s.flip() )
                     add( p, blob( k ) );
               for ( const char *k : { "imageHeight", "imageWidth" } )
                  add( p, I( k, 100 ) );
               for ( const char *k : { "focalLength", "pixelHeight", "pixelWidth", "principalPointX", "principalPointY", "radius" } )
                  add( p, F( k, 0.1 ) );
               add( n, p );
            }
         if ( dist && s.flip() )
         {
            MN d = leaf( "dist:distortion", T::Struct );
            add( d, I( "dist:CameraNumber", 1 ) );
            add( d, S( "dist:Type" ) );
            for ( const char *k : { "CV_K1", "CV_K2", "CV_K3", "CV_K4", "CV_K5", "CV_K6", "CV_P1", "CV_P2", "CV_CX", "CV_CY", "CV_FX", "CV_FY" } )
               add( d, F( std::string( "dist:" ) + k, 0.1 ) );
            for ( const char *k : { "CV_HEIGHT", "CV_WIDTH" } )
               add( d, I( std::string( "dist:" ) + k, 100 ) );
            add( n, d );
         }
         return n;
      }
      MN root( bool dist, int64_t &scans, int64_t &images )
      {
         MN n = leaf( "", T::Struct );
         for ( const char *k : { "formatName", "guid", "e57LibraryVersion", "coordinateMetadata" } )
            add( n, S( k ) );
         for ( const char *k : { "versionMajor", "versionMinor" } )
            add( n, I( k, 1 ) );
         add( n, time( "creationDateTime" ) );
         MN d = leaf( "data3D", T::Vec ), i = leaf( "images2D", T::Vec );
         d.hetero = i.hetero = true;
         for ( uint64_t k = s.pick<uint64_t>( { 1, 2, 1, 0 } ); k > 0; --k )
            add( d, scan( std::to_string( d.kids.size() ) ) );
         for ( uint64_t k = s.pick<uint64_t>( { 1, 2, 1, 0 } ); k > 0; --k )
            add( i, image( std::to_string( i.kids.size() ), dist ) );
         for ( MN *v : { &d, &i } )
            for ( size_t k = 0; k < v->kids.size(); ++k )
               v->kids[k].name = std::to_string( k );
         scans = static_cast<int64_t>( d.kids.size() );
         images = static_cast<int64_t>( i.kids.size() );
         missing /= 5;
         add( n, d );
         add( n, i );
         return n;
      }
   };

   struct Calls
   {
      size_t ok = 0, errors = 0, refused = 0;
      template <typename Fn> bool operator()( Fn fn )
      {
         try
         {
            if ( fn() )
               ++ok;
            else
               ++refused;
            return true;
         }
         catch ( const e57::E57Exception &e )
         {
            what( e );
            ++errors;
            return false;
         }
      }
   };

   template <typename C> void readPoints( Ctx &ctx, Calls &call, const e57::Reader &r, int64_t i, bool exists )
   {
      Src &s = ctx.s;
      const size_t cap = s.pick<size_t>( { 1, 3, 40, 200 } );
      const uint64_t fields = s.flip() ? ~0ull : s.bits();
      PointBufs<C> b( cap, fields );
      const bool done = call( [&] {
         e57::CompressedVectorReader cr = r.SetUpData3DPointsData( i, cap, b.d );
         const uint64_t total = static_cast<uint64_t>( cr.compressedVectorNode().childCount() );
         uint64_t sum = 0;
         for ( unsigned k = 0; k < 100; ++k )
         {
            const unsigned got = cr.read();
            if ( got > cap )
               fail( sprintf_( "%u points were delivered into buffers of %zu", got, cap ) );
            sum += got;
            if ( sum > total )
               fail( sprintf_( "%llu points were delivered of a scan with %llu", (unsigned long long)sum, (unsigned long long)total ) );
            if ( got == 0 )
               break;
         }
         cr.close();
         return true;
      } );
      if ( done && !exists )
         fail( sprintf_( "a reader was set up for the points of scan %lld, which does not exist", (long long)i ) );
   }

   const MN *in( const MN *n, const std::string &name )
   {
      if ( n && ( n->t == T::Struct || n->t == T::Vec ) )
         for ( auto &k : n->kids )
            if ( k.name == name )
               return &k;
      return nullptr;
   }

   // sizes of an image that were reported as a success
   void sizesStated( const MN &root, int64_t i, e57::Image2DProjection p, e57::Image2DType t, int64_t w, int64_t h, int64_t size, e57::Image2DType mask )
   {
      static const char *const names[] = { "", "visualReferenceRepresentation", "pinholeRepresentation", "sphericalRepresentation",
                                           "cylindricalRepresentation" };
      const MN *rep = p > 0 && p <= 4 ? in( in( in( &root, "images2D" ), std::to_string( i ) ), names[p] ) : nullptr;
      if ( !rep || rep->t != T::Struct )
         fail( sprintf_( "sizes are reported for projection %d, which image %lld does not have", p, (long long)i ) );
      const MN *iw = in( rep, "imageWidth" ), *ih = in( rep, "imageHeight" );
      if ( !iw || iw->t != T::Int || iw->v != w || !ih || ih->t != T::Int || ih->v != h )
         fail( sprintf_( "%lld x %lld is reported for image %lld, which the file does not state", (long long)w, (long long)h, (long long)i ) );
      const MN *b = in( rep, t == e57::ImageJPEG ? "jpegImage" : t == e57::ImagePNG ? "pngImage" : "imageMask" );
      if ( t == e57::ImageNone ? size != 0 : !b || b->t != T::Blob || size != static_cast<int64_t>( b->s.size() ) )
         fail( sprintf_( "%lld bytes of type %d are reported for image %lld", (long long)size, t, (long long)i ) );
      if ( ( mask == e57::ImageMaskPNG ) != ( in( rep, "imageMask" ) != nullptr ) )
         fail( sprintf_( "mask type %d is reported for image %lld", mask, (long long)i ) );
   }

   // without limits in the header, those of the fields are reported
   void limitsDerived( const MN &scan, const MN &proto, const e57::Data3D &h )
   {
      const auto same = []( double a, double b ) { return a == b || std::fabs( a - b ) <= 1e-12 * std::max( std::fabs( a ), std::fabs( b ) ); };
      const auto check = [&]( const char *box, const char *field, double mn, double mx ) {
         const MN *f = in( &proto, field );
         if ( in( &scan, box ) || !f || ( f->t != T::Int && f->t != T::SInt && f->t != T::Flt ) )
            return;
         double lo = f->dmn, hi = f->dmx;
         if ( f->t != T::Flt )
            lo = static_cast<double>( f->mn ), hi = static_cast<double>( f->mx );
         if ( f->t == T::SInt )
            lo = lo * f->scale + f->off, hi = hi * f->scale + f->off;
         if ( !same( mn, lo ) || !same( mx, hi ) )
            fail( sprintf_( "limits of %s are reported as %.17g to %.17g, the field has %.17g to %.17g", field, mn, mx, lo, hi ) );
      };
      const auto &c = h.colorLimits;
      check( "intensityLimits", "intensity", h.intensityLimits.intensityMinimum, h.intensityLimits.intensityMaximum );
      check( "colorLimits", "colorRed", c.colorRedMinimum, c.colorRedMaximum );
      check( "colorLimits", "colorGreen", c.colorGreenMinimum, c.colorGreenMaximum );
      check( "colorLimits", "colorBlue", c.colorBlueMinimum, c.colorBlueMaximum );
   }

   void c19( Ctx &ctx )
   {
      Src &s = ctx.s;
      Odd o( s );
      const bool dist = s.flip(), nor = s.flip();
      std::vector<std::pair<std::string, std::string>> exts;
      exts.emplace_back( "dist", "http://www.libe57.org/E57_LEICA_Camera_Distortion.txt" );
      if ( nor )
         exts.emplace_back( "nor", "http://www.libe57.org/E57_EXT_surface_normals.txt" );
      else
         exts.emplace_back( "nor", "http://example.org/other" );
      int64_t scans = 0, images = 0;
      const MN root = o.root( dist, scans, images );
      indep::Layout l;
      const indep::Encoded e = indep::encode( s, root, exts, l );
      ctx.hash = pbt::hash64( e.physical );
      const std::string path = ctx.dir + "/a.e57";
      {
         std::ofstream f( path, std::ios::binary );
         f.write( e.physical.data(), static_cast<std::streamsize>( e.physical.size() ) );
      }
      ctx.say( sprintf_( "%lld scans, %lld images, %u oddities", (long long)scans, (long long)images, o.oddities ) );

      Calls call;
      bool opened = false;
      call( [&] {
         e57::Reader r( path, e57::ReaderOptions{} );
         opened = true;
         call( [&] {
            e57::E57Root h;
            return r.GetE57Root( h );
         } );
         int64_t nd = 0, ni = 0;
         call( [&] {
            nd = r.GetData3DCount();
            ni = r.GetImage2DCount();
            return true;
         } );
         if ( ( nd != 0 && nd != scans ) || ( ni != 0 && ni != images ) )
            fail( sprintf_( "%lld scans and %lld images are reported", (long long)nd, (long long)ni ) );
         for ( int64_t i : { int64_t( -1 ), int64_t( 0 ), int64_t( 1 ), int64_t( 2 ), INT64_MAX, INT64_MIN, nd, ni } )
         {
            const bool isScan = i >= 0 && i < nd, isImage = i >= 0 && i < ni;
            const auto query = [&]( bool exists, const char *name, auto fn ) {
               bool ans = false;
               const bool done = call( [&] { return ans = fn(); } );
               if ( !exists && ( !done || ans ) )
                  fail( sprintf_( "%s does not return failure for index %lld, which does not exist", name, (long long)i ) );
            };
            query( isScan, "ReadData3D", [&] {
               e57::Data3D h;
               const bool ok = r.ReadData3D( i, h );
               const MN *pts = isScan ? in( in( in( &root, "data3D" ), std::to_string( i ) ), "points" ) : nullptr;
               if ( ok && pts && pts->t == T::CV && h.pointCount != pts->nrec )
                  fail( sprintf_( "scan %lld has %llu points, %zu are reported", (long long)i, (unsigned long long)pts->nrec, h.pointCount ) );
               if ( ok && pts && pts->t == T::CV )
                  limitsDerived( *in( in( &root, "data3D" ), std::to_string( i ) ), pts->proto[0], h );
               if ( ok && h.pointCount < 5000 )
                  call( [&] {
                     e57::Data3DPointsFloat b( h );
                     return true;
                  } );
               return ok;
            } );
            query( isScan, "GetData3DSizes", [&] {
               int64_t a, b, c, d, f;
               bool g;
               return r.GetData3DSizes( i, a, b, c, d, f, g );
            } );
            query( isScan, "ReadData3DGroupsData", [&] {
               const size_t n = s.pick<size_t>( { 1, 5, 30, 64 } );
               std::unique_ptr<int64_t[]> a( new int64_t[n] ), b( new int64_t[n] ), c( new int64_t[n] );
               const uint64_t which = s.flip() ? 7 : s.below( 8 );
               return r.ReadData3DGroupsData( i, n, which & 1 ? a.get() : nullptr, which & 2 ? b.get() : nullptr,
                                              which & 4 ? c.get() : nullptr );
            } );
            query( isImage, "ReadImage2D", [&] {
               e57::Image2D h;
               return r.ReadImage2D( i, h );
            } );
            query( isImage, "GetImage2DSizes", [&] {
               e57::Image2DProjection p;
               e57::Image2DType t, m, v;
               int64_t w, h, z;
               const bool ok = r.GetImage2DSizes( i, p, t, w, h, z, m, v );
               if ( ok && isImage )
                  sizesStated( root, i, p, t, w, h, z, m );
               return ok;
            } );
            for ( int p = 0; p <= 4; ++p )
               for ( int t = 0; t <= 3; ++t )
                  query( isImage, "ReadImage2DData", [&] {
                     const size_t n = s.pick<size_t>( { 1, 10, 50 } );
                     std::unique_ptr<uint8_t[]> b( new uint8_t[n] );
                     const int64_t start = s.pick<int64_t>( { 0, 0, 5, -1, INT64_MAX, 39, 40 } );
                     const int64_t got = r.ReadImage2DData( i, static_cast<e57::Image2DProjection>( p ), static_cast<e57::Image2DType>( t ),
                                                            b.get(), start, n );
                     if ( got < 0 || got > static_cast<int64_t>( n ) )
                        fail( sprintf_( "%lld bytes of an image were delivered into a buffer of %zu", (long long)got, n ) );
                     return got != 0;
                  } );
            if ( s.flip() )
               readPoints<float>( ctx, call, r, i, isScan );
            else
               readPoints<double>( ctx, call, r, i, isScan );
         }
         return r.Close();
      } );
      ctx.nontrivial = o.oddities > 0 && call.ok > 3;
      ctx.label( call.ok > 3 ? call.errors ? "read, some errors" : "read, no errors" : opened ? "little to read" : "not opened" );
      ctx.say( sprintf_( "; %zu calls answered, %zu refused, %zu errors", call.ok, call.refused, call.errors ) );
   }

   pbt::Reg r19( { "C19", c19, 12000, 120000, "exploration",
                   "at least one element missing or of another type, and several calls answered", {}, 30 } );
}
