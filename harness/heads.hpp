// Headers of scans and images of the high-level API: drawing and comparing them.
#pragma once

#include "scans.hpp"

namespace VARIANT
{
   using model::showStr;

   inline std::string text( Src &s ) { return genXmlText( s, s.chance( 1, 6 ) ? 200 : 12 ); }
   inline double num( Src &s ) { return s.flip() ? genDouble( s ) : static_cast<double>( s.range( -1000, 1000 ) ) / 8; }

   inline void drawPose( Src &s, e57::RigidBodyTransform &p )
   {
      for ( double *d : { &p.rotation.w, &p.rotation.x, &p.rotation.y, &p.rotation.z, &p.translation.x, &p.translation.y, &p.translation.z } )
         if ( s.chance( 1, 2 ) )
            *d = num( s );
   }
   inline void drawTime( Src &s, e57::DateTime &t )
   {
      if ( s.chance( 3, 4 ) )
         t.dateTimeValue = s.flip() ? num( s ) : 1.3e9 + static_cast<double>( s.below( 1u << 30 ) ) / 64;
      t.isAtomicClockReferenced = s.flip();
   }

   // Everything of the header that is not determined by the point fields
   inline void drawHead( Src &s, e57::Data3D &h, const Scan &c )
   {
      const unsigned den = s.pick<unsigned>( { 2, 2, 5, 12 } );
      const auto some = [&] { return s.chance( 1, den ); };
      for ( std::string *p : { &h.name, &h.guid, &h.description, &h.sensorVendor, &h.sensorModel, &h.sensorSerialNumber,
                               &h.sensorHardwareVersion, &h.sensorSoftwareVersion, &h.sensorFirmwareVersion } )
         if ( some() )
            *p = text( s );
      if ( some() )
         for ( size_t k = 1 + s.below( 4 ); k; --k )
            h.originalGuids.push_back( s.chance( 1, 6 ) ? "" : text( s ) );
      for ( float *p : { &h.temperature, &h.relativeHumidity, &h.atmosphericPressure } )
         if ( some() )
            *p = s.chance( 1, 8 ) ? 0 : genFloat( s );
      if ( some() )
         drawTime( s, h.acquisitionStart );
      if ( some() )
         drawTime( s, h.acquisitionEnd );
      if ( some() )
         drawPose( s, h.pose );
      auto &ib = h.indexBounds;
      int64_t *const pairs[3][2] = { { &ib.rowMinimum, &ib.rowMaximum }, { &ib.columnMinimum, &ib.columnMaximum }, { &ib.returnMinimum, &ib.returnMaximum } };
      for ( auto &p : pairs )
         if ( some() )
         {
            *p[0] = s.flip() ? 0 : genInt64( s );
            *p[1] = s.chance( 1, 5 ) ? 0 : genInt64( s );
         }
      if ( some() )
         for ( double *p : { &h.cartesianBounds.xMinimum, &h.cartesianBounds.xMaximum, &h.cartesianBounds.yMinimum, &h.cartesianBounds.yMaximum,
                             &h.cartesianBounds.zMinimum, &h.cartesianBounds.zMaximum } )
            if ( s.chance( 2, 3 ) )
               *p = num( s );
      if ( some() )
         for ( double *p : { &h.sphericalBounds.rangeMinimum, &h.sphericalBounds.rangeMaximum, &h.sphericalBounds.elevationMinimum,
                             &h.sphericalBounds.elevationMaximum, &h.sphericalBounds.azimuthStart, &h.sphericalBounds.azimuthEnd } )
            if ( s.chance( 2, 3 ) )
               *p = num( s );
      // limits of fields the scan does not have
      if ( !( c.mask >> Inten & 1 ) )
         if ( !some() )
            h.intensityLimits = e57::IntensityLimits{};
      double *const rgb[3][2] = { { &h.colorLimits.colorRedMinimum, &h.colorLimits.colorRedMaximum },
                                  { &h.colorLimits.colorGreenMinimum, &h.colorLimits.colorGreenMaximum },
                                  { &h.colorLimits.colorBlueMinimum, &h.colorLimits.colorBlueMaximum } };
      for ( int k = 0; k < 3; ++k )
         if ( !( c.mask >> ( Red + k ) & 1 ) )
         {
            const bool set = some();
            *rgb[k][0] = set ? static_cast<double>( s.range( -1000000, 1000000 ) ) : 0;
            *rgb[k][1] = set ? static_cast<double>( s.range( -1000000, 1000000 ) ) : 0;
         }
   }

   // compares members one by one; the first that differs
   struct Cmp
   {
      std::string bad;
      unsigned compared = 0;
      void str( const char *n, const std::string &want, const std::string &got )
      {
         ++compared;
         if ( bad.empty() && want != got )
            bad = std::string( n ) + ": '" + showStr( want ) + "' was read as '" + showStr( got ) + "'";
      }
      void num( const char *n, double want, double got, double tol = 0 )
      {
         ++compared;
         if ( bad.empty() && !( want == got ) && !( std::fabs( want - got ) <= tol ) )
            bad = pbt::sprintf_( "%s: %.17g was read as %.17g", n, want, got );
      }
      void integer( const char *n, int64_t want, int64_t got )
      {
         ++compared;
         if ( bad.empty() && want != got )
            bad = pbt::sprintf_( "%s: %lld was read as %lld", n, (long long)want, (long long)got );
      }
      void pose( const e57::RigidBodyTransform &a, const e57::RigidBodyTransform &b )
      {
         num( "rotation.w", a.rotation.w, b.rotation.w );
         num( "rotation.x", a.rotation.x, b.rotation.x );
         num( "rotation.y", a.rotation.y, b.rotation.y );
         num( "rotation.z", a.rotation.z, b.rotation.z );
         num( "translation.x", a.translation.x, b.translation.x );
         num( "translation.y", a.translation.y, b.translation.y );
         num( "translation.z", a.translation.z, b.translation.z );
      }
      void time( const char *n, const e57::DateTime &a, const e57::DateTime &b )
      {
         num( n, a.dateTimeValue, b.dateTimeValue );
         integer( n, a.isAtomicClockReferenced, b.isAtomicClockReferenced );
      }
   };

   inline std::string diffHead( const e57::Data3D &a, const e57::Data3D &b, uint64_t mask )
   {
      Cmp c;
      c.str( "name", a.name, b.name );
      c.str( "guid", a.guid, b.guid );
      c.str( "description", a.description, b.description );
      c.str( "sensorVendor", a.sensorVendor, b.sensorVendor );
      c.str( "sensorModel", a.sensorModel, b.sensorModel );
      c.str( "sensorSerialNumber", a.sensorSerialNumber, b.sensorSerialNumber );
      c.str( "sensorHardwareVersion", a.sensorHardwareVersion, b.sensorHardwareVersion );
      c.str( "sensorSoftwareVersion", a.sensorSoftwareVersion, b.sensorSoftwareVersion );
      c.str( "sensorFirmwareVersion", a.sensorFirmwareVersion, b.sensorFirmwareVersion );
      c.integer( "number of originalGuids", static_cast<int64_t>( a.originalGuids.size() ), static_cast<int64_t>( b.originalGuids.size() ) );
      for ( size_t i = 0; c.bad.empty() && i < a.originalGuids.size(); ++i )
         c.str( "originalGuids", a.originalGuids[i], b.originalGuids[i] );
      c.num( "temperature", a.temperature, b.temperature );
      c.num( "relativeHumidity", a.relativeHumidity, b.relativeHumidity );
      c.num( "atmosphericPressure", a.atmosphericPressure, b.atmosphericPressure );
      c.time( "acquisitionStart", a.acquisitionStart, b.acquisitionStart );
      c.time( "acquisitionEnd", a.acquisitionEnd, b.acquisitionEnd );
      c.pose( a.pose, b.pose );
      c.integer( "rowMinimum", a.indexBounds.rowMinimum, b.indexBounds.rowMinimum );
      c.integer( "rowMaximum", a.indexBounds.rowMaximum, b.indexBounds.rowMaximum );
      c.integer( "columnMinimum", a.indexBounds.columnMinimum, b.indexBounds.columnMinimum );
      c.integer( "columnMaximum", a.indexBounds.columnMaximum, b.indexBounds.columnMaximum );
      c.integer( "returnMinimum", a.indexBounds.returnMinimum, b.indexBounds.returnMinimum );
      c.integer( "returnMaximum", a.indexBounds.returnMaximum, b.indexBounds.returnMaximum );
      c.num( "xMinimum", a.cartesianBounds.xMinimum, b.cartesianBounds.xMinimum );
      c.num( "xMaximum", a.cartesianBounds.xMaximum, b.cartesianBounds.xMaximum );
      c.num( "yMinimum", a.cartesianBounds.yMinimum, b.cartesianBounds.yMinimum );
      c.num( "yMaximum", a.cartesianBounds.yMaximum, b.cartesianBounds.yMaximum );
      c.num( "zMinimum", a.cartesianBounds.zMinimum, b.cartesianBounds.zMinimum );
      c.num( "zMaximum", a.cartesianBounds.zMaximum, b.cartesianBounds.zMaximum );
      c.num( "rangeMinimum", a.sphericalBounds.rangeMinimum, b.sphericalBounds.rangeMinimum );
      c.num( "rangeMaximum", a.sphericalBounds.rangeMaximum, b.sphericalBounds.rangeMaximum );
      c.num( "elevationMinimum", a.sphericalBounds.elevationMinimum, b.sphericalBounds.elevationMinimum );
      c.num( "elevationMaximum", a.sphericalBounds.elevationMaximum, b.sphericalBounds.elevationMaximum );
      c.num( "azimuthStart", a.sphericalBounds.azimuthStart, b.sphericalBounds.azimuthStart );
      c.num( "azimuthEnd", a.sphericalBounds.azimuthEnd, b.sphericalBounds.azimuthEnd );
      const auto &p = a.pointFields, &q = b.pointFields;
      // limits of scaled fields are rounded to a step
      const double im = std::max( std::fabs( a.intensityLimits.intensityMinimum ), std::fabs( a.intensityLimits.intensityMaximum ) );
      const double it = p.intensityNodeType == NT::ScaledInteger ? p.intensityScale * .5000001 + im * 1e-15 : 0;
      c.num( "intensityMinimum", a.intensityLimits.intensityMinimum, b.intensityLimits.intensityMinimum, it );
      c.num( "intensityMaximum", a.intensityLimits.intensityMaximum, b.intensityLimits.intensityMaximum, it );
      c.num( "colorRedMinimum", a.colorLimits.colorRedMinimum, b.colorLimits.colorRedMinimum );
      c.num( "colorRedMaximum", a.colorLimits.colorRedMaximum, b.colorLimits.colorRedMaximum );
      c.num( "colorGreenMinimum", a.colorLimits.colorGreenMinimum, b.colorLimits.colorGreenMinimum );
      c.num( "colorGreenMaximum", a.colorLimits.colorGreenMaximum, b.colorLimits.colorGreenMaximum );
      c.num( "colorBlueMinimum", a.colorLimits.colorBlueMinimum, b.colorLimits.colorBlueMinimum );
      c.num( "colorBlueMaximum", a.colorLimits.colorBlueMaximum, b.colorLimits.colorBlueMaximum );
      c.str( "idElementName", a.pointGroupingSchemes.groupingByLine.idElementName, b.pointGroupingSchemes.groupingByLine.idElementName );
      c.integer( "pointCount", static_cast<int64_t>( a.pointCount ), static_cast<int64_t>( b.pointCount ) );
      for ( unsigned f = 0; f < PFCount; ++f )
         c.integer( pfName( f ), mask >> f & 1, pfFlag( const_cast<e57::PointStandardizedFieldsAvailable &>( q ), f ) );
      // configuration of the fields the scan has
      const auto group = [&]( const char *n, NT t, NT u, double scale, double scale2, double mn, double mn2, double mx, double mx2 ) {
         c.integer( ( std::string( n ) + " node type" ).c_str(), static_cast<int>( t ), static_cast<int>( u ) );
         double tol = 0;
         if ( t == NT::ScaledInteger )
         {
            c.num( ( std::string( n ) + " scale" ).c_str(), scale, scale2 );
            tol = scale * .5000001 + std::max( std::fabs( mn ), std::fabs( mx ) ) * 1e-15;
         }
         if ( t == NT::Float ) // not set: what the type can hold
            mn = std::max<double>( mn, e57::FLOAT_MIN ), mx = std::min<double>( mx, e57::FLOAT_MAX );
         c.num( ( std::string( n ) + " minimum" ).c_str(), mn, mn2, tol );
         c.num( ( std::string( n ) + " maximum" ).c_str(), mx, mx2, tol );
      };
      if ( mask & ( 1 | 1ull << SphR ) )
         group( "coordinate", p.pointRangeNodeType, q.pointRangeNodeType, p.pointRangeScale, q.pointRangeScale, p.pointRangeMinimum,
                q.pointRangeMinimum, p.pointRangeMaximum, q.pointRangeMaximum );
      if ( mask >> SphA & 1 )
         group( "angle", p.angleNodeType, q.angleNodeType, p.angleScale, q.angleScale, p.angleMinimum, q.angleMinimum, p.angleMaximum,
                q.angleMaximum );
      if ( mask >> Time & 1 )
         group( "time", p.timeNodeType, q.timeNodeType, p.timeScale, q.timeScale, p.timeMinimum, q.timeMinimum, p.timeMaximum, q.timeMaximum );
      if ( mask >> Inten & 1 )
      {
         c.integer( "intensity node type", static_cast<int>( p.intensityNodeType ), static_cast<int>( q.intensityNodeType ) );
         if ( p.intensityNodeType == NT::ScaledInteger )
            c.num( "intensity scale", p.intensityScale, q.intensityScale );
      }
      if ( mask >> Row & 1 )
         c.integer( "rowIndexMaximum", p.rowIndexMaximum, q.rowIndexMaximum );
      if ( mask >> Column & 1 )
         c.integer( "columnIndexMaximum", p.columnIndexMaximum, q.columnIndexMaximum );
      if ( mask >> RetIdx & 1 )
         c.integer( "pointFields.returnMaximum", p.returnMaximum, q.returnMaximum );
      return c.bad;
   }

   // ----------------------------------------------------------------- images

   using e57::Image2DProjection;
   using e57::Image2DType;

   // An image with at most one of the projections, and perhaps a visual reference
   struct Image
   {
      e57::Image2D head;
      int proj = e57::ProjectionNone; // pinhole, spherical, cylindrical
      // one representation: index of the projection
      struct Rep
      {
         bool there = false;
         int type = e57::ImageNone; // JPEG or PNG
         std::vector<uint8_t> data, mask;
      } rep[5];

      std::string show() const
      {
         std::string o = "image '" + model::showStr( head.name ) + "'";
         for ( int p = 1; p < 5; ++p )
            if ( rep[p].there )
               o += pbt::sprintf_( " projection %d: %s %zu bytes mask %zu", p, rep[p].type == 1 ? "jpeg" : "png", rep[p].data.size(), rep[p].mask.size() );
         if ( auto *d = head.pinholeCameraDistortionExt.get() )
            o += pbt::sprintf_( " distortion camera %lld", (long long)d->cameraNumber );
         return o + "\n";
      }
   };

   // a header of its own (they cannot be copied)
   inline void copyHead( e57::Image2D &to, const e57::Image2D &from )
   {
      to.name = from.name;
      to.guid = from.guid;
      to.description = from.description;
      to.acquisitionDateTime = from.acquisitionDateTime;
      to.associatedData3DGuid = from.associatedData3DGuid;
      to.sensorVendor = from.sensorVendor;
      to.sensorModel = from.sensorModel;
      to.sensorSerialNumber = from.sensorSerialNumber;
      to.pose = from.pose;
      to.visualReferenceRepresentation = from.visualReferenceRepresentation;
      to.pinholeRepresentation = from.pinholeRepresentation;
      to.sphericalRepresentation = from.sphericalRepresentation;
      to.cylindricalRepresentation = from.cylindricalRepresentation;
      to.pinholeCameraDistortionExt.reset();
      if ( from.pinholeCameraDistortionExt )
         to.pinholeCameraDistortionExt = std::make_unique<e57::Extension::PinholeCameraDistortion>( *from.pinholeCameraDistortionExt );
   }

   inline Image drawImage( Src &s, size_t maxBytes )
   {
      Image im;
      e57::Image2D &h = im.head;
      const unsigned den = s.pick<unsigned>( { 2, 2, 5, 12 } );
      const auto some = [&] { return s.chance( 1, den ); };
      for ( std::string *p : { &h.name, &h.guid, &h.description, &h.associatedData3DGuid, &h.sensorVendor, &h.sensorModel, &h.sensorSerialNumber } )
         if ( some() )
            *p = text( s );
      if ( some() )
         drawTime( s, h.acquisitionDateTime );
      if ( some() )
         drawPose( s, h.pose );
      const auto pixels = [&] { return static_cast<int32_t>( s.chance( 1, 4 ) ? s.pick<int64_t>( { 0, 1, INT32_MAX, INT32_MIN, -1 } ) : s.range( 0, 5000 ) ); };
      const auto rep = [&]( int p, auto &r ) {
         auto &q = im.rep[p];
         q.there = true;
         q.type = s.flip() ? e57::ImageJPEG : e57::ImagePNG;
         const auto size = [&] {
            return static_cast<size_t>( s.chance( 1, 3 ) ? s.range( 1, 12 ) : s.chance( 1, 4 ) ? s.range( 980, 1060 ) : s.range( 1, static_cast<int64_t>( maxBytes ) ) );
         };
         q.data.resize( size() );
         if ( s.chance( 1, 3 ) )
            q.mask.resize( size() );
         Prng fill( s.bits() );
         for ( auto *d : { &q.data, &q.mask } )
            for ( auto &b : *d )
               b = static_cast<uint8_t>( fill.next() );
         ( q.type == e57::ImageJPEG ? r.jpegImageSize : r.pngImageSize ) = static_cast<int64_t>( q.data.size() );
         r.imageMaskSize = static_cast<int64_t>( q.mask.size() );
         r.imageWidth = pixels();
         r.imageHeight = pixels();
      };
      if ( s.chance( 1, 4 ) )
         rep( e57::ProjectionVisual, h.visualReferenceRepresentation );
      im.proj = s.chance( 5, 6 ) ? static_cast<int>( 2 + s.below( 3 ) ) : e57::ProjectionNone;
      if ( im.proj == e57::ProjectionPinhole )
      {
         auto &r = h.pinholeRepresentation;
         rep( im.proj, r );
         for ( double *p : { &r.focalLength, &r.pixelWidth, &r.pixelHeight, &r.principalPointX, &r.principalPointY } )
            *p = num( s );
      }
      if ( im.proj == e57::ProjectionSpherical )
      {
         auto &r = h.sphericalRepresentation;
         rep( im.proj, r );
         for ( double *p : { &r.pixelWidth, &r.pixelHeight } )
            *p = num( s );
      }
      if ( im.proj == e57::ProjectionCylindrical )
      {
         auto &r = h.cylindricalRepresentation;
         rep( im.proj, r );
         for ( double *p : { &r.pixelWidth, &r.pixelHeight, &r.radius, &r.principalPointY } )
            *p = num( s );
      }
      if ( s.chance( 1, 3 ) )
      {
         h.pinholeCameraDistortionExt = std::make_unique<e57::Extension::PinholeCameraDistortion>();
         auto &d = *h.pinholeCameraDistortionExt;
         d.cameraNumber = s.flip() ? 0 : s.flip() ? s.range( 1, 9 ) : genInt64( s );
         if ( d.cameraNumber < 0 )
            d.cameraNumber = 0;
         if ( s.flip() )
            d.type = text( s );
         for ( double *p : { &d.CV_K1, &d.CV_K2, &d.CV_K3, &d.CV_K4, &d.CV_K5, &d.CV_K6, &d.CV_P1, &d.CV_P2, &d.CV_CX, &d.CV_CY, &d.CV_FX, &d.CV_FY } )
            if ( s.chance( 3, 4 ) )
               *p = num( s );
         d.CV_HEIGHT = pixels();
         d.CV_WIDTH = pixels();
      }
      return im;
   }

   inline std::string diffImage( const e57::Image2D &a, const e57::Image2D &b )
   {
      Cmp c;
      c.str( "name", a.name, b.name );
      c.str( "guid", a.guid, b.guid );
      c.str( "description", a.description, b.description );
      c.str( "associatedData3DGuid", a.associatedData3DGuid, b.associatedData3DGuid );
      c.str( "sensorVendor", a.sensorVendor, b.sensorVendor );
      c.str( "sensorModel", a.sensorModel, b.sensorModel );
      c.str( "sensorSerialNumber", a.sensorSerialNumber, b.sensorSerialNumber );
      c.time( "acquisitionDateTime", a.acquisitionDateTime, b.acquisitionDateTime );
      c.pose( a.pose, b.pose );
      const auto rep = [&]( const auto &x, const auto &y ) {
         c.integer( "jpegImageSize", x.jpegImageSize, y.jpegImageSize );
         c.integer( "pngImageSize", x.pngImageSize, y.pngImageSize );
         c.integer( "imageMaskSize", x.imageMaskSize, y.imageMaskSize );
         c.integer( "imageWidth", x.imageWidth, y.imageWidth );
         c.integer( "imageHeight", x.imageHeight, y.imageHeight );
      };
      rep( a.visualReferenceRepresentation, b.visualReferenceRepresentation );
      rep( a.pinholeRepresentation, b.pinholeRepresentation );
      rep( a.sphericalRepresentation, b.sphericalRepresentation );
      rep( a.cylindricalRepresentation, b.cylindricalRepresentation );
      const auto &p = a.pinholeRepresentation, &q = b.pinholeRepresentation;
      c.num( "pinhole focalLength", p.focalLength, q.focalLength );
      c.num( "pinhole pixelWidth", p.pixelWidth, q.pixelWidth );
      c.num( "pinhole pixelHeight", p.pixelHeight, q.pixelHeight );
      c.num( "pinhole principalPointX", p.principalPointX, q.principalPointX );
      c.num( "pinhole principalPointY", p.principalPointY, q.principalPointY );
      c.num( "spherical pixelWidth", a.sphericalRepresentation.pixelWidth, b.sphericalRepresentation.pixelWidth );
      c.num( "spherical pixelHeight", a.sphericalRepresentation.pixelHeight, b.sphericalRepresentation.pixelHeight );
      const auto &u = a.cylindricalRepresentation, &v = b.cylindricalRepresentation;
      c.num( "cylindrical pixelWidth", u.pixelWidth, v.pixelWidth );
      c.num( "cylindrical pixelHeight", u.pixelHeight, v.pixelHeight );
      c.num( "cylindrical radius", u.radius, v.radius );
      c.num( "cylindrical principalPointY", u.principalPointY, v.principalPointY );
      c.integer( "presence of distortion data", !!a.pinholeCameraDistortionExt, !!b.pinholeCameraDistortionExt );
      if ( a.pinholeCameraDistortionExt && b.pinholeCameraDistortionExt )
      {
         const auto &d = *a.pinholeCameraDistortionExt, &e = *b.pinholeCameraDistortionExt;
         c.integer( "cameraNumber", d.cameraNumber, e.cameraNumber );
         c.str( "distortion type", d.type, e.type );
         const double x[] = { d.CV_K1, d.CV_K2, d.CV_K3, d.CV_K4, d.CV_K5, d.CV_K6, d.CV_P1, d.CV_P2, d.CV_CX, d.CV_CY, d.CV_FX, d.CV_FY };
         const double y[] = { e.CV_K1, e.CV_K2, e.CV_K3, e.CV_K4, e.CV_K5, e.CV_K6, e.CV_P1, e.CV_P2, e.CV_CX, e.CV_CY, e.CV_FX, e.CV_FY };
         const char *n[] = { "CV_K1", "CV_K2", "CV_K3", "CV_K4", "CV_K5", "CV_K6", "CV_P1", "CV_P2", "CV_CX", "CV_CY", "CV_FX", "CV_FY" };
         for ( int i = 0; i < 12; ++i )
            c.num( n[i], x[i], y[i] );
         c.integer( "CV_HEIGHT", d.CV_HEIGHT, e.CV_HEIGHT );
         c.integer( "CV_WIDTH", d.CV_WIDTH, e.CV_WIDTH );
      }
      return c.bad;
   }
}
