// Sessions of the high-level API that can be performed several times, and what a file
// presents through that API.
#pragma once

#include "heads.hpp"

namespace VARIANT
{
   struct HighSession
   {
      e57::WriterOptions opt;
      std::vector<Scan> scans;
      std::vector<Image> images;
      uint64_t order = 0; // of scans and images

      void build( e57::Writer &w ) const
      {
         Prng p( order );
         size_t i = 0, j = 0;
         while ( i < scans.size() || j < images.size() )
         {
            tick();
            if ( j == images.size() || ( i < scans.size() && p.below( 2 ) ) )
            {
               e57::Data3D h = scans[i].head;
               putScan( w, scans[i], h );
               ++i;
            }
            else
               putImage( w, images[j++], p );
         }
      }
      static void putImage( e57::Writer &w, const Image &im, Prng &p )
      {
         e57::Image2D h;
         copyHead( h, im.head );
         const int64_t at = w.NewImage2D( h );
         tick();
         for ( int k = 1; k < 5; ++k )
            for ( int mask = 0; mask < 2; ++mask )
            {
               std::vector<uint8_t> d = mask ? im.rep[k].mask : im.rep[k].data;
               for ( size_t from = 0; from < d.size(); )
               {
                  const size_t n = p.below( 3 ) ? d.size() - from : 1 + p.below( d.size() - from );
                  w.WriteImage2DData( at, mask ? e57::ImageMaskPNG : static_cast<Image2DType>( im.rep[k].type ), static_cast<Image2DProjection>( k ),
                                      d.data() + from, static_cast<int64_t>( from ), static_cast<int64_t>( n ) );
                  from += n;
               }
            }
      }
      void write( const std::string &path ) const
      {
         e57::Writer w( path, opt );
         build( w );
         tick();
         w.Close();
      }
      std::string show() const
      {
         std::string o = "high-level session\n";
         for ( auto &c : scans )
            o += c.show();
         for ( auto &i : images )
            o += i.show();
         return o;
      }
   };

   // all identifiers are given
   inline HighSession drawHigh( Src &s, size_t maxPoints, size_t maxBytes )
   {
      HighSession h;
      h.opt.guid = "file";
      if ( s.chance( 1, 3 ) )
         h.opt.coordinateMetadata = text( s );
      ScanOpts o;
      o.maxPoints = maxPoints;
      o.autoLimits = s.flip();
      const size_t n = s.below( 3 ), m = s.below( n ? 2 : 3 );
      for ( size_t i = 0; i < n; ++i )
      {
         h.scans.push_back( drawScan( s, o ) );
         Scan &c = h.scans.back();
         if ( o.autoLimits )
            c.once = true;
         if ( s.flip() )
            drawHead( s, c.head, c );
         c.head.guid = pbt::sprintf_( "scan %zu", i );
      }
      for ( size_t i = 0; i < m; ++i )
      {
         h.images.push_back( drawImage( s, maxBytes ) );
         h.images.back().head.guid = pbt::sprintf_( "image %zu", i );
      }
      h.order = s.bits();
      return h;
   }

   // What a file presents through a reader; errors are part of it
   template <typename C> inline std::string dumpHigh( const e57::Reader &r, size_t &errors )
   {
      std::string out;
      const auto say = [&]( const std::string &t ) { out += t + "\n"; };
      const auto call = [&]( const char *n, auto f ) {
         try
         {
            f();
         }
         catch ( const e57::E57Exception &e )
         {
            ++errors;
            say( std::string( n ) + ": error " + what( e ).substr( 0, 16 ) );
         }
      };
      call( "root", [&] {
         e57::E57Root root;
         r.GetE57Root( root );
         say( root.guid + "|" + root.coordinateMetadata + pbt::sprintf_( "|%lld|%lld", (long long)root.data3DSize, (long long)root.images2DSize ) );
      } );
      int64_t scans = 0, images = 0;
      call( "counts", [&] { scans = r.GetData3DCount(), images = r.GetImage2DCount(); } );
      for ( int64_t i = 0; i < scans; ++i )
      {
         e57::Data3D h;
         call( "header", [&] {
            r.ReadData3D( i, h );
            say( h.guid + "|" + h.name + "|" + h.description + "|" + h.sensorModel +
                 pbt::sprintf_( "|%g %g|%g..%g|%zu", h.pose.rotation.w, h.acquisitionStart.dateTimeValue, h.cartesianBounds.xMinimum, h.cartesianBounds.zMaximum,
                                h.pointCount ) );
         } );
         call( "points", [&] {
            if ( h.pointCount == 0 )
               return;
            uint64_t mask = 0;
            for ( unsigned f = 0; f < PFCount; ++f )
               mask |= static_cast<uint64_t>( pfFlag( h.pointFields, f ) ) << f;
            PointBufs<C> b( 37, mask );
            e57::CompressedVectorReader cr = r.SetUpData3DPointsData( i, 37, b.d );
            size_t total = 0;
            while ( const size_t k = cr.read() )
            {
               for ( unsigned f = 0; f < PFCount; ++f )
                  if ( mask >> f & 1 )
                  {
                     uint64_t sum = 0;
                     for ( size_t j = 0; j < k; ++j )
                     {
                        const double v = b.get( f, j );
                        uint64_t bits;
                        memcpy( &bits, &v, 8 );
                        sum = sum * 0x9E3779B97F4A7C15ull + bits;
                     }
                     say( pbt::sprintf_( "%s %zu+%zu: %llx", pfName( f ), total, k, (unsigned long long)sum ) );
                  }
               total += k;
            }
            cr.close();
         } );
      }
      for ( int64_t i = 0; i < images; ++i )
      {
         e57::Image2D h;
         Image2DProjection proj;
         Image2DType type, mask, visual;
         int64_t width = 0, height = 0, size = 0;
         call( "image", [&] {
            r.ReadImage2D( i, h );
            say( h.guid + "|" + h.name + "|" + h.associatedData3DGuid + pbt::sprintf_( "|%g|%d", h.pose.translation.x, !!h.pinholeCameraDistortionExt ) );
         } );
         call( "sizes", [&] {
            if ( r.GetImage2DSizes( i, proj, type, width, height, size, mask, visual ) )
               say( pbt::sprintf_( "%d %d %lld x %lld %lld %d %d", proj, type, (long long)width, (long long)height, (long long)size, mask, visual ) );
         } );
         for ( int p = 1; p < 5; ++p )
            for ( int t = 1; t < 4; ++t )
               call( "data", [&] {
                  int64_t bytes = 0;
                  const auto of = [&]( const auto &rep ) { bytes = t == 1 ? rep.jpegImageSize : t == 2 ? rep.pngImageSize : rep.imageMaskSize; };
                  p == 1 ? of( h.visualReferenceRepresentation )
                         : p == 2 ? of( h.pinholeRepresentation ) : p == 3 ? of( h.sphericalRepresentation ) : of( h.cylindricalRepresentation );
                  if ( bytes <= 0 )
                     return;
                  std::vector<uint8_t> d( static_cast<size_t>( bytes ) );
                  const int64_t n = r.ReadImage2DData( i, static_cast<Image2DProjection>( p ), static_cast<Image2DType>( t ), d.data(), 0, bytes );
                  uint64_t sum = 0;
                  for ( uint8_t c : d )
                     sum = sum * 0x9E3779B97F4A7C15ull + c;
                  say( pbt::sprintf_( "projection %d type %d: %lld bytes %llx", p, t, (long long)n, (unsigned long long)sum ) );
               } );
      }
      return out;
   }
}
