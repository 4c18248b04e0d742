// Scans and images of the high-level API: drawing, writing and comparing them.
#pragma once

#include "simple.hpp"

#include <cfloat>

namespace VARIANT
{
   using NT = e57::NumericalNodeType;
   using pbt::Prng;
   using pbt::Src;
   using model::genDouble;
   using model::genFloat;
   using model::genInt64;
   using model::genXmlText;

   // ----------------------------------------------------------------- values

   // What the values of a group of fields are taken from
   struct Span
   {
      NT type = NT::Float;
      double lo = 0, hi = 0; // values lie within
      bool any = false;      // any finite value
      double scale = 0;
      bool flt = false;      // values are representable as float
   };

   inline double clampTo( double v, double lo, double hi ) { return v < lo ? lo : v > hi ? hi : v; }

   // S: something with below(n)
   template <class S> inline double drawIn( S &s, const Span &p )
   {
      if ( p.any )
      {
         switch ( s.below( 6 ) )
         {
            case 0: return 0;
            case 1: return static_cast<double>( static_cast<int64_t>( s.below( 2001 ) ) - 1000 );
            case 2: return ( s.below( 2 ) ? 1 : -1 ) * static_cast<double>( static_cast<float>( s.below( 1u << 24 ) ) * 1e-3f );
            case 3: return s.below( 2 ) ? FLT_MAX : -FLT_MIN / 8;
            default: break;
         }
         if ( p.flt )
         {
            float f;
            uint32_t b = static_cast<uint32_t>( s.below( 1ull << 32 ) );
            memcpy( &f, &b, 4 );
            return std::isfinite( f ) ? static_cast<double>( f ) : 1.5;
         }
         double d;
         const uint64_t b = s.below( 1ull << 32 ) << 32 | s.below( 1ull << 32 );
         memcpy( &d, &b, 8 );
         return std::isfinite( d ) ? d : -2.25;
      }
      double v;
      switch ( s.below( 8 ) )
      {
         case 0: v = p.lo; break;
         case 1: v = p.hi; break;
         default:
         {
            const double u = static_cast<double>( s.below( 1ull << 53 ) ) / 9007199254740992.0;
            v = p.lo * ( 1 - u ) + p.hi * u;
         }
      }
      if ( p.type == NT::Integer )
         v = std::floor( v );
      else if ( p.type == NT::ScaledInteger && s.below( 4 ) == 0 )
         v = std::floor( v / p.scale + .5 ) * p.scale + ( s.below( 2 ) ? p.scale / 2 : 0 ); // on a step or between two
      v = clampTo( v, p.lo, p.hi );
      if ( p.flt )
         v = static_cast<float>( v );
      return clampTo( v, p.lo, p.hi );
   }

   inline double drawScale( Src &s )
   {
      switch ( s.below( 6 ) )
      {
         case 0: return 0.001;
         case 1: return 1;
         case 2: return std::ldexp( 1.0, static_cast<int>( s.below( 30 ) ) - 20 );
         case 3: return 1e-6;
         case 4: return 0.1 * static_cast<double>( 1 + s.below( 40 ) );
         default: return 1e-5 + static_cast<double>( s.below( 1000000 ) ) * 1.37e-5;
      }
   }

   // limits of a group of fields. Steps: what one unit means
   inline void drawLimits( Src &s, double unit, unsigned maxBits, bool integer, bool flt, double &lo, double &hi )
   {
      const auto num = [&] {
         const unsigned bits = 1 + static_cast<unsigned>( s.below( maxBits ) );
         double v = static_cast<double>( s.below( 1ull << bits ) );
         if ( !integer && s.flip() )
            v += static_cast<double>( s.below( 1000 ) ) / 1000;
         v *= unit;
         return flt ? static_cast<double>( static_cast<float>( v ) ) : v;
      };
      switch ( s.below( 5 ) )
      {
         case 0: // around zero
            lo = -num();
            hi = num();
            break;
         case 1: // zero is the lower end
            lo = 0;
            hi = num();
            break;
         case 2: // positive
            lo = num();
            hi = num();
            break;
         case 3: // negative
            lo = -num();
            hi = -num();
            break;
         default: // a single value
            lo = hi = s.flip() ? num() : -num();
      }
      if ( lo > hi )
         std::swap( lo, hi );
   }

   // ------------------------------------------------------------------- scans

   struct Scan
   {
      e57::Data3D head;
      bool dbl = false;
      uint64_t mask = 0;
      size_t n = 0;
      std::vector<double> v[PFCount];
      bool once = true;   // handed over by one call
      bool own = false;   // in buffers made by the library
      size_t cap = 1;     // capacity of the buffers otherwise
      uint64_t spare = 0; // further buffers that are given though the scan has no such field
      uint64_t seed = 0;  // of the batch sizes
      Span span[4];       // coordinates, angles, time, intensity

      std::string show() const;
   };

   inline unsigned spanOf( unsigned f )
   {
      if ( f <= CartZ || f == SphR )
         return 0;
      if ( f == SphA || f == SphE )
         return 1;
      return f == Time ? 2 : f == Inten ? 3 : 4;
   }
   inline const char *ntName( NT t )
   {
      return t == NT::Integer ? "Integer" : t == NT::ScaledInteger ? "Scaled" : t == NT::Float ? "Float" : "Double";
   }

   inline std::string Scan::show() const
   {
      std::string o = pbt::sprintf_( "%zu points %s %s%s cap=%zu {", n, dbl ? "double" : "float", once ? "at once" : "in batches",
                                     own ? " own buffers" : "", cap );
      const auto &p = head.pointFields;
      for ( unsigned f = 0; f < PFCount; ++f )
         if ( mask >> f & 1 )
            o += std::string( " " ) + pfName( f );
      o += pbt::sprintf_( " } coord %s [%.17g,%.17g]/%g angle %s [%.17g,%.17g]/%g time %s [%.17g,%.17g]/%g int %s [%.17g,%.17g]/%g",
                          ntName( p.pointRangeNodeType ), p.pointRangeMinimum, p.pointRangeMaximum, p.pointRangeScale,
                          ntName( p.angleNodeType ), p.angleMinimum, p.angleMaximum, p.angleScale, ntName( p.timeNodeType ),
                          p.timeMinimum, p.timeMaximum, p.timeScale, ntName( p.intensityNodeType ), head.intensityLimits.intensityMinimum,
                          head.intensityLimits.intensityMaximum, p.intensityScale );
      o += pbt::sprintf_( " rgb [%g,%g][%g,%g][%g,%g] row<=%u col<=%u ret<=%u spare=%llx\n", head.colorLimits.colorRedMinimum,
                          head.colorLimits.colorRedMaximum, head.colorLimits.colorGreenMinimum, head.colorLimits.colorGreenMaximum,
                          head.colorLimits.colorBlueMinimum, head.colorLimits.colorBlueMaximum, p.rowIndexMaximum, p.columnIndexMaximum,
                          p.returnMaximum, (unsigned long long)spare );
      for ( size_t i = 0; i < std::min<size_t>( n, 4 ); ++i )
      {
         o += "  point";
         for ( unsigned f = 0; f < PFCount; ++f )
            if ( mask >> f & 1 )
               o += pbt::sprintf_( " %.17g", v[f][i] );
         o += "\n";
      }
      return o;
   }

   struct ScanOpts
   {
      size_t maxPoints = 60;
      bool large = false; // more points than 16 bits count
      bool autoLimits = false; // leave limits of scaled fields unset
   };

   inline uint64_t drawFields( Src &s )
   {
      uint64_t m = 0;
      switch ( s.below( 6 ) )
      {
         case 0: m = 1ull << s.below( PFCount ); break;
         case 1: m = ( 1ull << PFCount ) - 1; break;
         case 2: m = s.below( 1ull << PFCount ); break;
         case 3: m = 7 | s.below( 1ull << PFCount ); break;
         case 4: m = 7ull << SphR | s.below( 1ull << PFCount ); break;
         default: m = 7 | ( s.flip() ? 1ull << Inten : 0 ) | ( s.flip() ? 7ull << Red : 0 ); break;
      }
      return m ? m : 1;
   }

   inline Scan drawScan( Src &s, const ScanOpts &o )
   {
      Scan c;
      c.dbl = s.flip();
      c.mask = drawFields( s );
      auto &p = c.head.pointFields;
      for ( unsigned f = 0; f < PFCount; ++f )
         pfFlag( p, f ) = c.mask >> f & 1;

      // whether limits are set: 0 neither, 1 both (2, 3 only one of them, where they are derived)
      for ( unsigned g = 0; g < 4; ++g )
      {
         Span &sp = c.span[g];
         sp.type = static_cast<NT>( o.autoLimits && s.flip() ? 1 : g < 2 ? 1 + s.below( 3 ) : s.below( 4 ) );
         sp.flt = ( g < 2 && !c.dbl );
         sp.scale = sp.type == NT::ScaledInteger ? drawScale( s ) : 0;
         const bool integer = sp.type == NT::Integer, single = sp.type == NT::Float;
         bool set = sp.type == NT::Integer || sp.type == NT::ScaledInteger || s.flip();
         if ( g == 3 && !set && s.flip() )
            set = true;
         if ( set )
         {
            if ( integer )
               drawLimits( s, 1, 50, true, false, sp.lo, sp.hi );
            else if ( sp.type == NT::ScaledInteger )
               drawLimits( s, sp.scale, s.chance( 1, 8 ) ? 48 : 30, false, sp.flt, sp.lo, sp.hi );
            else
               drawLimits( s, single || sp.flt ? 1e-3f : 1e-7, 40, false, single || sp.flt, sp.lo, sp.hi );
         }
         else
         {
            sp.any = true;
            if ( single )
               sp.flt = true;
         }
         if ( single && !sp.flt && s.flip() )
            sp.flt = true; // otherwise rounded when stored
         double mn = sp.lo, mx = sp.hi;
         if ( o.autoLimits && sp.type == NT::ScaledInteger && g != 3 )
         {
            const unsigned how = static_cast<unsigned>( s.weighted( { 5, 2, 1, 1 } ) );
            if ( how == 0 || how == 2 )
               mx = e57::DOUBLE_MAX;
            if ( how == 0 || how == 3 )
               mn = e57::DOUBLE_MIN;
            set = true;
         }
         if ( g == 0 )
         {
            p.pointRangeNodeType = sp.type;
            p.pointRangeScale = sp.scale;
            if ( set )
               p.pointRangeMinimum = mn, p.pointRangeMaximum = mx;
         }
         else if ( g == 1 )
         {
            p.angleNodeType = sp.type;
            p.angleScale = sp.scale;
            if ( set )
               p.angleMinimum = mn, p.angleMaximum = mx;
         }
         else if ( g == 2 )
         {
            p.timeNodeType = sp.type;
            p.timeScale = sp.scale;
            if ( set )
               p.timeMinimum = mn, p.timeMaximum = mx;
         }
         else
         {
            p.intensityNodeType = sp.type;
            p.intensityScale = sp.scale;
            if ( set )
               c.head.intensityLimits.intensityMinimum = mn, c.head.intensityLimits.intensityMaximum = mx;
         }
      }
      double *rgb[3][2] = { { &c.head.colorLimits.colorRedMinimum, &c.head.colorLimits.colorRedMaximum },
                            { &c.head.colorLimits.colorGreenMinimum, &c.head.colorLimits.colorGreenMaximum },
                            { &c.head.colorLimits.colorBlueMinimum, &c.head.colorLimits.colorBlueMaximum } };
      double lo = 0, hi = 255;
      for ( int k = 0; k < 3; ++k )
      {
         if ( k == 0 || s.chance( 1, 3 ) )
            switch ( s.below( 5 ) )
            {
               case 0: lo = 0, hi = 255; break;
               case 1: lo = 0, hi = 65535; break;
               case 2: lo = static_cast<double>( s.below( 65536 ) ), hi = lo + static_cast<double>( s.below( 65536 - static_cast<uint64_t>( lo ) ) ); break;
               case 3: lo = -static_cast<double>( s.below( 1000 ) ), hi = static_cast<double>( s.below( 200000 ) ); break;
               default: lo = 0, hi = static_cast<double>( s.below( 5 ) ); break;
            }
         *rgb[k][0] = lo;
         *rgb[k][1] = hi;
      }
      if ( s.flip() )
         p.rowIndexMaximum = static_cast<uint32_t>( s.flip() ? s.below( 1ull << 32 ) : s.below( 300 ) );
      if ( s.flip() )
         p.columnIndexMaximum = static_cast<uint32_t>( s.flip() ? s.below( 1ull << 32 ) : s.below( 300 ) );
      if ( s.flip() )
         p.returnMaximum = static_cast<uint8_t>( s.below( 256 ) );

      c.n = s.chance( 1, 12 ) ? 0 : s.chance( 1, 10 ) && o.maxPoints > 60 ? s.below( o.maxPoints ) : s.geom( 12, std::min<size_t>( o.maxPoints, 60 ) );
      if ( o.large )
         c.n = 65500 + s.below( 10000 );
      c.head.pointCount = c.n;
      c.once = s.flip();
      c.own = c.once && s.flip();
      c.cap = c.once ? c.n : 1 + s.below( c.n + 3 );
      if ( o.large )
         c.cap = std::max<size_t>( c.cap, 1000 );
      c.spare = c.own ? 0 : s.flip() ? 0 : s.below( 1ull << PFCount );
      c.seed = s.bits();

      Prng r( s.bits() );
      const auto draw = [&]( auto &src, unsigned f ) -> double {
         if ( spanOf( f ) < 4 )
            return drawIn( src, c.span[spanOf( f )] );
         if ( isFlag( f ) )
            return static_cast<double>( src.below( f == CartInv || f == SphInv ? 3 : 2 ) );
         if ( isNormal( f ) )
            return static_cast<float>( static_cast<double>( src.below( 2000001 ) ) / 1e6 - 1 );
         Span q;
         q.type = NT::Integer;
         if ( f >= Red && f <= Blue )
            q.lo = std::max( 0.0, *rgb[f - Red][0] ), q.hi = std::min( 65535.0, *rgb[f - Red][1] );
         else if ( f == Row || f == Column )
            q.hi = std::min<double>( INT32_MAX, f == Row ? p.rowIndexMaximum : p.columnIndexMaximum );
         else
            q.hi = std::min<double>( 127, p.returnMaximum );
         return drawIn( src, q );
      };
      for ( unsigned f = 0; f < PFCount; ++f )
         if ( c.mask >> f & 1 )
            for ( size_t i = 0; i < c.n; ++i )
               c.v[f].push_back( i < 3 && c.n <= 8 ? draw( s, f ) : draw( r, f ) );
      return c;
   }

   // Writes the points; head: in: the header, out: what the library made of it
   template <typename C> inline int64_t putScan( e57::Writer &w, const Scan &c, e57::Data3D &head )
   {
      const auto fill = [&]( PointBufs<C> &b, size_t from, size_t k ) {
         for ( unsigned f = 0; f < PFCount; ++f )
            if ( c.mask >> f & 1 )
               for ( size_t i = 0; i < k; ++i )
                  b.set( f, i, c.v[f][from + i] );
      };
      if ( c.once )
      {
         PointBufs<C> b( c.n, c.mask | c.spare );
         fill( b, 0, c.n );
         if ( !c.own )
            return w.WriteData3DData( head, b.d );
         const e57::PointStandardizedFieldsAvailable set = head.pointFields;
         e57::Data3DPointsData_t<C> d( head );
         auto &p = head.pointFields;
         // (the constructor may touch limits that were set: set them again)
         const auto again = []( double &lim, double was ) {
            if ( was != e57::DOUBLE_MIN && was != e57::DOUBLE_MAX )
               lim = was;
         };
         if ( c.seed & 1 )
         {
            again( p.pointRangeMinimum, set.pointRangeMinimum );
            again( p.pointRangeMaximum, set.pointRangeMaximum );
            again( p.angleMinimum, set.angleMinimum );
            again( p.angleMaximum, set.angleMaximum );
            again( p.timeMinimum, set.timeMinimum );
            again( p.timeMaximum, set.timeMaximum );
         }
         const auto copy = [&]( auto *to, unsigned f ) {
            if ( ( to != nullptr ) != ( c.mask >> f & 1 ) )
               pbt::fail( std::string( "buffer made for " ) + pfName( f ) + " is wrong" );
            if ( to && c.n )
               memcpy( to, b.mem[f].get(), c.n * sizeof( *to ) );
         };
         copy( d.cartesianX, CartX ), copy( d.cartesianY, CartY ), copy( d.cartesianZ, CartZ );
         copy( d.cartesianInvalidState, CartInv ), copy( d.intensity, Inten ), copy( d.isIntensityInvalid, IntenInv );
         copy( d.colorRed, Red ), copy( d.colorGreen, Green ), copy( d.colorBlue, Blue ), copy( d.isColorInvalid, ColInv );
         copy( d.sphericalRange, SphR ), copy( d.sphericalAzimuth, SphA ), copy( d.sphericalElevation, SphE );
         copy( d.sphericalInvalidState, SphInv ), copy( d.rowIndex, Row ), copy( d.columnIndex, Column );
         copy( d.returnIndex, RetIdx ), copy( d.returnCount, RetCnt ), copy( d.timeStamp, Time );
         copy( d.isTimeStampInvalid, TimeInv ), copy( d.normalX, NorX ), copy( d.normalY, NorY ), copy( d.normalZ, NorZ );
         return w.WriteData3DData( head, d );
      }
      const int64_t at = w.NewData3D( head );
      PointBufs<C> b( c.cap, c.mask | c.spare );
      e57::CompressedVectorWriter cw = w.SetUpData3DPointsData( at, c.cap, b.d );
      Prng p( c.seed );
      for ( size_t i = 0; i < c.n; )
      {
         const size_t k = std::min( c.n - i, p.below( 4 ) ? c.cap : p.below( c.cap + 1 ) );
         fill( b, i, k );
         tick();
         cw.write( k );
         i += k;
      }
      cw.close();
      return at;
   }
   inline int64_t putScan( e57::Writer &w, const Scan &c, e57::Data3D &head )
   {
      return c.dbl ? putScan<double>( w, c, head ) : putScan<float>( w, c, head );
   }

   // "" if `got` is what storing `v` in field f gives. head: as written
   inline std::string wrongValue( const e57::Data3D &head, unsigned f, double v, double got, bool readDbl )
   {
      NT t = NT::Integer;
      double scale = 0;
      const auto &p = head.pointFields;
      switch ( spanOf( f ) )
      {
         case 0: t = p.pointRangeNodeType, scale = p.pointRangeScale; break;
         case 1: t = p.angleNodeType, scale = p.angleScale; break;
         case 2: t = p.timeNodeType, scale = p.timeScale; break;
         case 3: t = p.intensityNodeType, scale = p.intensityScale; break;
         default: break;
      }
      const bool fltBuf = isCoord( f ) && !readDbl;
      if ( t == NT::ScaledInteger )
      {
         const double big = std::max( std::fabs( v ), std::fabs( got ) ); // (for rounding)
         const long double tol = static_cast<long double>( scale ) / 2 + 3 * DBL_EPSILON * big + ( fltBuf ? big * 6.0e-8 + 1e-45 : 0 );
         if ( std::fabs( static_cast<long double>( got ) - v ) <= tol )
            return "";
      }
      else
      {
         double want = t == NT::Float ? static_cast<double>( static_cast<float>( v ) ) : v;
         if ( fltBuf )
            want = static_cast<float>( want );
         if ( want == got )
            return "";
      }
      return pbt::sprintf_( "%s: %.17g was read as %.17g", pfName( f ), v, got );
   }

   // Reads the points back and compares
   template <typename C>
   inline void checkPoints( const e57::Reader &r, int64_t at, const Scan &c, const e57::Data3D &head, size_t cap, uint64_t fields,
                            uint64_t seed )
   {
      PointBufs<C> b( cap, fields );
      e57::CompressedVectorReader cr = r.SetUpData3DPointsData( at, cap, b.d );
      Prng p( seed );
      size_t i = 0;
      for ( ;; )
      {
         b.wipe();
         const size_t k = cr.read();
         if ( k > cap || i + k > c.n )
            pbt::fail( pbt::sprintf_( "read() returns %zu after %zu of %zu points (capacity %zu)", k, i, c.n, cap ) );
         if ( k < cap && i + k < c.n )
            pbt::fail( pbt::sprintf_( "read() returns only %zu after %zu of %zu points (capacity %zu)", k, i, c.n, cap ) );
         for ( unsigned f = 0; f < PFCount; ++f )
         {
            if ( !b.has( f ) )
               continue;
            if ( !b.untouched( f, c.mask >> f & 1 ? k : 0 ) )
               pbt::fail( pbt::sprintf_( "the buffer of %s was changed beyond the points read", pfName( f ) ) );
            if ( c.mask >> f & 1 )
               for ( size_t j = 0; j < k; ++j )
               {
                  const std::string e = wrongValue( head, f, c.v[f][i + j], b.get( f, j ), sizeof( C ) == 8 );
                  if ( !e.empty() )
                     pbt::fail( pbt::sprintf_( "point %zu, ", i + j ) + e );
               }
         }
         i += k;
         if ( k == 0 )
            break;
      }
      if ( i != c.n )
         pbt::fail( pbt::sprintf_( "%zu of %zu points read", i, c.n ) );
      cr.close();
   }
}
