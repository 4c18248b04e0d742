// C03, C04: what happens to one value on its way between memory and file
#include "lib.hpp"

#include <set>

using namespace VARIANT;
using namespace model;
using pbt::Ctx;
using pbt::fail;
using pbt::failKey;
using pbt::Src;

namespace
{
   struct Val // a memory value
   {
      int64_t i = 0;
      double d = 0;
      std::string s;
   };

   // What a transfer may do. ok: the result lies in [lo,hi]; errs: errors allowed.
   struct Exp
   {
      bool ok = false;
      bool isReal = false, isStr = false;
      int64_t lo = 0, hi = 0;      // integers
      long double dlo = 0, dhi = 0; // reals
      bool nan = false;
      std::string s;
      std::set<int> errs;
      bool floatBounds = false; // refused only because of the bounds of a float field
   };

   const long double two63 = 9223372036854775808.0L;

   bool isFloatMem( MT m ) { return m == F32 || m == F64; }

   // keeps of [lo,hi] (long double, integral) what fits [mn,mx]; adds err if something was cut off
   void clampInt( Exp &e, long double lo, long double hi, long double mn, long double mx, int err )
   {
      if ( lo < mn || hi > mx )
         e.errs.insert( err );
      lo = std::max( lo, mn );
      hi = std::min( hi, mx );
      if ( lo <= hi )
      {
         e.ok = true;
         e.lo = static_cast<int64_t>( lo );
         e.hi = static_cast<int64_t>( hi );
      }
      else
         e.ok = false;
   }

   void intoFloat( Exp &e, long double lo, long double hi, bool single, int err )
   {
      e.isReal = true;
      if ( !single )
      {
         e.ok = true;
         e.dlo = lo;
         e.dhi = hi;
         return;
      }
      const long double fm = FLT_MAX;
      const long double slack = fm * ( 1 + 1.0L / ( 1 << 23 ) );
      if ( lo < -fm || hi > fm )
         e.errs.insert( err );
      if ( hi < -slack || lo > slack )
         return; // certainly too large
      e.ok = true;
      auto half = []( long double x ) { return fabsl( x ) / ( 1 << 24 ) + ldexpl( 1, -150 ); };
      e.dlo = lo - half( lo );
      e.dhi = hi + half( hi );
   }

   // model of writing memory value v of type m to a field
   Exp expectWrite( const MN &f, MT m, bool conv, bool scl, const Val &v )
   {
      Exp e;
      if ( f.t == T::Str )
      {
         if ( m == STR )
         {
            e.ok = e.isStr = true;
            e.s = v.s;
         }
         else
            e.errs = { e57::ErrorExpectingUString };
         return e;
      }
      if ( m == STR )
      {
         e.errs = { e57::ErrorExpectingNumeric };
         return e;
      }
      const bool fm = isFloatMem( m );
      if ( f.t == T::Flt )
      {
         if ( !fm && !conv )
         {
            e.errs = { e57::ErrorConversionRequired };
            return e;
         }
         e.isReal = true;
         const double x = fm ? v.d : static_cast<double>( v.i );
         if ( std::isnan( x ) )
         {
            e.ok = e.nan = true;
            return e;
         }
         if ( std::isinf( x ) )
         {
            e.ok = true;
            e.dlo = e.dhi = x;
            if ( m == F64 && f.single )
               e.errs.insert( e57::ErrorReal64TooLarge );
         }
         else if ( fm )
            intoFloat( e, v.d, v.d, f.single && m == F64, e57::ErrorReal64TooLarge );
         else
         {
            // nearest value of the precision of the field
            e.ok = true;
            const long double half =
               f.single ? fabsl( static_cast<long double>( v.i ) ) / ( 1 << 24 ) : fabsl( static_cast<long double>( v.i ) ) / ( 1LL << 53 );
            e.dlo = v.i - half;
            e.dhi = v.i + half;
         }
         const bool narrow = f.single ? f.dmn > -FLT_MAX || f.dmx < FLT_MAX : f.dmn > -DBL_MAX || f.dmx < DBL_MAX;
         if ( narrow && ( x < f.dmn || x > f.dmx ) )
         {
            e.errs.insert( e57::ErrorValueOutOfBounds );
            e.floatBounds = e.ok;
         }
         return e;
      }
      const bool scaling = scl && f.t == T::SInt;
      if ( fm && !conv )
         e.errs.insert( e57::ErrorConversionRequired );
      if ( m == BO && !conv )
         e.errs.insert( e57::ErrorConversionRequired );
      if ( fm && !conv )
         return e;
      if ( m == BO && !conv && !scaling )
         return e;
      long double lo, hi;
      if ( scaling )
      {
         const long double x = fm ? static_cast<long double>( v.d ) : static_cast<long double>( v.i );
         if ( std::isnan( v.d ) && fm )
         {
            e.errs.insert( e57::ErrorScaledValueNotRepresentable );
            return e;
         }
         const long double exact = ( x - f.off ) / f.scale;
         const long double tol = ldexpl( 1, -51 ) * ( fabsl( exact ) + ( fabsl( x ) + fabsl( f.off ) ) / fabsl( f.scale ) );
         if ( !std::isfinite( exact ) || !std::isfinite( tol ) )
         {
            e.errs = { e57::ErrorScaledValueNotRepresentable };
            return e;
         }
         lo = floorl( exact - tol + 0.5L );
         hi = floorl( exact + tol + 0.5L );
         // intermediate results too large for a double
         if ( fabsl( x ) + fabsl( f.off ) > DBL_MAX || fabsl( exact ) > DBL_MAX )
            e.errs.insert( e57::ErrorScaledValueNotRepresentable );
         if ( hi >= two63 || lo < -two63 )
            e.errs.insert( e57::ErrorScaledValueNotRepresentable );
      }
      else if ( fm )
      {
         if ( !std::isfinite( v.d ) || v.d >= 9223372036854775808.0 || v.d < -9223372036854775808.0 )
         {
            e.errs = { e57::ErrorValueNotRepresentable };
            return e;
         }
         lo = hi = truncl( v.d );
      }
      else
         lo = hi = v.i;
      const std::set<int> before = e.errs;
      clampInt( e, lo, hi, f.mn, f.mx, e57::ErrorValueOutOfBounds );
      return e;
   }

   Exp expectRead( const MN &f, MT m, bool conv, bool scl, const Val &raw )
   {
      Exp e;
      if ( f.t == T::Str )
      {
         if ( m == STR )
         {
            e.ok = e.isStr = true;
            e.s = raw.s;
         }
         else
            e.errs = { e57::ErrorExpectingUString };
         return e;
      }
      if ( m == STR )
      {
         e.errs = { e57::ErrorExpectingNumeric };
         return e;
      }
      const bool fm = isFloatMem( m );
      if ( f.t == T::Flt )
      {
         if ( !fm && !conv )
         {
            e.errs = { e57::ErrorConversionRequired };
            return e;
         }
         const double x = raw.d;
         if ( fm )
         {
            e.isReal = true;
            if ( std::isnan( x ) )
               e.ok = e.nan = true;
            else if ( std::isinf( x ) )
            {
               e.ok = true;
               e.dlo = e.dhi = x;
               if ( m == F32 && !f.single )
                  e.errs.insert( e57::ErrorValueNotRepresentable );
            }
            else
               intoFloat( e, x, x, m == F32 && !f.single, e57::ErrorValueNotRepresentable );
            return e;
         }
         if ( m == BO )
         {
            e.ok = true;
            e.lo = x != 0;
            e.hi = e.lo;
            if ( !std::isfinite( x ) )
               e.errs.insert( e57::ErrorValueNotRepresentable );
            return e;
         }
         if ( !std::isfinite( x ) )
         {
            e.errs = { e57::ErrorValueNotRepresentable };
            return e;
         }
         const long double t = truncl( x );
         clampInt( e, t, t, mtMin( m ), mtMax( m ), e57::ErrorValueNotRepresentable );
         if ( x > mtMax( m ) || x < mtMin( m ) )
            e.errs.insert( e57::ErrorValueNotRepresentable ); // 127.5 may be refused
         return e;
      }
      const bool scaling = scl && f.t == T::SInt;
      if ( fm && !conv )
      {
         e.errs = { e57::ErrorConversionRequired };
         return e;
      }
      if ( m == BO && !conv )
         e.errs.insert( e57::ErrorConversionRequired );
      if ( !scaling )
      {
         if ( fm )
         {
            e.ok = e.isReal = true;
            const long double x = raw.i;
            const long double half = m == F32 ? fabsl( x ) / ( 1 << 24 ) : fabsl( x ) / ( 1LL << 53 );
            e.dlo = x - half;
            e.dhi = x + half;
         }
         else if ( m == BO )
         {
            e.ok = true;
            e.lo = e.hi = raw.i != 0;
         }
         else
            clampInt( e, raw.i, raw.i, mtMin( m ), mtMax( m ), e57::ErrorValueNotRepresentable );
         return e;
      }
      const long double prod = static_cast<long double>( raw.i ) * f.scale;
      const long double exact = prod + f.off;
      const long double tol = ldexpl( 1, -51 ) * ( fabsl( prod ) + fabsl( f.off ) ) + ldexpl( 1, -1070 );
      const bool huge = fabsl( prod ) + tol > DBL_MAX || fabsl( exact ) + tol > DBL_MAX;
      if ( fm )
      {
         e.isReal = true;
         if ( huge )
         {
            e.errs.insert( e57::ErrorScaledValueNotRepresentable );
            if ( m == F64 )
            {
               // the formula overflows to infinity in a double
               e.ok = true;
               e.dlo = -INFINITY;
               e.dhi = INFINITY;
            }
         }
         else
            intoFloat( e, exact - tol, exact + tol, m == F32, e57::ErrorScaledValueNotRepresentable );
         return e;
      }
      const long double lo = floorl( exact - tol + 0.5L ), hi = floorl( exact + tol + 0.5L );
      if ( m == BO )
      {
         e.ok = true;
         e.lo = 0;
         e.hi = 1;
         if ( exact == 0 && lo == 0 && hi == 0 )
            e.hi = 0;
         if ( lo > 0 || hi < 0 )
            e.lo = 1;
         return e;
      }
      clampInt( e, lo, hi, mtMin( m ), mtMax( m ), e57::ErrorScaledValueNotRepresentable );
      if ( huge )
         e.errs.insert( e57::ErrorScaledValueNotRepresentable );
      return e;
   }

   std::string showExp( const Exp &e )
   {
      std::string o;
      if ( e.ok )
         o = e.isStr ? showStr( e.s )
             : e.isReal
                ? ( e.nan ? std::string( "NaN" )
                          : pbt::sprintf_( "[%.21Lg,%.21Lg]", e.dlo, e.dhi ) )
                : pbt::sprintf_( "[%lld,%lld]", (long long)e.lo, (long long)e.hi );
      for ( int x : e.errs )
         o += pbt::sprintf_( " or error %d", x );
      return o;
   }

   std::string checkVal( const Exp &e, const MN &f, const Val &got )
   {
      if ( e.isStr )
         return got.s == e.s ? "" : "got " + showStr( got.s );
      if ( e.isReal )
      {
         if ( e.nan )
            return std::isnan( got.d ) ? "" : "got " + showNum( got.d );
         if ( std::isinf( got.d ) && std::isfinite( static_cast<double>( e.dlo ) ) )
            return "got " + showNum( got.d );
         return got.d >= e.dlo && got.d <= e.dhi ? "" : "got " + showNum( got.d );
      }
      return got.i >= e.lo && got.i <= e.hi ? "" : pbt::sprintf_( "got %lld", (long long)got.i );
   }

   std::string showVal( MT m, const Val &v )
   {
      return m == STR ? showStr( v.s ) : isFloatMem( m ) ? showNum( v.d ) : std::to_string( v.i );
   }

   // ---------------------------------------------------------------- generators

   double finiteScale( Src &s )
   {
      switch ( s.weighted( { 4, 3, 2, 2, 1 } ) )
      {
         case 0:
            return s.pick( { 1.0, 0.001, 0.1, 0.01, 1e-6, 2.0, 10.0, 0.5 } );
         case 1:
            return std::ldexp( 1.0, static_cast<int>( s.range( -20, 20 ) ) );
         case 2:
            return -s.pick( { 1.0, 0.001, 0.25, 3.0 } );
         case 3:
         {
            // moderate random
            const double x = std::ldexp( 1.0 + s.below( 1u << 20 ) / 1048576.0, static_cast<int>( s.range( -30, 30 ) ) );
            return s.flip() ? -x : x;
         }
         default:
         {
            double x = genDouble( s );
            return x == 0 ? 1.0 : x;
         }
      }
   }
   double finiteOffset( Src &s )
   {
      switch ( s.weighted( { 4, 3, 2, 1 } ) )
      {
         case 0:
            return 0;
         case 1:
            return s.pick( { 1.0, -1.0, 0.5, -0.5, 100.25, -1000.0, 1e6 } );
         case 2:
            return static_cast<double>( s.range( -1000000, 1000000 ) ) / 64.0;
         default:
            return genDouble( s );
      }
   }

   MN genField( Src &s, bool scaling )
   {
      MN f;
      const size_t k = scaling ? ( s.chance( 1, 5 ) ? s.below( 4 ) : 1 ) : s.weighted( { 4, 3, 4, 1 } );
      f.t = k == 0 ? T::Int : k == 1 ? T::SInt : k == 2 ? T::Flt : T::Str;
      if ( f.t == T::Int || f.t == T::SInt )
      {
         if ( s.chance( 1, 3 ) )
         {
            const MT m = s.pick( { I8, U8, I16, U16, I32, U32, I64, BO } );
            f.mn = mtMin( m );
            f.mx = mtMax( m );
         }
         else
            genBounds( s, static_cast<unsigned>( s.below( 65 ) ), f.mn, f.mx );
         f.v = f.mn;
         if ( f.t == T::SInt )
         {
            f.scale = finiteScale( s );
            f.off = finiteOffset( s );
         }
      }
      else if ( f.t == T::Flt )
      {
         f.single = s.flip();
         if ( f.single )
         {
            f.dmn = -FLT_MAX;
            f.dmx = FLT_MAX;
         }
         if ( !scaling && s.chance( 1, 15 ) )
         {
            f.dmn = f.single ? genFloat( s ) : genDouble( s );
            f.dmx = f.single ? genFloat( s ) : genDouble( s );
            if ( f.dmx < f.dmn )
               std::swap( f.dmn, f.dmx );
         }
         f.d = f.dmn > 0 ? f.dmn : f.dmx < 0 ? f.dmx : 0;
      }
      return f;
   }

   int64_t intNear( Src &s, const MN &f )
   {
      int64_t x;
      switch ( s.weighted( { 4, 4, 2, 2, 1 } ) )
      {
         case 0: // inside the bounds
         {
            const uint64_t span = static_cast<uint64_t>( f.mx ) - static_cast<uint64_t>( f.mn );
            return static_cast<int64_t>( static_cast<uint64_t>( f.mn ) + ( span == UINT64_MAX ? s.bits() : s.below( span + 1 ) ) );
         }
         case 1:
         {
            x = s.flip() ? f.mn : f.mx;
            const int64_t d = s.range( -2, 2 );
            return static_cast<int64_t>( static_cast<uint64_t>( x ) + static_cast<uint64_t>( d ) );
         }
         case 2:
         {
            const MT m = s.pick( { I8, U8, I16, U16, I32, U32, I64 } );
            x = s.flip() ? mtMin( m ) : mtMax( m );
            return static_cast<int64_t>( static_cast<uint64_t>( x ) + static_cast<uint64_t>( s.range( -1, 1 ) ) );
         }
         case 3:
            return s.range( -2, 2 );
         default:
            return genInt64( s );
      }
   }

   double realNear( Src &s, const MN &f, bool scaling )
   {
      switch ( s.weighted( { 5, 3, 3, 1, 1 } ) )
      {
         case 0:
         {
            if ( f.t == T::Flt )
               return f.single ? genFloat( s ) : genDouble( s );
            const double r = static_cast<double>( intNear( s, f ) ) + s.pick( { 0.0, 0.25, -0.25, 0.5, -0.5, 0.4999, -0.75 } );
            return scaling ? r * f.scale + f.off : r;
         }
         case 1:
         {
            const MT m = s.pick( { I8, U8, I16, U16, I32, U32, I64 } );
            const double b = s.flip() ? static_cast<double>( mtMin( m ) ) : static_cast<double>( mtMax( m ) );
            return b + s.pick( { 0.0, 0.5, -0.5, 1.0, -1.0, 2.0, 0.25 } );
         }
         case 2:
            return s.pick( { 0.0, -0.0, 9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0,
                             -9223372036854777856.0, 2147483648.0, 4294967296.0, 1e300, -1e300, DBL_MAX, -DBL_MAX,
                             (double)FLT_MAX, -(double)FLT_MAX, 3.5e38, -3.5e38, FLT_MAX * ( 1 + 1e-9 ), 1e-320, 0.999999, -0.999999 } );
         case 3:
            return s.pick( { (double)NAN, (double)INFINITY, -(double)INFINITY } );
         default:
            return genDouble( s );
      }
   }

   // clips an integer into memory type m by construction
   int64_t fitInt( MT m, int64_t x )
   {
      if ( m == BO )
         return x & 1;
      if ( x < mtMin( m ) )
         return mtMin( m );
      if ( x > mtMax( m ) )
         return mtMax( m );
      return x;
   }

   Val genMem( Src &s, MT m, const MN &f, bool scaling )
   {
      Val v;
      if ( m == STR )
         v.s = genBytes( s, 20 );
      else if ( isFloatMem( m ) )
      {
         v.d = realNear( s, f, scaling );
         if ( m == F32 )
            v.d = static_cast<float>( v.d );
      }
      else if ( scaling && s.chance( 2, 3 ) )
      {
         const double x = std::floor( static_cast<double>( intNear( s, f ) ) * f.scale + f.off + 0.5 );
         const int64_t i = !( std::fabs( x ) < 9e18 ) ? ( x < 0 ? INT64_MIN : INT64_MAX ) : static_cast<int64_t>( x );
         v.i = fitInt( m, i );
      }
      else if ( f.t == T::Int || f.t == T::SInt )
         v.i = fitInt( m, intNear( s, f ) );
      else
         v.i = fitInt( m, genInt64( s ) );
      return v;
   }

   Val genRaw( Src &s, const MN &f )
   {
      Val v;
      if ( f.t == T::Str )
         v.s = genBytes( s, 20 );
      else if ( f.t == T::Flt )
      {
         v.d = realNear( s, f, false );
         if ( f.single )
            v.d = static_cast<float>( v.d );
         if ( v.d < f.dmn || v.d > f.dmx )
            v.d = s.flip() ? f.dmn : f.dmx;
      }
      else
      {
         int64_t x = intNear( s, f );
         v.i = x < f.mn ? f.mn : x > f.mx ? f.mx : x;
      }
      return v;
   }

   void put( Buf &b, size_t i, const Val &v )
   {
      if ( b.t == STR )
         b.strs[i] = v.s;
      else if ( isFloatMem( b.t ) )
         b.setD( i, v.d );
      else
         b.setI( i, v.i );
   }
   Val take( const Buf &b, size_t i )
   {
      Val v;
      if ( b.t == STR )
         v.s = b.strs[i];
      else if ( isFloatMem( b.t ) )
         v.d = b.getD( i );
      else
         v.i = b.getI( i );
      return v;
   }

   MN cvOf( const MN &f )
   {
      MN cv;
      cv.t = T::CV;
      MN p;
      p.t = T::Struct;
      MN g = f;
      g.name = "f";
      p.kids.push_back( g );
      cv.proto.push_back( p );
      return cv;
   }

   void writeTrial( Ctx &ctx, bool scalingFocus )
   {
      Src &s = ctx.s;
      const MN f = genField( s, scalingFocus );
      const MT m = s.chance( 1, 12 ) ? s.pick( { I8, U8, I16, U16, I32, U32, I64, BO, F32, F64, STR } )
                   : f.t == T::Str    ? STR
                                      : s.pick( { I8, U8, I16, U16, I32, U32, I64, BO, F32, F64, F64, F32 } );
      const bool conv = !s.chance( 1, 4 );
      const bool scl = scalingFocus ? !s.chance( 1, 5 ) : s.chance( 1, 3 );
      const bool scaling = scl && f.t == T::SInt;
      const size_t n = 1 + s.below( 4 );
      std::vector<Val> v;
      std::vector<Exp> e;
      // all but the last value must be certainly acceptable
      for ( size_t k = 0; k < n; ++k )
      {
         Val x = genMem( s, m, f, scaling );
         Exp y = expectWrite( f, m, conv, scl, x );
         v.push_back( x );
         e.push_back( y );
         if ( !y.ok || !y.errs.empty() )
            break;
      }
      ctx.say( pbt::sprintf_( " write %s %s conv=%d scal=%d:", show( f ).c_str(), mtName( m ), conv, scl ) );
      for ( auto &x : v )
         ctx.say( " " + showVal( m, x ) );
      ctx.label( pbt::sprintf_( "write %s to %s%s", mtName( m ), tname( f.t ), scaling ? " scaled" : "" ) );
      const std::string path = ctx.dir + "/f.e57";
      MN cv = cvOf( f );
      int err = 0;
      std::string ctxt;
      {
         e57::ImageFile imf( path, "w" );
         e57::CompressedVectorNode node( buildNode( imf, cv ) );
         imf.root().set( "pts", node );
         Buf b( m, v.size(), conv, scl, s.below( 3 ) );
         for ( size_t k = 0; k < v.size(); ++k )
            put( b, k, v[k] );
         std::vector<e57::SourceDestBuffer> sb{ b.sdb( imf, "f" ) };
         try
         {
            e57::CompressedVectorWriter w = node.writer( sb );
            w.write( v.size() );
            w.close();
            imf.close();
         }
         catch ( const e57::E57Exception &x )
         {
            err = x.errorCode();
            ctxt = what( x );
         }
      }
      const Exp &last = e.back();
      if ( err )
      {
         ctx.label( "refused" );
         if ( !last.errs.count( err ) )
            fail( "writing " + showVal( m, v.back() ) + " as " + mtName( m ) + " to " + show( f ) + ": " + ctxt +
                  ", expected " + showExp( last ) );
         return;
      }
      if ( !last.ok )
         fail( "writing " + showVal( m, v.back() ) + " as " + mtName( m ) + " to " + show( f ) +
               " was accepted, expected " + showExp( last ) );
      ctx.nontrivial = true;
      ctx.label( "stored" );
      MN root;
      try
      {
         root = readFile( path );
      }
      catch ( const e57::E57Exception &x )
      {
         fail( "reading back: " + what( x ) );
      }
      const MN &g = root.kids.at( 0 );
      if ( g.nrec != v.size() )
         fail( "number of records" );
      for ( size_t k = 0; k < v.size(); ++k )
      {
         Val got;
         if ( f.t == T::Str )
            got.s = g.cols[0].s[k];
         else if ( f.t == T::Flt )
            got.d = g.cols[0].d[k];
         else
            got.i = g.cols[0].i[k];
         const std::string d = checkVal( e[k], f, got );
         if ( !d.empty() )
            fail( "writing " + showVal( m, v[k] ) + " as " + mtName( m ) + " to " + show( f ) + ": stored value: " + d +
                  ", expected " + showExp( e[k] ) );
      }
      if ( last.floatBounds )
         failKey( "float-record-bounds", "record value " + showVal( m, v.back() ) +
                                            " outside the bounds of a float field was stored: " + show( f ) );
   }

   void readTrial( Ctx &ctx, bool scalingFocus )
   {
      Src &s = ctx.s;
      MN f = genField( s, scalingFocus );
      const MT m = s.chance( 1, 12 ) ? s.pick( { I8, U8, I16, U16, I32, U32, I64, BO, F32, F64, STR } )
                   : f.t == T::Str    ? STR
                                      : s.pick( { I8, U8, I16, U16, I32, U32, I64, BO, F32, F64, F64, F32 } );
      const bool conv = !s.chance( 1, 4 );
      const bool scl = scalingFocus ? !s.chance( 1, 5 ) : s.chance( 1, 3 );
      const bool scaling = scl && f.t == T::SInt;
      const size_t n = 1 + s.below( 4 );
      const bool atLimit = scaling && !isFloatMem( m ) && m != STR && s.chance( 1, 3 );
      if ( atLimit ) // scaled values at the limits of the memory type
      {
         f.mn = INT64_MIN;
         f.mx = INT64_MAX;
         f.v = 0;
         f.scale = s.pick( { 1.0, 0.5, 2.0, 0.25, 4.0, -1.0, 0.001, 3.0 } );
         f.off = s.chance( 1, 2 ) ? 0.0 : s.pick( { 1.0, -1.0, 0.5, -0.5, 0.25, 1000.0 } );
      }
      MN cv = cvOf( f );
      cv.cols.resize( 1 );
      std::vector<Val> v;
      std::vector<Exp> e;
      for ( size_t k = 0; k < n; ++k )
      {
         Val x = genRaw( s, f );
         if ( atLimit && s.chance( 3, 4 ) )
         {
            const double lim = s.flip() ? static_cast<double>( mtMax( m ) ) : static_cast<double>( mtMin( m ) );
            const double r = std::floor( ( lim + s.pick( { 0.0, 1.0, -1.0, 0.5, -0.5, 2.0 } ) - f.off ) / f.scale ) + s.pick( { 0.0, 1.0, -1.0 } );
            x.i = !( std::fabs( r ) < 9e18 ) ? ( r < 0 ? INT64_MIN : INT64_MAX ) : static_cast<int64_t>( r );
         }
         if ( f.t == T::Str )
            cv.cols[0].s.push_back( x.s );
         else if ( f.t == T::Flt )
            cv.cols[0].d.push_back( x.d );
         else
            cv.cols[0].i.push_back( x.i );
         v.push_back( x );
         e.push_back( expectRead( f, m, conv, scl, x ) );
         if ( !e.back().ok || !e.back().errs.empty() )
            break;
      }
      cv.nrec = v.size();
      cv.name = "pts";
      ctx.say( pbt::sprintf_( " read %s %s conv=%d scal=%d:", show( cv ).c_str(), mtName( m ), conv, scl ) );
      ctx.label( pbt::sprintf_( "read %s from %s%s", mtName( m ), tname( f.t ), scaling ? " scaled" : "" ) );
      const std::string path = ctx.dir + "/g.e57";
      MN root;
      root.kids.push_back( cv );
      int err = 0;
      std::string ctxt;
      Buf b( m, v.size(), conv, scl, s.below( 3 ) );
      unsigned got = 0;
      try
      {
         writeFile( path, root );
      }
      catch ( const e57::E57Exception &x )
      {
         fail( "preparing the file: " + what( x ) );
      }
      try
      {
         e57::ImageFile imf( path, "r" );
         e57::CompressedVectorNode node( imf.root().get( "pts" ) );
         std::vector<e57::SourceDestBuffer> db{ b.sdb( imf, "f" ) };
         e57::CompressedVectorReader r = node.reader( db );
         got = r.read();
         r.close();
         imf.close();
      }
      catch ( const e57::E57Exception &x )
      {
         err = x.errorCode();
         ctxt = what( x );
      }
      const Exp &last = e.back();
      const std::string rawText = f.t == T::Str   ? showStr( v.back().s )
                                  : f.t == T::Flt ? showNum( v.back().d )
                                                  : std::to_string( v.back().i );
      if ( err )
      {
         ctx.label( "refused" );
         if ( !last.errs.count( err ) )
            fail( "reading " + rawText + " of " + show( f ) + " as " + mtName( m ) + ": " + ctxt + ", expected " +
                  showExp( last ) );
         const std::string gi = b.guardsIntact( v.size() );
         if ( !gi.empty() )
            fail( "after a refused read: " + gi );
         return;
      }
      if ( !last.ok )
         fail( "reading " + rawText + " of " + show( f ) + " as " + mtName( m ) + " was accepted, expected " +
               showExp( last ) );
      ctx.nontrivial = true;
      ctx.label( "delivered" );
      if ( got != v.size() )
         fail( "number of records" );
      const std::string gi = b.guardsIntact( v.size() );
      if ( !gi.empty() )
         fail( gi );
      for ( size_t k = 0; k < v.size(); ++k )
      {
         const std::string d = checkVal( e[k], f, take( b, k ) );
         if ( !d.empty() )
            fail( "reading record " + std::to_string( k ) + " of " + show( cv ) + " as " + mtName( m ) + ": " + d +
                  ", expected " + showExp( e[k] ) );
      }
   }

   void c03( Ctx &ctx )
   {
      ctx.evals = 4;
      for ( int k = 0; k < 4; ++k )
      {
         ctx.s.flip() ? readTrial( ctx, false ) : writeTrial( ctx, false );
      }
   }
   void c04( Ctx &ctx )
   {
      ctx.evals = 4;
      for ( int k = 0; k < 4; ++k )
      {
         ctx.s.flip() ? readTrial( ctx, true ) : writeTrial( ctx, true );
      }
   }

   pbt::Reg r03( { "C03", c03, 6000, 150000, "exploration",
                   "a case counts if at least one of its four transfers was accepted and its result compared",
                   { "the float conversion direction is toward zero; results within rounding of a limit may be refused or accepted" } } );
   pbt::Reg r04( { "C04", c04, 6000, 150000, "exploration",
                   "a case counts if at least one of its four transfers was accepted and its result compared",
                   { "formulas are evaluated in 80-bit arithmetic with a tolerance of 4 double roundings" } } );
}
