#include "model.hpp"

#include <algorithm>
#include <cstring>
#include <set>

using pbt::sprintf_;

namespace model
{
   const char *tname( T t )
   {
      static const char *n[] = { "Structure", "Vector", "CompressedVector", "Integer",
                                 "ScaledInteger", "Float", "String", "Blob" };
      return n[static_cast<int>( t )];
   }

   void leavesOf( const MN &n, const std::string &prefix, std::vector<Leaf> &out )
   {
      if ( n.t == T::Struct || n.t == T::Vec )
      {
         unsigned i = 0;
         for ( auto &k : n.kids )
         {
            const std::string nm = n.t == T::Vec ? std::to_string( i ) : k.name;
            leavesOf( k, prefix.empty() ? nm : prefix + "/" + nm, out );
            ++i;
         }
      }
      else
         out.push_back( { prefix, &n } );
   }

   std::vector<Leaf> leavesOf( const MN &proto )
   {
      std::vector<Leaf> v;
      leavesOf( proto, "", v );
      return v;
   }

   unsigned bitsOf( const MN &l )
   {
      switch ( l.t )
      {
         case T::Int:
         case T::SInt:
         {
            uint64_t span = static_cast<uint64_t>( l.mx ) - static_cast<uint64_t>( l.mn );
            unsigned b = 0;
            while ( span )
            {
               ++b;
               span >>= 1;
            }
            return b;
         }
         case T::Flt:
            return l.single ? 32 : 64;
         default:
            return 0;
      }
   }

   std::string showNum( double d ) { return sprintf_( "%.17g", d ); }

   std::string showStr( const std::string &s, size_t max )
   {
      std::string o = "\"";
      for ( size_t i = 0; i < s.size() && i < max; ++i )
      {
         const unsigned char c = s[i];
         if ( c < 0x20 || c >= 0x7f || c == '"' || c == '\\' )
            o += sprintf_( "\\x%02x", c );
         else
            o += static_cast<char>( c );
      }
      o += "\"";
      if ( s.size() > max )
         o += sprintf_( "...(%zu bytes)", s.size() );
      return o;
   }

   std::string show( const MN &n, bool content )
   {
      std::string o = n.name.empty() ? "" : n.name + "=";
      switch ( n.t )
      {
         case T::Struct:
         case T::Vec:
         {
            o += n.t == T::Struct ? "{" : ( n.hetero ? "[hetero " : "[" );
            for ( auto &k : n.kids )
               o += show( k, content ) + " ";
            o += n.t == T::Struct ? "}" : "]";
            break;
         }
         case T::CV:
            o += "CV(" + ( n.proto.empty() ? std::string() : show( n.proto[0], false ) ) + " x" +
                 std::to_string( n.nrec );
            if ( !n.codecs.empty() && !n.codecs[0].kids.empty() )
               o += " codecs=" + show( n.codecs[0] );
            if ( content && n.nrec <= 6 && !n.cols.empty() )
            {
               o += ":";
               const auto lv = leavesOf( n.proto[0] );
               for ( size_t f = 0; f < lv.size(); ++f )
               {
                  o += " " + lv[f].path + "=(";
                  for ( uint64_t r = 0; r < n.nrec; ++r )
                  {
                     if ( !n.cols[f].i.empty() )
                        o += std::to_string( n.cols[f].i[r] ) + ",";
                     else if ( !n.cols[f].d.empty() )
                        o += showNum( n.cols[f].d[r] ) + ",";
                     else if ( !n.cols[f].s.empty() )
                        o += showStr( n.cols[f].s[r], 20 ) + ",";
                  }
                  o += ")";
               }
            }
            o += ")";
            break;
         case T::Int:
            o += sprintf_( "Int(%lld [%lld,%lld])", (long long)n.v, (long long)n.mn, (long long)n.mx );
            break;
         case T::SInt:
            o += sprintf_( "SInt(%lld [%lld,%lld] *%.17g +%.17g)", (long long)n.v, (long long)n.mn, (long long)n.mx,
                           n.scale, n.off );
            break;
         case T::Flt:
            o += sprintf_( "Flt%d(%.17g [%.17g,%.17g])", n.single ? 32 : 64, n.d, n.dmn, n.dmx );
            break;
         case T::Str:
            o += "Str(" + showStr( n.s ) + ")";
            break;
         case T::Blob:
            o += sprintf_( "Blob(%zu bytes #%llx)", n.s.size(), (unsigned long long)pbt::hash64( n.s ) );
            break;
      }
      return o;
   }

   uint64_t count( const MN &n )
   {
      uint64_t c = 1;
      for ( auto &k : n.kids )
         c += count( k );
      return c;
   }

   bool sameNum( double a, double b ) { return a == b || ( std::isnan( a ) && std::isnan( b ) ); }

   std::string diffCols( const std::vector<Leaf> &lv, const std::vector<Col> &want, const std::vector<Col> &got,
                         uint64_t n )
   {
      if ( want.size() != lv.size() || got.size() != lv.size() )
         return sprintf_( "number of columns: want %zu got %zu", want.size(), got.size() );
      for ( size_t f = 0; f < lv.size(); ++f )
      {
         for ( uint64_t r = 0; r < n; ++r )
         {
            auto at = [&] {
               return " in record " + std::to_string( r ) + " field " + lv[f].path + " (" + show( *lv[f].n ) + ")";
            };
            switch ( lv[f].n->t )
            {
               case T::Int:
               case T::SInt:
                  if ( r >= got[f].i.size() || want[f].i[r] != got[f].i[r] )
                     return sprintf_( "want %lld got %s", (long long)want[f].i[r],
                                      r < got[f].i.size() ? std::to_string( got[f].i[r] ).c_str() : "nothing" ) +
                            at();
                  break;
               case T::Flt:
                  if ( r >= got[f].d.size() || !sameNum( want[f].d[r], got[f].d[r] ) ||
                       std::signbit( want[f].d[r] ) != std::signbit( got[f].d[r] ) )
                     return "want " + showNum( want[f].d[r] ) + " got " +
                            ( r < got[f].d.size() ? showNum( got[f].d[r] ) : std::string( "nothing" ) ) + at();
                  break;
               case T::Str:
                  if ( r >= got[f].s.size() || want[f].s[r] != got[f].s[r] )
                     return "want " + showStr( want[f].s[r] ) + " got " +
                            ( r < got[f].s.size() ? showStr( got[f].s[r] ) : std::string( "nothing" ) ) + at();
                  break;
               default:
                  break;
            }
         }
      }
      return "";
   }

   std::string diff( const MN &w, const MN &g, const std::string &path )
   {
      auto bad = [&]( const std::string &what, const std::string &a, const std::string &b ) {
         return path + ": " + what + ": want " + a + " got " + b;
      };
      if ( w.t != g.t )
         return bad( "type", tname( w.t ), tname( g.t ) );
      if ( w.name != g.name )
         return bad( "name", w.name, g.name );
      switch ( w.t )
      {
         case T::Struct:
         case T::Vec:
            if ( w.t == T::Vec && w.hetero != g.hetero )
               return bad( "allowHeteroChildren", w.hetero ? "1" : "0", g.hetero ? "1" : "0" );
            if ( w.kids.size() != g.kids.size() )
               return bad( "child count", std::to_string( w.kids.size() ), std::to_string( g.kids.size() ) );
            for ( size_t i = 0; i < w.kids.size(); ++i )
            {
               auto d = diff( w.kids[i], g.kids[i],
                              path + ( path == "/" ? "" : "/" ) +
                                 ( w.t == T::Vec ? std::to_string( i ) : w.kids[i].name ) );
               if ( !d.empty() )
                  return d;
            }
            break;
         case T::CV:
         {
            auto d = diff( w.proto[0], g.proto[0], path + "(prototype)" );
            if ( !d.empty() )
               return d;
            if ( !w.codecs.empty() && !g.codecs.empty() )
            {
               d = diff( w.codecs[0], g.codecs[0], path + "(codecs)" );
               if ( !d.empty() )
                  return d;
            }
            if ( w.nrec != g.nrec )
               return bad( "record count", std::to_string( w.nrec ), std::to_string( g.nrec ) );
            d = diffCols( leavesOf( w.proto[0] ), w.cols, g.cols, w.nrec );
            if ( !d.empty() )
               return path + ": " + d;
            break;
         }
         case T::Int:
         case T::SInt:
            if ( w.v != g.v )
               return bad( "value", std::to_string( w.v ), std::to_string( g.v ) );
            if ( w.mn != g.mn )
               return bad( "minimum", std::to_string( w.mn ), std::to_string( g.mn ) );
            if ( w.mx != g.mx )
               return bad( "maximum", std::to_string( w.mx ), std::to_string( g.mx ) );
            if ( w.t == T::SInt && !sameNum( w.scale, g.scale ) )
               return bad( "scale", showNum( w.scale ), showNum( g.scale ) );
            if ( w.t == T::SInt && !sameNum( w.off, g.off ) )
               return bad( "offset", showNum( w.off ), showNum( g.off ) );
            break;
         case T::Flt:
            if ( w.single != g.single )
               return bad( "precision", w.single ? "single" : "double", g.single ? "single" : "double" );
            if ( !sameNum( w.d, g.d ) )
               return bad( "value", showNum( w.d ), showNum( g.d ) );
            if ( !sameNum( w.dmn, g.dmn ) )
               return bad( "minimum", showNum( w.dmn ), showNum( g.dmn ) );
            if ( !sameNum( w.dmx, g.dmx ) )
               return bad( "maximum", showNum( w.dmx ), showNum( g.dmx ) );
            break;
         case T::Str:
            if ( w.s != g.s )
               return bad( "text", showStr( w.s, 200 ), showStr( g.s, 200 ) );
            break;
         case T::Blob:
            if ( w.s.size() != g.s.size() )
               return bad( "blob size", std::to_string( w.s.size() ), std::to_string( g.s.size() ) );
            if ( w.s != g.s )
            {
               size_t i = 0;
               while ( w.s[i] == g.s[i] )
                  ++i;
               return path + sprintf_( ": blob byte %zu of %zu: want %02x got %02x", i, w.s.size(),
                                       (unsigned char)w.s[i], (unsigned char)g.s[i] );
            }
            break;
      }
      return "";
   }

   // ---------------------------------------------------------------- numbers

   int64_t genInt64( Src &s )
   {
      switch ( s.weighted( { 4, 3, 3, 1, 3 } ) )
      {
         case 0:
            return s.range( -4, 4 );
         case 1:
         {
            const unsigned k = s.below( 64 );
            const uint64_t p = 1ull << k;
            const uint64_t x = p + static_cast<uint64_t>( s.range( -2, 2 ) );
            return static_cast<int64_t>( s.flip() ? x : 0 - x );
         }
         case 2:
            return s.range( -100000, 100000 );
         case 3:
            return s.flip() ? INT64_MIN + static_cast<int64_t>( s.below( 3 ) )
                            : INT64_MAX - static_cast<int64_t>( s.below( 3 ) );
         default:
            return static_cast<int64_t>( s.bits() );
      }
   }

   double genDouble( Src &s )
   {
      switch ( s.weighted( { 3, 3, 2, 2, 3, 1, 2 } ) )
      {
         case 0:
            return static_cast<double>( s.range( -5, 5 ) );
         case 1: // decimal-looking
         {
            const int64_t m = s.range( -999999999, 999999999 );
            const int e = static_cast<int>( s.below( 19 ) );
            return static_cast<double>( m ) / std::pow( 10.0, e );
         }
         case 2:
         {
            const int e = static_cast<int>( s.range( -1074, 1023 ) );
            const double x = std::ldexp( 1.0, e );
            return s.flip() ? -x : x;
         }
         case 3: // neighbours of round numbers
         {
            double x = static_cast<double>( genInt64( s ) );
            const int steps = static_cast<int>( s.below( 3 ) );
            for ( int i = 0; i < steps; ++i )
               x = std::nextafter( x, s.flip() ? DBL_MAX : -DBL_MAX );
            return x;
         }
         case 4: // any finite bit pattern
         {
            uint64_t b = s.bits();
            if ( ( ( b >> 52 ) & 0x7ff ) == 0x7ff )
               b ^= 1ull << 52;
            double d;
            memcpy( &d, &b, 8 );
            return d;
         }
         case 5:
            return s.pick( { 0.0, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 4.9406564584124654e-324, DBL_EPSILON,
                             double( FLT_MAX ), -double( FLT_MAX ), 1.0 / 3, 0.1, 0.3, 1e23, 9007199254740993.0,
                             2.2250738585072011e-308, 1.7976931348623155e308 } );
         default:
         {
            const double u = static_cast<double>( s.bits() >> 11 ) / 9007199254740992.0;
            return ( u - 0.5 ) * std::pow( 10.0, static_cast<double>( s.range( -6, 8 ) ) );
         }
      }
   }

   float genFloat( Src &s )
   {
      switch ( s.weighted( { 3, 3, 3, 1 } ) )
      {
         case 0:
            return static_cast<float>( s.range( -5, 5 ) );
         case 1:
            return static_cast<float>( s.range( -9999999, 9999999 ) ) /
                   static_cast<float>( std::pow( 10.0, s.below( 9 ) ) );
         case 2:
         {
            uint32_t b = static_cast<uint32_t>( s.bits() );
            if ( ( ( b >> 23 ) & 0xff ) == 0xff )
               b ^= 1u << 23;
            float f;
            memcpy( &f, &b, 4 );
            return f;
         }
         default:
            return s.pick( { 0.0f, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f, 0.1f, 16777216.0f, 16777215.0f, FLT_EPSILON } );
      }
   }

   void genBounds( Src &s, unsigned bits, int64_t &mn, int64_t &mx )
   {
      if ( bits >= 64 )
      {
         // span needs all 64 bits
         if ( !s.chance( 1, 2 ) )
         {
            mn = INT64_MIN;
            mx = INT64_MAX;
            return;
         }
         mn = INT64_MIN + static_cast<int64_t>( s.bits() >> 2 );
         mx = INT64_MAX - static_cast<int64_t>( s.bits() >> 2 );
         return;
      }
      uint64_t span = 0;
      if ( bits > 0 )
      {
         const uint64_t top = 1ull << ( bits - 1 );
         switch ( s.below( 3 ) )
         {
            case 0:
               span = top + ( top - 1 ); // 2^bits - 1
               break;
            case 1:
               span = top; // 2^(bits-1): smallest that needs `bits` bits
               break;
            default:
               span = top + s.below( top );
               break;
         }
      }
      // minimum in [INT64_MIN, INT64_MAX - span]
      const uint64_t room = UINT64_MAX - span; // number of possible minima minus one
      uint64_t off;
      switch ( s.below( 5 ) )
      {
         case 0: // minimum 0, if it fits
            off = std::min<uint64_t>( room, 1ull << 63 );
            break;
         case 1: // symmetric-ish
            off = std::min<uint64_t>( room, ( 1ull << 63 ) - span / 2 );
            break;
         case 2: // small minimum
         {
            const uint64_t m = ( 1ull << 63 ) + static_cast<uint64_t>( s.range( -1000, 1000 ) );
            off = std::min<uint64_t>( room, m );
            break;
         }
         case 3: // at an end of the 64-bit range
            off = s.flip() ? 0 : room;
            break;
         default:
            off = room == UINT64_MAX ? s.bits() : s.below( room + 1 );
            break;
      }
      mn = static_cast<int64_t>( off + ( 1ull << 63 ) );
      mx = static_cast<int64_t>( off + ( 1ull << 63 ) + span );
   }

   // ---------------------------------------------------------------- text

   std::string genId( Src &s, size_t maxLen )
   {
      static const std::string first = "abcxyzABCXYZ_mnop";
      static const std::string rest = "abcxyzABCXYZ_0123456789-.mnop";
      // names with a meaning elsewhere in the file
      static const std::vector<std::string> known = { "e57Root", "vectorChild", "prototype", "codecs", "type", "points", "data3D", "guid" };
      // letters of other alphabets
      static const std::vector<std::string> wide = { "\xC3\xA9", "\xC3\x9F", "\xD0\x96", "\xE4\xB8\xAD", "\xE3\x81\xB0" };
      std::string o( 1, first[s.below( first.size() )] );
      if ( o == "p" && s.chance( 1, 3 ) )
         return s.pick( known );
      if ( o == "o" && s.chance( 1, 2 ) )
         o = s.pick( wide );
      const size_t n = s.below( maxLen );
      for ( size_t i = 0; i < n; ++i )
      {
         const char c = rest[s.below( rest.size() )];
         if ( c == 'o' && s.chance( 1, 2 ) )
            o += s.pick( wide );
         else
            o += c;
      }
      return o;
   }

   void appendUtf8( std::string &o, uint32_t c )
   {
      if ( c < 0x80 )
         o += static_cast<char>( c );
      else if ( c < 0x800 )
      {
         o += static_cast<char>( 0xc0 | ( c >> 6 ) );
         o += static_cast<char>( 0x80 | ( c & 0x3f ) );
      }
      else if ( c < 0x10000 )
      {
         o += static_cast<char>( 0xe0 | ( c >> 12 ) );
         o += static_cast<char>( 0x80 | ( ( c >> 6 ) & 0x3f ) );
         o += static_cast<char>( 0x80 | ( c & 0x3f ) );
      }
      else
      {
         o += static_cast<char>( 0xf0 | ( c >> 18 ) );
         o += static_cast<char>( 0x80 | ( ( c >> 12 ) & 0x3f ) );
         o += static_cast<char>( 0x80 | ( ( c >> 6 ) & 0x3f ) );
         o += static_cast<char>( 0x80 | ( c & 0x3f ) );
      }
   }

   static uint32_t xmlChar( uint64_t kind, uint64_t r )
   {
      switch ( kind )
      {
         case 0:
            return 'a' + r % 26;
         case 1:
            return 0x20 + r % 0x5f;
         case 2:
         {
            static const char m[] = "<>&]['\"/!-?;=# \t\n:";
            return m[r % ( sizeof m - 1 )];
         }
         case 3:
            return 0xa0 + r % ( 0x800 - 0xa0 );
         case 4:
            return 0x800 + r % ( 0xd800 - 0x800 );
         case 5:
            return 0xe000 + r % ( 0xfffe - 0xe000 );
         case 6:
            return 0x10000 + r % 0x100000;
         case 7:
         {
            static const uint32_t e[] = { 0x7f, 0x80, 0x85, 0x9f, 0x2028, 0x2029, 0xfeff, 0xd7ff, 0xe000,
                                          0xfffd, 0x10000, 0x10ffff, 0x9, 0xa, 0x20, 0x1f600 };
            return e[r % ( sizeof e / sizeof *e )];
         }
         default:
            return 0xd;
      }
   }

   std::string genXmlText( Src &s, size_t maxLen )
   {
      std::string o;
      size_t n = s.geom( std::min<size_t>( maxLen, 8 ), std::min<size_t>( maxLen, 40 ) );
      for ( size_t i = 0; i < n && o.size() < maxLen; ++i )
      {
         switch ( s.weighted( { 10, 2, 1 } ) )
         {
            case 0:
               appendUtf8( o, xmlChar( s.weighted( { 4, 4, 4, 2, 2, 1, 2, 2, 1 } ), s.below( 1 << 21 ) ) );
               break;
            case 1:
               o += s.pick( { "]]>", "<![CDATA[", "]]", "]", "&amp;", "&#10;", "\r\n", "<!--", "-->", "  ", "\n", "]]>]]>",
                              "</", "<?xml?>", "]]]]>>" } );
               break;
            default: // a long run, to cross internal buffer sizes
            {
               const size_t len = s.pick( { 16, 1000, 1019, 1020, 1021, 4096, 16384, 32768, 65536 } );
               pbt::Prng p( s.bits() );
               const uint64_t kind = s.below( 7 );
               const size_t end = std::min( maxLen, o.size() + len );
               while ( o.size() + 4 < end )
                  appendUtf8( o, xmlChar( kind, p.next() >> 20 ) );
               break;
            }
         }
      }
      return o;
   }

   std::string genBytes( Src &s, size_t maxLen )
   {
      std::string o;
      size_t n;
      switch ( s.weighted( { 4, 3, 2, 1 } ) )
      {
         case 0:
            n = s.below( std::min<size_t>( maxLen, 6 ) + 1 );
            break;
         case 1:
            n = s.below( std::min<size_t>( maxLen, 64 ) + 1 );
            break;
         case 2:
            n = std::min<size_t>( maxLen, s.pick( { 126, 127, 128, 129, 255, 256, 1020, 1024 } ) );
            break;
         default:
            n = s.below( maxLen + 1 );
            break;
      }
      if ( n <= 8 )
         for ( size_t i = 0; i < n; ++i )
            o += static_cast<char>( s.below( 256 ) );
      else
      {
         pbt::Prng p( s.bits() );
         const bool zero = s.chance( 1, 6 );
         for ( size_t i = 0; i < n; ++i )
            o += zero ? '\0' : static_cast<char>( p.next() >> 40 );
      }
      return o;
   }

   // ---------------------------------------------------------------- prototypes

   static void boundsFor( Src &s, MN &n )
   {
      unsigned bits;
      switch ( s.weighted( { 5, 3, 2, 1 } ) )
      {
         case 0:
            bits = static_cast<unsigned>( s.below( 17 ) );
            break;
         case 1:
            bits = static_cast<unsigned>( s.below( 65 ) );
            break;
         case 2:
            bits = s.pick( { 0u, 1u, 7u, 8u, 9u, 15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u } );
            break;
         default:
            bits = 0;
            break;
      }
      genBounds( s, bits, n.mn, n.mx );
   }

   MN genLeaf( Src &s, bool strings, bool proto )
   {
      MN n;
      switch ( s.weighted( { 6, 4, 3, 3, strings ? 3u : 0u } ) )
      {
         case 0:
         case 1:
         {
            n.t = T::Int;
            boundsFor( s, n );
            if ( s.chance( 2, 5 ) )
            {
               n.t = T::SInt;
               switch ( s.below( 4 ) )
               {
                  case 0:
                     n.scale = s.pick( { 1.0, 0.001, 0.5, 2.0, 1e-6, -0.01, 1000.0 } );
                     break;
                  case 1:
                     n.scale = genDouble( s );
                     break;
                  default:
                     n.scale = std::pow( 2.0, static_cast<double>( s.range( -20, 20 ) ) );
                     break;
               }
               if ( n.scale == 0 )
                  n.scale = 1;
               if ( s.flip() )
                  n.off = genDouble( s );
            }
            // prototypes may carry any legal value; 0 or the minimum are usual
            n.v = n.mn;
            if ( n.mn <= 0 && 0 <= n.mx && s.flip() )
               n.v = 0;
            if ( s.chance( 1, 4 ) )
            {
               const uint64_t span = static_cast<uint64_t>( n.mx ) - static_cast<uint64_t>( n.mn );
               n.v = static_cast<int64_t>( static_cast<uint64_t>( n.mn ) +
                                           ( span == UINT64_MAX ? s.bits() : s.below( span + 1 ) ) );
            }
            break;
         }
         case 2:
         case 3:
            n.t = T::Flt;
            n.single = s.flip();
            if ( n.single )
            {
               n.dmn = -FLT_MAX;
               n.dmx = FLT_MAX;
            }
            if ( s.chance( 1, 3 ) )
            {
               double a = n.single ? genFloat( s ) : genDouble( s );
               double b = n.single ? genFloat( s ) : genDouble( s );
               n.dmn = std::min( a, b );
               n.dmx = std::max( a, b );
            }
            n.d = n.dmn <= 0 && 0 <= n.dmx ? 0.0 : n.dmn;
            if ( !proto || s.chance( 1, 4 ) )
            {
               const double x = n.single ? genFloat( s ) : genDouble( s );
               if ( n.dmn <= x && x <= n.dmx )
                  n.d = x;
            }
            break;
         default:
            n.t = T::Str;
            if ( !proto || s.chance( 1, 5 ) )
               n.s = genXmlText( s, proto ? 30 : 300 );
            break;
      }
      return n;
   }

   static std::string freshName( Src &s, const std::vector<std::string> &prefixes, std::set<std::string> &used )
   {
      for ( unsigned k = 0;; ++k )
      {
         std::string n = genId( s, 6 );
         if ( !prefixes.empty() && s.chance( 1, 4 ) )
            n = s.pick( prefixes ) + ":" + n;
         if ( k > 3 )
            n += std::to_string( used.size() );
         if ( used.insert( n ).second )
            return n;
      }
   }

   static MN protoNode( Src &s, const ProtoOpts &o, unsigned &budget, unsigned depth );

   static void protoKids( Src &s, MN &n, const ProtoOpts &o, unsigned &budget, unsigned depth, unsigned want )
   {
      std::set<std::string> used;
      for ( unsigned i = 0; i < want && budget > 0; ++i )
      {
         MN k = protoNode( s, o, budget, depth );
         if ( n.t == T::Struct )
            k.name = freshName( s, o.prefixes, used );
         n.kids.push_back( std::move( k ) );
      }
   }

   static MN protoNode( Src &s, const ProtoOpts &o, unsigned &budget, unsigned depth )
   {
      if ( o.nesting && depth < 3 && budget > 1 && s.chance( 1, 6 ) )
      {
         MN n;
         n.t = s.chance( 1, 3 ) ? T::Vec : T::Struct;
         if ( n.t == T::Vec )
            n.hetero = true;
         protoKids( s, n, o, budget, depth + 1, 1 + static_cast<unsigned>( s.below( 3 ) ) );
         return n;
      }
      --budget;
      return genLeaf( s, o.strings, true );
   }

   MN genProto( Src &s, const ProtoOpts &o )
   {
      MN n;
      n.t = T::Struct;
      unsigned want = o.minLeaves + static_cast<unsigned>( s.geom( 3, o.maxLeaves - o.minLeaves ) );
      unsigned budget = std::min( want, o.maxLeaves );
      protoKids( s, n, o, budget, 0, want );
      return n;
   }

   static int64_t inRange( uint64_t r, int64_t mn, int64_t mx )
   {
      const uint64_t span = static_cast<uint64_t>( mx ) - static_cast<uint64_t>( mn );
      return static_cast<int64_t>( static_cast<uint64_t>( mn ) + ( span == UINT64_MAX ? r : r % ( span + 1 ) ) );
   }

   static double floatFrom( const MN &l, uint64_t r, uint64_t kind, bool specials )
   {
      double x;
      if ( l.single )
      {
         uint32_t b = static_cast<uint32_t>( r >> 16 );
         if ( ( ( b >> 23 ) & 0xff ) == 0xff )
            b ^= 1u << 23;
         float f;
         memcpy( &f, &b, 4 );
         x = f;
         if ( kind == 1 )
            x = static_cast<float>( static_cast<int64_t>( r % 200001 ) - 100000 ) / 100.0f;
      }
      else
      {
         uint64_t b = r;
         if ( ( ( b >> 52 ) & 0x7ff ) == 0x7ff )
            b ^= 1ull << 52;
         memcpy( &x, &b, 8 );
         if ( kind == 1 )
            x = ( static_cast<double>( r % 2000000001ull ) - 1e9 ) / 1000.0;
      }
      const bool bounded = l.single ? ( l.dmn > -FLT_MAX || l.dmx < FLT_MAX ) : ( l.dmn > -DBL_MAX || l.dmx < DBL_MAX );
      if ( bounded )
      {
         if ( x < l.dmn || x > l.dmx || r % 16 == 0 )
         {
            switch ( r % 3 )
            {
               case 0:
                  x = l.dmn;
                  break;
               case 1:
                  x = l.dmx;
                  break;
               default:
               {
                  const double u = static_cast<double>( r >> 11 ) / 9007199254740992.0;
                  x = l.dmn + ( l.dmx / 2 - l.dmn / 2 ) * u;
                  if ( l.single )
                     x = static_cast<float>( x );
                  x = std::min( std::max( x, l.dmn ), l.dmx );
               }
            }
         }
         return x;
      }
      if ( specials && kind == 2 )
      {
         switch ( r % 5 )
         {
            case 0:
               return NAN;
            case 1:
               return INFINITY;
            case 2:
               return -INFINITY;
            case 3:
               return -0.0;
            default:
               return l.single ? FLT_MAX : DBL_MAX;
         }
      }
      return x;
   }

   static std::string strFrom( pbt::Prng &p, size_t maxLen )
   {
      const uint64_t r = p.next();
      size_t n;
      switch ( r % 8 )
      {
         case 0:
            n = 0;
            break;
         case 1:
            n = ( r >> 8 ) % ( maxLen + 1 );
            break;
         case 2:
            n = 124 + ( r >> 8 ) % 8; // around the length-prefix switch
            break;
         default:
            n = ( r >> 8 ) % 10;
            break;
      }
      n = std::min( n, maxLen );
      std::string s( n, 0 );
      for ( size_t i = 0; i < n; ++i )
         s[i] = static_cast<char>( p.next() >> 33 );
      return s;
   }

   std::vector<Col> genCols( Src &s, const MN &proto, uint64_t n, const ColOpts &o )
   {
      const auto lv = leavesOf( proto );
      std::vector<Col> cols( lv.size() );
      for ( size_t f = 0; f < lv.size(); ++f )
      {
         const MN &l = *lv[f].n;
         Col &c = cols[f];
         if ( n <= o.individually )
         {
            for ( uint64_t r = 0; r < n; ++r )
            {
               switch ( l.t )
               {
                  case T::Int:
                  case T::SInt:
                     switch ( s.below( 4 ) )
                     {
                        case 0:
                           c.i.push_back( l.mn );
                           break;
                        case 1:
                           c.i.push_back( l.mx );
                           break;
                        default:
                           c.i.push_back( inRange( s.bits(), l.mn, l.mx ) );
                           break;
                     }
                     break;
                  case T::Flt:
                  {
                     const uint64_t kind = s.below( 3 );
                     c.d.push_back( floatFrom( l, s.bits(), kind, o.floatSpecials ) );
                     break;
                  }
                  default:
                     c.s.push_back( genBytes( s, o.maxString ) );
                     break;
               }
            }
            continue;
         }
         pbt::Prng p( s.bits() );
         const uint64_t pattern = s.below( 5 );
         for ( uint64_t r = 0; r < n; ++r )
         {
            const uint64_t x = p.next();
            switch ( l.t )
            {
               case T::Int:
               case T::SInt:
                  switch ( pattern )
                  {
                     case 0:
                        c.i.push_back( inRange( x, l.mn, l.mx ) );
                        break;
                     case 1:
                        c.i.push_back( inRange( r, l.mn, l.mx ) ); // counting
                        break;
                     case 2:
                        c.i.push_back( x & 1 ? l.mn : l.mx );
                        break;
                     case 3:
                        c.i.push_back( x % 16 ? l.mn : l.mx );
                        break;
                     default:
                        c.i.push_back( x % 3 ? inRange( x >> 2, l.mn, l.mx ) : ( x & 8 ? l.mn : l.mx ) );
                        break;
                  }
                  break;
               case T::Flt:
                  c.d.push_back( floatFrom( l, x, pattern == 4 ? ( x >> 3 ) % 3 : pattern % 2, o.floatSpecials ) );
                  break;
               default:
                  c.s.push_back( strFrom( p, pattern == 0 ? o.maxString : std::min<size_t>( o.maxString, 12 ) ) );
                  break;
            }
         }
      }
      return cols;
   }

   uint64_t genCount( Src &s, const MN &proto, uint64_t maxBytes )
   {
      uint64_t bits = 0;
      for ( auto &l : leavesOf( proto ) )
         bits += l.n->t == T::Str ? 8 * 8 : bitsOf( *l.n );
      const uint64_t most = bits ? std::min<uint64_t>( 30000, maxBytes * 8 / bits ) : 2000;
      switch ( s.weighted( { 6, 3, 3, 2 } ) )
      {
         case 0:
            return s.below( 9 );
         case 1:
            return s.below( std::min<uint64_t>( most, 300 ) + 1 );
         case 2:
            return s.below( std::min<uint64_t>( most, 5000 ) + 1 );
         default:
            return s.below( most + 1 );
      }
   }

   Col slice( const Col &c, uint64_t from, uint64_t n )
   {
      Col o;
      if ( !c.i.empty() )
         o.i.assign( c.i.begin() + from, c.i.begin() + from + n );
      if ( !c.d.empty() )
         o.d.assign( c.d.begin() + from, c.d.begin() + from + n );
      if ( !c.s.empty() )
         o.s.assign( c.s.begin() + from, c.s.begin() + from + n );
      return o;
   }

   std::vector<Col> slice( const std::vector<Col> &c, uint64_t from, uint64_t n )
   {
      std::vector<Col> o;
      for ( auto &k : c )
         o.push_back( slice( k, from, n ) );
      return o;
   }

   // ---------------------------------------------------------------- trees

   MN genCV( Src &s, const TreeOpts &o )
   {
      MN n;
      n.t = T::CV;
      ProtoOpts po;
      po.prefixes = o.prefixes;
      po.minLeaves = o.minLeaves;
      po.maxLeaves = o.minLeaves + 4;
      n.proto.push_back( genProto( s, po ) );
      MN c;
      c.t = T::Vec;
      c.hetero = true;
      n.codecs.push_back( c );
      n.nrec = genCount( s, n.proto[0], o.maxRecBytes );
      n.cols = genCols( s, n.proto[0], n.nrec, ColOpts() );
      return n;
   }

   static MN treeNode( Src &s, const TreeOpts &o, unsigned &budget, unsigned depth );

   // a copy of the type structure of n with other values, for homogeneous vectors
   static MN similar( Src &s, const MN &n )
   {
      MN m = n;
      if ( m.t == T::Struct || m.t == T::Vec )
      {
         for ( auto &k : m.kids )
         {
            std::string nm = k.name;
            k = similar( s, k );
            k.name = nm;
         }
      }
      else if ( m.t == T::Int || m.t == T::SInt )
         m.v = inRange( s.bits(), m.mn, m.mx );
      else if ( m.t == T::Str )
         m.s = genXmlText( s, 20 );
      return m;
   }

   static void treeKids( Src &s, MN &n, const TreeOpts &o, unsigned &budget, unsigned depth )
   {
      std::set<std::string> used;
      for ( auto &k : n.kids )
         used.insert( k.name );
      const unsigned want = static_cast<unsigned>( s.geom( 3, 12 ) );
      for ( unsigned i = 0; i < want && budget > 0; ++i )
      {
         if ( n.t == T::Vec && !n.hetero && !n.kids.empty() && n.kids[0].t != T::CV && n.kids[0].t != T::Blob )
         {
            MN k = similar( s, n.kids[0] );
            budget -= std::min<unsigned>( budget, static_cast<unsigned>( count( k ) ) );
            n.kids.push_back( std::move( k ) );
            continue;
         }
         MN k = treeNode( s, o, budget, depth + 1 );
         if ( n.t == T::Vec && !n.hetero && !n.kids.empty() && k.t != n.kids[0].t )
            continue;
         if ( n.t == T::Vec && !n.hetero && !n.kids.empty() && k.t == T::CV )
            continue; // keep homogeneous vectors of record vectors to one child
         if ( n.t == T::Vec && !n.hetero && !n.kids.empty() && k.t == T::Blob )
            k.s.resize( n.kids[0].s.size(), 'b' ); // the size of a blob is part of its type
         if ( n.t == T::Struct )
            k.name = freshName( s, o.prefixes, used );
         n.kids.push_back( std::move( k ) );
      }
   }

   static MN treeNode( Src &s, const TreeOpts &o, unsigned &budget, unsigned depth )
   {
      if ( budget > 0 )
         --budget;
      if ( depth < o.maxDepth && s.chance( 1, 3 ) )
      {
         MN n;
         n.t = s.chance( 2, 5 ) ? T::Vec : T::Struct;
         if ( n.t == T::Vec )
            n.hetero = s.flip();
         treeKids( s, n, o, budget, depth );
         return n;
      }
      if ( o.cvs && s.chance( 1, 12 ) )
         return genCV( s, o );
      if ( o.blobs && s.chance( 1, 12 ) )
      {
         MN n;
         n.t = T::Blob;
         n.s = genBytes( s, o.maxBlob );
         return n;
      }
      MN n = genLeaf( s, true, false );
      if ( n.t == T::Flt && n.dmn > -DBL_MAX && !( n.dmn <= n.d && n.d <= n.dmx ) )
         n.d = n.dmn;
      // bounds at their defaults quite often
      if ( ( n.t == T::Int || n.t == T::SInt ) && s.chance( 1, 4 ) )
      {
         n.mn = INT64_MIN;
         n.mx = INT64_MAX;
         n.v = genInt64( s );
      }
      return n;
   }

   MN genTree( Src &s, const TreeOpts &o )
   {
      MN root;
      root.t = T::Struct;
      unsigned budget = 1 + static_cast<unsigned>( s.below( o.maxNodes ) );
      const size_t shape = s.weighted( { 5, 3, 1 } ); // as it comes, much of the budget used, deep
      MN *at = &root;
      if ( shape == 2 )
      {
         for ( unsigned depth = 1 + static_cast<unsigned>( s.below( o.maxDepth ) ); depth && budget; --depth, --budget )
         {
            MN n;
            n.t = s.chance( 1, 3 ) ? T::Vec : T::Struct;
            n.hetero = n.t == T::Vec;
            if ( at->t == T::Struct )
            {
               std::set<std::string> used;
               n.name = freshName( s, o.prefixes, used );
            }
            at->kids.push_back( std::move( n ) );
            at = &at->kids.back();
         }
         treeKids( s, *at, o, budget, o.maxDepth );
      }
      treeKids( s, root, o, budget, 0 );
      for ( unsigned turns = 0; shape == 1 && budget && turns < 200; ++turns )
         treeKids( s, root, o, budget, 0 );
      return root;
   }
}
