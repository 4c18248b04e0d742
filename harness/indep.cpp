#include "indep.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <set>

using namespace model;
using pbt::sprintf_;
using pbt::Src;

namespace indep
{
   // ------------------------------------------------------------------ pages

   uint32_t crc32c( const void *data, size_t n )
   {
      static uint32_t table[256];
      static bool init = false;
      if ( !init )
      {
         for ( uint32_t i = 0; i < 256; ++i )
         {
            uint32_t c = i;
            for ( int k = 0; k < 8; ++k )
               c = ( c & 1 ) ? ( c >> 1 ) ^ 0x82F63B78u : c >> 1;
            table[i] = c;
         }
         init = true;
      }
      uint32_t c = 0xFFFFFFFFu;
      const uint8_t *p = static_cast<const uint8_t *>( data );
      for ( size_t i = 0; i < n; ++i )
         c = table[( c ^ p[i] ) & 0xFF] ^ ( c >> 8 );
      return ~c;
   }

   static void putSum( char *page )
   {
      const uint32_t c = crc32c( page, Payload );
      page[1020] = static_cast<char>( c >> 24 );
      page[1021] = static_cast<char>( c >> 16 );
      page[1022] = static_cast<char>( c >> 8 );
      page[1023] = static_cast<char>( c );
   }

   std::string paginate( const std::string &logical )
   {
      const size_t pages = ( logical.size() + Payload - 1 ) / Payload;
      std::string out( pages * Page, '\0' );
      for ( size_t p = 0; p < pages; ++p )
      {
         const size_t n = std::min<size_t>( Payload, logical.size() - p * Payload );
         memcpy( &out[p * Page], &logical[p * Payload], n );
         putSum( &out[p * Page] );
      }
      return out;
   }

   void resum( std::string &physical )
   {
      for ( size_t p = 0; ( p + 1 ) * Page <= physical.size(); ++p )
         putSum( &physical[p * Page] );
   }

   std::string depaginate( const std::string &physical )
   {
      if ( physical.size() % Page != 0 )
         throw Bad( sprintf_( "file length %zu is not a multiple of 1024", physical.size() ) );
      std::string out;
      out.reserve( physical.size() );
      for ( size_t p = 0; p < physical.size() / Page; ++p )
      {
         const char *pg = &physical[p * Page];
         const uint32_t c = crc32c( pg, Payload );
         const uint8_t *q = reinterpret_cast<const uint8_t *>( pg + Payload );
         const uint32_t have = ( uint32_t( q[0] ) << 24 ) | ( uint32_t( q[1] ) << 16 ) | ( uint32_t( q[2] ) << 8 ) | q[3];
         if ( c != have )
            throw Bad( sprintf_( "page %zu: checksum %08x, computed %08x", p, have, c ) );
         out.append( pg, Payload );
      }
      return out;
   }

   static uint64_t le( const std::string &b, uint64_t at, unsigned n )
   {
      if ( at + n > b.size() )
         throw Bad( sprintf_( "bytes %llu+%u lie beyond the end of the file", (unsigned long long)at, n ) );
      uint64_t v = 0;
      for ( unsigned i = 0; i < n; ++i )
         v |= uint64_t( static_cast<uint8_t>( b[at + i] ) ) << ( 8 * i );
      return v;
   }
   static void put( std::string &b, uint64_t v, unsigned n )
   {
      for ( unsigned i = 0; i < n; ++i )
         b += static_cast<char>( v >> ( 8 * i ) );
   }
   static void poke( std::string &b, uint64_t at, uint64_t v, unsigned n )
   {
      for ( unsigned i = 0; i < n; ++i )
         b[at + i] = static_cast<char>( v >> ( 8 * i ) );
   }

   // -------------------------------------------------------------------- XML

   const std::string *Xml::attr( const std::string &n ) const
   {
      for ( auto &a : attrs )
         if ( a.first == n )
            return &a.second;
      return nullptr;
   }

   namespace
   {
      struct XP
      {
         const std::string &d;
         size_t p = 0;
         explicit XP( const std::string &doc ) : d( doc ) {}

         [[noreturn]] void bad( const std::string &m ) { throw Bad( sprintf_( "XML byte %zu: ", p ) + m ); }
         bool at( const char *t ) const { return d.compare( p, strlen( t ), t ) == 0; }
         bool eat( const char *t )
         {
            if ( !at( t ) )
               return false;
            p += strlen( t );
            return true;
         }
         void need( const char *t )
         {
            if ( !eat( t ) )
               bad( std::string( "expected " ) + t );
         }
         bool ws()
         {
            const size_t o = p;
            while ( p < d.size() && ( d[p] == ' ' || d[p] == '\t' || d[p] == '\n' || d[p] == '\r' ) )
               ++p;
            return p != o;
         }
         // one character as UTF-8, checked to be a legal XML character, line ends normalised
         void chr( std::string &out )
         {
            if ( p >= d.size() )
               bad( "end of document inside text" );
            const uint8_t c = static_cast<uint8_t>( d[p] );
            if ( c == '\r' )
            {
               ++p;
               if ( p < d.size() && d[p] == '\n' )
                  ++p;
               out += '\n';
               return;
            }
            if ( c < 0x80 )
            {
               if ( c < 0x20 && c != '\t' && c != '\n' )
                  bad( sprintf_( "character %u is not allowed", c ) );
               out += d[p++];
               return;
            }
            unsigned n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC2 ? 1 : 0;
            if ( n == 0 || c > 0xF4 || p + n >= d.size() )
               bad( "invalid UTF-8" );
            uint32_t cp = c & ( 0x3F >> n );
            for ( unsigned i = 1; i <= n; ++i )
            {
               const uint8_t k = static_cast<uint8_t>( d[p + i] );
               if ( ( k & 0xC0 ) != 0x80 )
                  bad( "invalid UTF-8" );
               cp = ( cp << 6 ) | ( k & 0x3F );
            }
            static const uint32_t least[] = { 0, 0x80, 0x800, 0x10000 };
            if ( cp < least[n] || cp > 0x10FFFF || ( cp >= 0xD800 && cp < 0xE000 ) || cp == 0xFFFE || cp == 0xFFFF )
               bad( sprintf_( "character U+%X is not allowed", cp ) );
            out.append( d, p, n + 1 );
            p += n + 1;
         }
         void ref( std::string &out )
         {
            need( "&" );
            const size_t e = d.find( ';', p );
            if ( e == std::string::npos || e - p > 10 )
               bad( "unterminated reference" );
            const std::string r = d.substr( p, e - p );
            if ( r == "lt" )
               out += '<';
            else if ( r == "gt" )
               out += '>';
            else if ( r == "amp" )
               out += '&';
            else if ( r == "quot" )
               out += '"';
            else if ( r == "apos" )
               out += '\'';
            else if ( r.size() > 1 && r[0] == '#' )
            {
               char *end = nullptr;
               const unsigned long cp = r[1] == 'x' ? strtoul( r.c_str() + 2, &end, 16 ) : strtoul( r.c_str() + 1, &end, 10 );
               if ( *end || !( cp == 9 || cp == 10 || cp == 13 || ( cp >= 32 && cp < 0xD800 ) || ( cp >= 0xE000 && cp < 0xFFFE ) ||
                               ( cp >= 0x10000 && cp <= 0x10FFFF ) ) )
                  bad( "bad character reference &" + r + ";" );
               model::appendUtf8( out, static_cast<uint32_t>( cp ) );
            }
            else
               bad( "unknown entity &" + r + ";" );
            p = e + 1;
         }
         std::string name()
         {
            const size_t o = p;
            while ( p < d.size() )
            {
               const uint8_t c = static_cast<uint8_t>( d[p] );
               const bool start = ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || c == '_' || c == ':' || c >= 0x80;
               const bool later = start || ( c >= '0' && c <= '9' ) || c == '-' || c == '.';
               if ( p == o ? !start : !later )
                  break;
               ++p;
            }
            if ( p == o )
               bad( "name expected" );
            return d.substr( o, p - o );
         }
         void comment()
         {
            need( "<!--" );
            std::string junk;
            while ( !at( "--" ) )
               chr( junk );
            need( "-->" );
         }
         void pi()
         {
            need( "<?" );
            const std::string t = name();
            if ( t == "xml" )
               bad( "XML declaration not at the start" );
            std::string junk;
            while ( !eat( "?>" ) )
               chr( junk );
         }
         void misc()
         {
            for ( ;; )
            {
               ws();
               if ( at( "<!--" ) )
                  comment();
               else if ( at( "<?" ) )
                  pi();
               else
                  return;
            }
         }
         Xml element( unsigned depth )
         {
            if ( depth > 2000 )
               bad( "nested too deeply" );
            Xml x;
            need( "<" );
            x.name = name();
            for ( ;; )
            {
               const bool space = ws();
               if ( eat( "/>" ) )
                  return x;
               if ( eat( ">" ) )
                  break;
               if ( !space )
                  bad( "white space expected between attributes" );
               const std::string an = name();
               if ( x.attr( an ) )
                  bad( "attribute " + an + " repeated" );
               ws();
               need( "=" );
               ws();
               const char q = p < d.size() ? d[p] : 0;
               if ( q != '"' && q != '\'' )
                  bad( "quote expected" );
               ++p;
               std::string v;
               while ( p < d.size() && d[p] != q )
               {
                  if ( d[p] == '<' )
                     bad( "< in an attribute" );
                  if ( d[p] == '&' )
                     ref( v );
                  else
                  {
                     std::string one;
                     chr( one );
                     v += ( one == "\n" || one == "\t" ) ? " " : one;
                  }
               }
               if ( p >= d.size() )
                  bad( "attribute not closed" );
               ++p;
               x.attrs.emplace_back( an, v );
            }
            for ( ;; )
            {
               if ( p >= d.size() )
                  bad( "element " + x.name + " not closed" );
               if ( at( "</" ) )
               {
                  p += 2;
                  const std::string e = name();
                  if ( e != x.name )
                     bad( "end tag " + e + " closes " + x.name );
                  ws();
                  need( ">" );
                  return x;
               }
               if ( at( "<!--" ) )
                  comment();
               else if ( eat( "<![CDATA[" ) )
               {
                  while ( !eat( "]]>" ) )
                     chr( x.text );
               }
               else if ( at( "<?" ) )
                  pi();
               else if ( at( "<" ) )
                  x.kids.push_back( element( depth + 1 ) );
               else if ( at( "&" ) )
                  ref( x.text );
               else
               {
                  if ( at( "]]>" ) )
                     bad( "]]> in text" );
                  chr( x.text );
               }
            }
         }
      };
   }

   Xml parseXml( const std::string &doc )
   {
      XP x( doc );
      if ( x.at( "<?xml" ) )
      {
         const size_t e = doc.find( "?>" );
         if ( e == std::string::npos )
            x.bad( "XML declaration not closed" );
         const std::string decl = doc.substr( 0, e );
         if ( decl.find( "version=\"1.0\"" ) == std::string::npos && decl.find( "version='1.0'" ) == std::string::npos )
            x.bad( "XML version is not 1.0" );
         const size_t enc = decl.find( "encoding" );
         if ( enc != std::string::npos && decl.find( "UTF-8", enc ) == std::string::npos )
            x.bad( "encoding is not UTF-8" );
         x.p = e + 2;
      }
      x.misc();
      Xml r = x.element( 0 );
      x.misc();
      if ( x.p != doc.size() )
         x.bad( "content after the root element" );
      return r;
   }

   // ---------------------------------------------------------------- decoder

   namespace
   {
      const char *Namespace = "http://www.astm.org/COMMIT/E57/2010-e57-v1.0";

      std::string trim( const std::string &s )
      {
         const size_t a = s.find_first_not_of( " \t\r\n" );
         if ( a == std::string::npos )
            return "";
         return s.substr( a, s.find_last_not_of( " \t\r\n" ) - a + 1 );
      }

      int64_t toInt( const std::string &text, const std::string &where )
      {
         const std::string t = trim( text );
         size_t i = ( !t.empty() && ( t[0] == '-' || t[0] == '+' ) ) ? 1 : 0;
         if ( i == t.size() || t.find_first_not_of( "0123456789", i ) != std::string::npos )
            throw Bad( where + ": '" + t + "' is not an integer" );
         errno = 0;
         const long long v = strtoll( t.c_str(), nullptr, 10 );
         if ( errno == ERANGE )
            throw Bad( where + ": '" + t + "' does not fit into 64 bits" );
         return v;
      }
      double toDouble( const std::string &text, const std::string &where, bool single )
      {
         const std::string t = trim( text );
         size_t i = 0, digits = 0;
         if ( i < t.size() && ( t[i] == '-' || t[i] == '+' ) )
            ++i;
         while ( i < t.size() && isdigit( static_cast<uint8_t>( t[i] ) ) )
            ++i, ++digits;
         if ( i < t.size() && t[i] == '.' )
         {
            ++i;
            while ( i < t.size() && isdigit( static_cast<uint8_t>( t[i] ) ) )
               ++i, ++digits;
         }
         bool ok = digits > 0;
         if ( ok && i < t.size() && ( t[i] == 'e' || t[i] == 'E' ) )
         {
            ++i;
            if ( i < t.size() && ( t[i] == '-' || t[i] == '+' ) )
               ++i;
            const size_t o = i;
            while ( i < t.size() && isdigit( static_cast<uint8_t>( t[i] ) ) )
               ++i;
            ok = i > o;
         }
         if ( !ok || i != t.size() )
            throw Bad( where + ": '" + t + "' is not a number" );
         const double v = single ? strtof( t.c_str(), nullptr ) : strtod( t.c_str(), nullptr );
         if ( std::isinf( v ) )
            throw Bad( where + ": '" + t + "' is out of range" );
         return v;
      }

      struct Dec
      {
         Decoded &r;
         const std::string &logical;
         uint64_t physicalLength;

         void allowed( const Xml &x, const std::string &where, std::initializer_list<const char *> names, bool isRoot )
         {
            for ( auto &a : x.attrs )
            {
               bool ok = a.first == "type";
               for ( auto n : names )
                  ok = ok || a.first == n;
               if ( isRoot && ( a.first == "xmlns" || a.first.compare( 0, 6, "xmlns:" ) == 0 ) )
                  ok = true;
               if ( !ok )
                  throw Bad( where + ": attribute " + a.first + " does not belong here" );
            }
         }
         const std::string &required( const Xml &x, const std::string &where, const char *n )
         {
            const std::string *a = x.attr( n );
            if ( !a )
               throw Bad( where + ": attribute " + n + " is missing" );
            return *a;
         }
         void noText( const Xml &x, const std::string &where )
         {
            if ( !trim( x.text ).empty() )
               throw Bad( where + ": text in a container" );
         }
         void noKids( const Xml &x, const std::string &where )
         {
            if ( !x.kids.empty() )
               throw Bad( where + ": children in a terminal element" );
         }

         uint64_t sectionStart( const std::string &attr, const std::string &where )
         {
            const int64_t o = toInt( attr, where );
            if ( o <= 0 || static_cast<uint64_t>( o ) >= physicalLength )
               throw Bad( where + sprintf_( ": file offset %lld is outside the file", (long long)o ) );
            if ( o % Page >= Payload )
               throw Bad( where + ": file offset lies in a checksum" );
            const uint64_t l = toLogical( static_cast<uint64_t>( o ) );
            if ( l % 4 )
               throw Bad( where + sprintf_( ": section at logical offset %llu is not aligned", (unsigned long long)l ) );
            return l;
         }

         void blob( const Xml &x, MN &n, const std::string &where )
         {
            const uint64_t at = sectionStart( required( x, where, "fileOffset" ), where );
            const int64_t len = toInt( required( x, where, "length" ), where );
            if ( len < 0 )
               throw Bad( where + ": negative length" );
            if ( le( logical, at, 1 ) != 0 )
               throw Bad( where + sprintf_( ": section id is %u", (unsigned)le( logical, at, 1 ) ) );
            for ( unsigned i = 1; i < 8; ++i )
               if ( logical[at + i] )
                  throw Bad( where + ": reserved bytes of the section header are not zero" );
            const uint64_t sl = le( logical, at + 8, 8 );
            if ( sl % 4 || sl < 16 + static_cast<uint64_t>( len ) || sl > 16 + static_cast<uint64_t>( len ) + 3 )
               throw Bad( where + sprintf_( ": section length %llu for a blob of %lld bytes", (unsigned long long)sl, (long long)len ) );
            if ( at + sl > logical.size() )
               throw Bad( where + ": section ends beyond the file" );
            n.s = logical.substr( at + 16, static_cast<size_t>( len ) );
            r.sections.push_back( { at, sl, where } );
         }

         void records( MN &n, uint64_t at, const std::string &where )
         {
            if ( le( logical, at, 1 ) != 1 )
               throw Bad( where + sprintf_( ": section id is %u", (unsigned)le( logical, at, 1 ) ) );
            for ( unsigned i = 1; i < 8; ++i )
               if ( logical[at + i] )
                  throw Bad( where + ": reserved bytes of the section header are not zero" );
            const uint64_t sl = le( logical, at + 8, 8 );
            const uint64_t dataPhys = le( logical, at + 16, 8 );
            const uint64_t indexPhys = le( logical, at + 24, 8 );
            if ( sl % 4 || sl < 32 || at + sl > logical.size() )
               throw Bad( where + sprintf_( ": section length %llu", (unsigned long long)sl ) );
            r.sections.push_back( { at, sl, where } );
            const auto leaves = leavesOf( n.proto[0] );
            std::vector<std::string> st( leaves.size() );
            std::map<uint64_t, unsigned> kinds;
            bool firstData = true, indexSeen = false;
            uint64_t lastEntryRec = 0;
            for ( uint64_t p = at + 32; p < at + sl; )
            {
               const unsigned type = static_cast<unsigned>( le( logical, p, 1 ) );
               const uint64_t len = le( logical, p + 2, 2 ) + 1;
               if ( len % 4 || p + len > at + sl )
                  throw Bad( where + sprintf_( ": packet at %llu has length %llu", (unsigned long long)p, (unsigned long long)len ) );
               const std::string pw = where + sprintf_( ": packet at +%llu", (unsigned long long)( p - at ) );
               kinds[p] = type;
               r.packets.push_back( { p, type, static_cast<unsigned>( len ), {} } );
               if ( type == 1 )
               {
                  if ( len < 6 )
                     throw Bad( pw + " is too short" );
                  if ( le( logical, p + 1, 1 ) > 1 )
                     throw Bad( pw + " has unknown flags" );
                  const uint64_t streams = le( logical, p + 4, 2 );
                  if ( firstData && toPhysical( p ) != dataPhys )
                     throw Bad( pw + " is the first data packet but not the one the section header names" );
                  if ( streams != leaves.size() && !( n.nrec == 0 && streams == 0 ) )
                     throw Bad( pw + sprintf_( " has %llu streams for %zu fields", (unsigned long long)streams, leaves.size() ) );
                  firstData = false;
                  uint64_t q = p + 6 + 2 * streams;
                  if ( 6 + 2 * streams > len )
                     throw Bad( pw + " does not hold its stream lengths" );
                  for ( uint64_t i = 0; i < streams; ++i )
                  {
                     const uint64_t k = le( logical, p + 6 + 2 * i, 2 );
                     if ( q + k > p + len )
                        throw Bad( pw + " does not hold its streams" );
                     st[i].append( logical, q, k );
                     r.packets.back().streams.push_back( static_cast<unsigned>( k ) );
                     q += k;
                  }
                  if ( p + len - q > 3 )
                     throw Bad( pw + " has too much padding" );
                  for ( ; q < p + len; ++q )
                     if ( logical[q] )
                        throw Bad( pw + " has padding that is not zero" );
               }
               else if ( type == 0 )
               {
                  if ( len < 16 )
                     throw Bad( pw + " is too short" );
                  const uint64_t cnt = le( logical, p + 4, 2 ), level = le( logical, p + 6, 1 );
                  for ( unsigned i = 7; i < 16; ++i )
                     if ( logical[p + i] )
                        throw Bad( pw + ": reserved bytes are not zero" );
                  if ( le( logical, p + 1, 1 ) != 0 )
                     throw Bad( pw + ": index packet flags are not zero" );
                  if ( cnt < 1 || cnt > 2048 || level > 5 || 16 + 16 * cnt != len )
                     throw Bad( pw + sprintf_( ": index with %llu entries, level %llu, length %llu", (unsigned long long)cnt,
                                               (unsigned long long)level, (unsigned long long)len ) );
                  if ( toPhysical( p ) == indexPhys )
                     indexSeen = true;
                  for ( uint64_t i = 0; i < cnt; ++i )
                  {
                     const uint64_t rec = le( logical, p + 16 + 16 * i, 8 ), off = le( logical, p + 24 + 16 * i, 8 );
                     if ( i == 0 && rec != 0 && toPhysical( p ) == indexPhys )
                        throw Bad( pw + ": first index entry is not for record 0" );
                     if ( i > 0 && rec <= lastEntryRec )
                        throw Bad( pw + ": index entries are not increasing" );
                     if ( rec > 0 && rec >= n.nrec )
                        throw Bad( pw + ": index entry for a record that does not exist" );
                     lastEntryRec = rec;
                     const uint64_t lo = toLogical( off );
                     if ( off % Page >= Payload || lo < at + 32 || lo >= at + sl )
                        throw Bad( pw + ": index entry points outside the section" );
                     if ( level == 0 && le( logical, lo, 1 ) != 1 )
                        throw Bad( pw + ": index entry does not point to a data packet" );
                     if ( level == 0 && rec == 0 && off != dataPhys )
                        throw Bad( pw + ": index entry of record 0 is not the first data packet" );
                  }
               }
               else if ( type == 2 )
               {
                  if ( le( logical, p + 1, 1 ) != 0 )
                     throw Bad( pw + ": reserved byte is not zero" );
               }
               else
                  throw Bad( pw + sprintf_( " has type %u", type ) );
               p += len;
            }
            if ( firstData )
               throw Bad( where + ": no data packet" );
            if ( !indexSeen )
               throw Bad( where + ": no index packet where the section header names one" );
            // decode
            n.cols.assign( leaves.size(), Col() );
            for ( size_t f = 0; f < leaves.size(); ++f )
               stream( *leaves[f].n, st[f], n.nrec, n.cols[f], where + "." + leaves[f].path );
         }

         void stream( const MN &leaf, const std::string &st, uint64_t nrec, Col &c, const std::string &where )
         {
            if ( leaf.t == T::Str )
            {
               size_t p = 0;
               for ( uint64_t k = 0; k < nrec; ++k )
               {
                  const uint64_t b = le( st, p, 1 );
                  uint64_t len;
                  if ( b & 1 )
                  {
                     len = le( st, p, 8 ) >> 1;
                     p += 8;
                  }
                  else
                  {
                     len = b >> 1;
                     p += 1;
                  }
                  if ( len > st.size() - p )
                     throw Bad( where + ": string runs beyond its stream" );
                  c.s.push_back( st.substr( p, len ) );
                  p += len;
               }
               if ( p != st.size() )
                  throw Bad( where + sprintf_( ": %zu bytes after the last string", st.size() - p ) );
               return;
            }
            if ( leaf.t == T::Flt )
            {
               const unsigned w = leaf.single ? 4 : 8;
               if ( st.size() != w * nrec )
                  throw Bad( where + sprintf_( ": stream of %zu bytes for %llu floats", st.size(), (unsigned long long)nrec ) );
               for ( uint64_t k = 0; k < nrec; ++k )
               {
                  if ( leaf.single )
                  {
                     float x;
                     memcpy( &x, &st[k * 4], 4 );
                     c.d.push_back( x );
                  }
                  else
                  {
                     double x;
                     memcpy( &x, &st[k * 8], 8 );
                     c.d.push_back( x );
                  }
               }
               return;
            }
            const unsigned bits = bitsOf( leaf );
            const uint64_t need = ( uint64_t( bits ) * nrec + 7 ) / 8;
            if ( st.size() < need || st.size() > need + 7 )
               throw Bad( where + sprintf_( ": stream of %zu bytes for %llu values of %u bits", st.size(), (unsigned long long)nrec, bits ) );
            uint64_t bit = 0;
            const auto get = [&]( unsigned k ) {
               uint64_t v = 0;
               for ( unsigned i = 0; i < k; ++i, ++bit )
                  v |= uint64_t( ( static_cast<uint8_t>( st[bit / 8] ) >> ( bit % 8 ) ) & 1 ) << i;
               return v;
            };
            for ( uint64_t k = 0; k < nrec; ++k )
            {
               const uint64_t raw = get( bits );
               if ( raw > static_cast<uint64_t>( leaf.mx ) - static_cast<uint64_t>( leaf.mn ) )
                  throw Bad( where + sprintf_( ": record %llu is above the maximum", (unsigned long long)k ) );
               c.i.push_back( static_cast<int64_t>( static_cast<uint64_t>( leaf.mn ) + raw ) );
            }
            while ( bit < st.size() * 8 )
               if ( get( 1 ) )
                  throw Bad( where + ": padding bits after the last record are not zero" );
         }

         MN node( const Xml &x, const std::string &where, bool isRoot, bool inProto )
         {
            MN n;
            if ( !isRoot )
               n.name = x.name;
            if ( !isRoot )
            {
               const size_t colon = x.name.find( ':' );
               if ( colon != std::string::npos )
               {
                  bool ok = false;
                  for ( auto &e : r.exts )
                     ok = ok || e.first == x.name.substr( 0, colon );
                  if ( !ok )
                     throw Bad( where + ": prefix is not declared" );
               }
            }
            const std::string &type = required( x, where, "type" );
            if ( type == "Structure" )
            {
               n.t = T::Struct;
               allowed( x, where, {}, isRoot );
               noText( x, where );
               std::set<std::string> seen;
               for ( auto &k : x.kids )
               {
                  if ( !seen.insert( k.name ).second )
                     throw Bad( where + ": child " + k.name + " occurs twice" );
                  n.kids.push_back( node( k, where + "/" + k.name, false, inProto ) );
               }
            }
            else if ( type == "Vector" )
            {
               n.t = T::Vec;
               allowed( x, where, { "allowHeterogeneousChildren" }, false );
               if ( auto a = x.attr( "allowHeterogeneousChildren" ) )
               {
                  const int64_t v = toInt( *a, where );
                  if ( v != 0 && v != 1 )
                     throw Bad( where + ": allowHeterogeneousChildren is " + *a );
                  n.hetero = v == 1;
               }
               noText( x, where );
               for ( size_t i = 0; i < x.kids.size(); ++i )
               {
                  if ( x.kids[i].name != "vectorChild" )
                     throw Bad( where + ": vector child is called " + x.kids[i].name );
                  n.kids.push_back( node( x.kids[i], where + "/" + std::to_string( i ), false, inProto ) );
                  n.kids.back().name.clear();
               }
            }
            else if ( type == "CompressedVector" )
            {
               if ( inProto )
                  throw Bad( where + ": compressed vector in a prototype" );
               n.t = T::CV;
               allowed( x, where, { "fileOffset", "recordCount" }, false );
               noText( x, where );
               const int64_t cnt = toInt( required( x, where, "recordCount" ), where );
               if ( cnt < 0 )
                  throw Bad( where + ": negative record count" );
               n.nrec = static_cast<uint64_t>( cnt );
               const uint64_t at = sectionStart( required( x, where, "fileOffset" ), where );
               for ( auto &k : x.kids )
               {
                  if ( k.name == "prototype" && n.proto.empty() )
                  {
                     n.proto.push_back( node( k, where + "/prototype", false, true ) );
                     n.proto[0].name.clear();
                  }
                  else if ( k.name == "codecs" && n.codecs.empty() )
                  {
                     n.codecs.push_back( node( k, where + "/codecs", false, true ) );
                     n.codecs[0].name.clear();
                     if ( n.codecs[0].t != T::Vec || !n.codecs[0].hetero )
                        throw Bad( where + ": codecs is not a heterogeneous vector" );
                  }
                  else
                     throw Bad( where + ": unexpected child " + k.name );
               }
               if ( n.proto.empty() )
                  throw Bad( where + ": no prototype" );
               records( n, at, where );
            }
            else if ( type == "Integer" || type == "ScaledInteger" )
            {
               n.t = type == "Integer" ? T::Int : T::SInt;
               if ( n.t == T::Int )
                  allowed( x, where, { "minimum", "maximum" }, false );
               else
                  allowed( x, where, { "minimum", "maximum", "scale", "offset" }, false );
               noKids( x, where );
               if ( auto a = x.attr( "minimum" ) )
                  n.mn = toInt( *a, where );
               if ( auto a = x.attr( "maximum" ) )
                  n.mx = toInt( *a, where );
               if ( auto a = x.attr( "scale" ) )
                  n.scale = toDouble( *a, where, false );
               if ( auto a = x.attr( "offset" ) )
                  n.off = toDouble( *a, where, false );
               n.v = trim( x.text ).empty() ? 0 : toInt( x.text, where );
               if ( n.mn > n.mx || ( !inProto && ( n.v < n.mn || n.v > n.mx ) ) )
                  throw Bad( where + ": value outside its bounds" );
            }
            else if ( type == "Float" )
            {
               n.t = T::Flt;
               allowed( x, where, { "minimum", "maximum", "precision" }, false );
               noKids( x, where );
               if ( auto a = x.attr( "precision" ) )
               {
                  if ( *a != "single" && *a != "double" )
                     throw Bad( where + ": precision " + *a );
                  n.single = *a == "single";
               }
               n.dmn = n.single ? -FLT_MAX : -DBL_MAX;
               n.dmx = n.single ? FLT_MAX : DBL_MAX;
               if ( auto a = x.attr( "minimum" ) )
                  n.dmn = toDouble( *a, where, n.single );
               if ( auto a = x.attr( "maximum" ) )
                  n.dmx = toDouble( *a, where, n.single );
               n.d = trim( x.text ).empty() ? 0 : toDouble( x.text, where, n.single );
               if ( n.dmn > n.dmx || ( !inProto && ( n.d < n.dmn || n.d > n.dmx ) ) )
                  throw Bad( where + ": value outside its bounds" );
            }
            else if ( type == "String" )
            {
               n.t = T::Str;
               allowed( x, where, {}, false );
               noKids( x, where );
               n.s = x.text;
            }
            else if ( type == "Blob" )
            {
               if ( inProto )
                  throw Bad( where + ": blob in a prototype" );
               n.t = T::Blob;
               allowed( x, where, { "fileOffset", "length" }, false );
               noKids( x, where );
               noText( x, where );
               blob( x, n, where );
            }
            else
               throw Bad( where + ": type '" + type + "'" );
            return n;
         }
      };
   }

   Decoded decode( const std::string &physical )
   {
      Decoded r;
      if ( physical.empty() )
         throw Bad( "empty file" );
      const std::string logical = depaginate( physical );
      if ( logical.compare( 0, 8, "ASTM-E57" ) != 0 )
         throw Bad( "wrong signature" );
      if ( le( logical, 8, 4 ) != 1 || le( logical, 12, 4 ) != 0 )
         throw Bad( "version is not 1.0" );
      if ( le( logical, 16, 8 ) != physical.size() )
         throw Bad( sprintf_( "header says %llu bytes, file has %zu", (unsigned long long)le( logical, 16, 8 ), physical.size() ) );
      const uint64_t xo = le( logical, 24, 8 ), xl = le( logical, 32, 8 );
      if ( le( logical, 40, 8 ) != Page )
         throw Bad( "page size is not 1024" );
      if ( xo % Page >= Payload || xo >= physical.size() )
         throw Bad( "XML offset is wrong" );
      r.xmlStart = toLogical( xo );
      r.xmlLength = xl;
      if ( r.xmlStart < 48 || xl > logical.size() - r.xmlStart )
         throw Bad( "XML section lies outside the file" );
      r.xml = logical.substr( r.xmlStart, xl );
      r.sections.push_back( { 0, 48, "file header" } );
      r.sections.push_back( { r.xmlStart, xl, "XML" } );
      const Xml x = parseXml( r.xml );
      if ( x.name != "e57Root" )
         throw Bad( "root element is " + x.name );
      const std::string *t = x.attr( "type" );
      if ( !t || *t != "Structure" )
         throw Bad( "root element is no structure" );
      const std::string *ns = x.attr( "xmlns" );
      if ( !ns )
         throw Bad( "default namespace is not declared" );
      for ( auto &a : x.attrs )
         if ( a.first.compare( 0, 6, "xmlns:" ) == 0 )
            r.exts.emplace_back( a.first.substr( 6 ), a.second );
      if ( *ns != Namespace )
         throw Bad( "default namespace is " + *ns );
      Dec d{ r, logical, physical.size() };
      r.root = d.node( x, "", true, false );
      std::sort( r.sections.begin(), r.sections.end(), []( const Section &a, const Section &b ) { return a.start < b.start; } );
      for ( size_t i = 1; i < r.sections.size(); ++i )
         if ( r.sections[i].start < r.sections[i - 1].start + r.sections[i - 1].length )
            throw Bad( "sections of " + r.sections[i - 1].what + " and " + r.sections[i].what + " overlap" );
      return r;
   }

   // ---------------------------------------------------------------- encoder

   // where the streams are before record r, a multiple of 8
   std::vector<size_t> offsets( const MN &cv, uint64_t r )
   {
      const auto leaves = leavesOf( cv.proto[0] );
      std::vector<size_t> o;
      for ( size_t f = 0; f < leaves.size(); ++f )
      {
         const MN &l = *leaves[f].n;
         size_t n = 0;
         if ( l.t == T::Str )
            for ( uint64_t i = 0; i < r; ++i )
               n += cv.cols[f].s[i].size() + ( cv.cols[f].s[i].size() <= 127 ? 1 : 8 );
         else
            n = l.t == T::Flt ? ( l.single ? 4 : 8 ) * r : bitsOf( l ) * r / 8;
         o.push_back( n );
      }
      return o;
   }

   std::vector<std::string> streams( const MN &cv )
   {
      const auto leaves = leavesOf( cv.proto[0] );
      std::vector<std::string> out( leaves.size() );
      for ( size_t f = 0; f < leaves.size(); ++f )
      {
         const MN &l = *leaves[f].n;
         std::string &o = out[f];
         const Col &c = cv.cols[f];
         if ( l.t == T::Str )
         {
            for ( auto &x : c.s )
            {
               if ( x.size() <= 127 )
                  o += static_cast<char>( x.size() << 1 );
               else
                  put( o, ( uint64_t( x.size() ) << 1 ) | 1, 8 );
               o += x;
            }
         }
         else if ( l.t == T::Flt )
         {
            for ( double d : c.d )
            {
               if ( l.single )
               {
                  const float x = static_cast<float>( d );
                  o.append( reinterpret_cast<const char *>( &x ), 4 );
               }
               else
                  o.append( reinterpret_cast<const char *>( &d ), 8 );
            }
         }
         else
         {
            const unsigned bits = bitsOf( l );
            o.assign( ( uint64_t( bits ) * c.i.size() + 7 ) / 8, '\0' );
            uint64_t bit = 0;
            for ( int64_t v : c.i )
            {
               const uint64_t raw = static_cast<uint64_t>( v ) - static_cast<uint64_t>( l.mn );
               for ( unsigned i = 0; i < bits; ++i, ++bit )
                  if ( ( raw >> i ) & 1 )
                     o[bit / 8] = static_cast<char>( static_cast<uint8_t>( o[bit / 8] ) | ( 1u << ( bit % 8 ) ) );
            }
         }
      }
      return out;
   }

   namespace
   {
      std::string dataPacket( const std::vector<std::string> &parts )
      {
         std::string p;
         put( p, 1, 1 );
         put( p, 0, 1 );
         put( p, 0, 2 );
         put( p, parts.size(), 2 );
         for ( auto &x : parts )
            put( p, x.size(), 2 );
         for ( auto &x : parts )
            p += x;
         while ( p.size() % 4 )
            p += '\0';
         poke( p, 2, p.size() - 1, 2 );
         return p;
      }

      struct Enc
      {
         Src &s;
         const Layout &l;
         Encoded &out;

         std::string emptyPacket()
         {
            const size_t len = 4 * ( 1 + s.geom( 4, 200 ) );
            std::string p( len, '\0' );
            p[0] = 2;
            poke( p, 2, len - 1, 2 );
            return p;
         }

         // bytes of the section; offsets inside depend on where it starts
         std::string cvSection( const MN &n, uint64_t start )
         {
            std::vector<std::string> st = streams( n );
            if ( l.pad )
               for ( size_t f = 0; f < st.size(); ++f )
               {
                  const auto leaves = leavesOf( n.proto[0] );
                  if ( ( leaves[f].n->t == T::Int || leaves[f].n->t == T::SInt ) && !st[f].empty() )
                     while ( st[f].size() % 8 && s.flip() )
                        st[f] += '\0';
               }
            std::string b( 32, '\0' );
            b[0] = 1;
            std::vector<size_t> pos( st.size(), 0 );
            uint64_t dataAt = 0;
            // chunks: the record and the packet each starts with; ends[j]: where the streams are at the end of chunk j
            std::vector<std::pair<uint64_t, uint64_t>> chunks;
            std::vector<uint64_t> starts{ 0 };
            std::vector<std::vector<size_t>> ends;
            if ( l.packets && n.nrec > 8 && s.flip() )
            {
               std::set<uint64_t> at;
               for ( uint64_t k = 1 + s.geom( 3, 60 ); k; --k )
                  at.insert( 8 * ( 1 + s.below( ( n.nrec - 1 ) / 8 ) ) ); // (whole bytes in every stream)
               for ( uint64_t r : at )
               {
                  starts.push_back( r );
                  ends.push_back( offsets( n, r ) );
               }
            }
            ends.emplace_back();
            for ( auto &x : st )
               ends.back().push_back( x.size() );
            size_t chunk = 0;
            std::vector<std::pair<uint64_t, size_t>> idx; // index packets and their numbers of entries
            const auto indexPacket = [&] {
               const size_t k = std::max<size_t>( 1, std::min<size_t>( chunks.size(), 2048 ) );
               idx.emplace_back( b.size(), k );
               std::string p( 16 + 16 * k, '\0' );
               poke( p, 2, p.size() - 1, 2 );
               poke( p, 4, k, 2 );
               b += p;
            };
            size_t total = 0, used = 0;
            for ( auto &x : st )
               total += x.size();
            // style of this section: how much goes into one packet
            size_t target = l.packets && l.full ? 65536 : l.packets ? s.pick<size_t>( { 1, 3, 17, 100, 1000, 20000, 65000, 65536 } ) : 60000;
            target = std::max( target, total / 3000 );
            const bool lopsided = l.packets && s.chance( 1, 4 ); // one stream after another
            const auto foreign = [&] {
               if ( !l.packets )
                  return;
               while ( s.chance( 1, 8 ) )
               {
                  ++out.otherPackets;
                  if ( s.flip() )
                     b += emptyPacket();
                  else
                     indexPacket(); // entries are filled in at the end
               }
            };
            std::vector<uint64_t> dataPos;
            do
            {
               foreign();
               std::vector<std::string> parts( st.size() );
               size_t room = 65536 - 6 - 2 * st.size();
               size_t budget = std::max<size_t>( 1, std::min( room, target ) );
               if ( l.packets && s.chance( 1, 10 ) && used < total )
                  ; // a data packet without data
               else
               {
                  std::vector<size_t> order( st.size() );
                  for ( size_t i = 0; i < order.size(); ++i )
                     order[i] = i;
                  if ( l.packets && !lopsided && order.size() > 1 )
                     std::swap( order[0], order[s.below( order.size() )] );
                  for ( size_t f : order )
                  {
                     const size_t left = ends[chunk][f] - pos[f];
                     size_t k = std::min( left, budget );
                     if ( l.packets && !l.full && k > 0 && !lopsided && s.chance( 1, 3 ) )
                        k = s.below( k + 1 );
                     parts[f] = st[f].substr( pos[f], k );
                     pos[f] += k;
                     used += k;
                     budget -= k;
                     if ( lopsided && k )
                        break;
                  }
               }
               if ( chunks.size() == chunk )
                  chunks.emplace_back( starts[chunk], b.size() );
               dataPos.push_back( b.size() );
               if ( chunk + 1 < ends.size() && pos == ends[chunk] )
                  ++chunk;
               b += dataPacket( parts );
               if ( b.size() - dataPos.back() == 65536 )
                  ++out.fullPackets;
               ++out.dataPackets;
            } while ( used < total );
            foreign();
            // the index the section header names
            const uint64_t indexAt = b.size();
            indexPacket();
            foreign();
            for ( auto &i : idx )
               for ( size_t k = 0; k < i.second; ++k )
               {
                  poke( b, i.first + 16 + 16 * k, chunks[k].first, 8 );
                  poke( b, i.first + 24 + 16 * k, toPhysical( start + chunks[k].second ), 8 );
               }
            out.chunks = std::max<unsigned>( out.chunks, static_cast<unsigned>( chunks.size() ) );
            dataAt = dataPos[0];
            poke( b, 8, b.size(), 8 );
            poke( b, 16, toPhysical( start + dataAt ), 8 );
            poke( b, 24, toPhysical( start + indexAt ), 8 );
            return b;
         }
         std::string blobSection( const MN &n )
         {
            std::string b( 16, '\0' );
            b += n.s;
            while ( b.size() % 4 )
               b += '\0';
            poke( b, 8, b.size(), 8 );
            return b;
         }

         // ------------------------------------------------------------- XML
         std::string ws()
         {
            if ( !l.xmlStyle || !s.chance( 1, 4 ) )
               return "";
            return s.pick<const char *>( { " ", "\n", "\t", "\r\n", "  \n  " } );
         }
         std::string filler() // between elements
         {
            if ( !l.xmlStyle )
               return "\n";
            std::string o = ws();
            if ( s.chance( 1, 12 ) )
               o += s.pick<const char *>( { "<!-- note -->", "<!---->", "<?pi some data?>", "<!-- <a type='x'> & -->" } );
            return o + ws();
         }
         std::string spellInt( int64_t v )
         {
            std::string t = std::to_string( v );
            if ( !l.spellings )
               return t;
            switch ( s.weighted( { 6, 1, 1, 1 } ) )
            {
               case 1:
                  return v < 0 ? t : "+" + t;
               case 2:
                  return v < 0 ? "-00" + t.substr( 1 ) : "00" + t;
               case 3:
                  return s.pick<const char *>( { " ", "\n", "\t " } ) + t + s.pick<const char *>( { " ", "\n", "" } );
               default:
                  return t;
            }
         }
         std::string spellDouble( double d, bool single )
         {
            std::string t = single ? sprintf_( "%.9g", d ) : sprintf_( "%.17g", d );
            if ( !l.spellings )
               return t;
            switch ( s.weighted( { 4, 1, 1, 1, 1, 1, 1 } ) )
            {
               case 1:
                  t = sprintf_( "%.20e", d );
                  break;
               case 2:
                  t = sprintf_( "%.16E", d );
                  break;
               case 3:
                  if ( std::fabs( d ) < 1e15 && d == std::floor( d ) )
                     t = sprintf_( "%.0f", d ) + s.pick<const char *>( { "", ".", ".0", ".000", "e0", "E+00" } );
                  break;
               case 4:
                  if ( std::fabs( d ) > 1e-4 && std::fabs( d ) < 1 )
                  {
                     t = sprintf_( "%.25f", d );
                     t.erase( t.find( '0' ), 1 ); // ".5"
                  }
                  break;
               case 5:
                  if ( t[0] != '-' )
                     t = "+" + t;
                  break;
               case 6:
                  t = " " + t + "\n";
                  break;
               default:
                  break;
            }
            return t;
         }
         std::string escape( const std::string &v, char q )
         {
            std::string o;
            for ( size_t i = 0; i < v.size(); ++i )
            {
               const char c = v[i];
               if ( c == '<' )
                  o += "&lt;";
               else if ( c == '&' )
                  o += "&amp;";
               else if ( c == '>' && ( q || true ) )
                  o += l.xmlStyle && s.flip() ? "&#62;" : "&gt;";
               else if ( c == q && q )
                  o += q == '"' ? "&quot;" : "&apos;";
               else if ( c == '\r' || ( q && ( c == '\n' || c == '\t' ) ) )
                  o += sprintf_( s.flip() ? "&#%d;" : "&#x%x;", static_cast<int>( c ) );
               else if ( l.xmlStyle && static_cast<uint8_t>( c ) < 0x80 && c >= ' ' && !isdigit( c ) &&
                         s.chance( 1, 40 ) )
                  o += sprintf_( "&#x%X;", static_cast<int>( c ) );
               else
                  o += c;
            }
            return o;
         }
         std::string attrs( std::vector<std::pair<std::string, std::string>> a )
         {
            if ( l.xmlStyle )
               for ( size_t i = a.size(); i > 1; --i )
                  std::swap( a[i - 1], a[s.below( i )] );
            std::string o;
            for ( auto &x : a )
            {
               const char q = l.xmlStyle && s.chance( 1, 3 ) ? '\'' : '"';
               o += " " + ws() + x.first + ws() + "=" + ws() + q + escape( x.second, q ) + q;
            }
            return o + ws();
         }
         std::string text( const std::string &v )
         {
            if ( v.empty() )
               return l.xmlStyle && s.chance( 1, 4 ) ? "<![CDATA[]]>" : "";
            if ( !l.xmlStyle )
               return escape( v, 0 );
            std::string o;
            size_t p = 0;
            while ( p < v.size() )
            {
               size_t n = s.chance( 2, 3 ) ? v.size() - p : 1 + s.below( v.size() - p );
               while ( p + n < v.size() && ( static_cast<uint8_t>( v[p + n] ) & 0xC0 ) == 0x80 )
                  ++n;
               const std::string part = v.substr( p, n );
               p += n;
               if ( s.flip() && part.find( "]]>" ) == std::string::npos && part.find( '\r' ) == std::string::npos )
                  o += "<![CDATA[" + part + "]]>";
               else
                  o += escape( part, 0 );
               if ( s.chance( 1, 6 ) )
                  o += s.pick<const char *>( { "<!-- in between -->", "<?x y?>", "<!---->" } );
            }
            return o;
         }
         std::string close( const std::string &name, const std::string &attrText, const std::string &content )
         {
            if ( content.empty() && s.chance( 1, 2 ) )
               return "<" + name + attrText + "/>";
            return "<" + name + attrText + ">" + content + "</" + name + ws() + ">";
         }
         bool omit() { return !l.xmlStyle || s.flip(); } // leave out an attribute that has its default

         std::string node( const MN &n, const std::string &name, std::vector<std::pair<std::string, std::string>> a,
                           const std::map<const MN *, uint64_t> &where )
         {
            std::string c;
            switch ( n.t )
            {
               case T::Struct:
                  a.emplace_back( "type", "Structure" );
                  for ( auto &k : n.kids )
                     c += filler() + node( k, k.name, {}, where );
                  c += filler();
                  break;
               case T::Vec:
                  a.emplace_back( "type", "Vector" );
                  if ( n.hetero || !omit() )
                     a.emplace_back( "allowHeterogeneousChildren", n.hetero ? "1" : "0" );
                  for ( auto &k : n.kids )
                     c += filler() + node( k, "vectorChild", {}, where );
                  c += filler();
                  break;
               case T::CV:
               {
                  a.emplace_back( "type", "CompressedVector" );
                  a.emplace_back( "fileOffset", std::to_string( toPhysical( where.at( &n ) ) ) );
                  a.emplace_back( "recordCount", spellInt( static_cast<int64_t>( n.nrec ) ) );
                  const std::string p = node( n.proto[0], "prototype", {}, where );
                  MN none;
                  none.t = T::Vec;
                  none.hetero = true;
                  const std::string q = node( n.codecs.empty() ? none : n.codecs[0], "codecs", {}, where );
                  if ( l.xmlStyle && s.chance( 1, 4 ) )
                     c = filler() + q + filler() + p + filler();
                  else
                     c = filler() + p + filler() + q + filler();
                  break;
               }
               case T::Int:
               case T::SInt:
                  a.emplace_back( "type", n.t == T::Int ? "Integer" : "ScaledInteger" );
                  if ( n.mn != INT64_MIN || !omit() )
                     a.emplace_back( "minimum", spellInt( n.mn ) );
                  if ( n.mx != INT64_MAX || !omit() )
                     a.emplace_back( "maximum", spellInt( n.mx ) );
                  if ( n.t == T::SInt )
                  {
                     if ( n.scale != 1 || !omit() )
                        a.emplace_back( "scale", spellDouble( n.scale, false ) );
                     if ( n.off != 0 || std::signbit( n.off ) || !omit() )
                        a.emplace_back( "offset", spellDouble( n.off, false ) );
                  }
                  if ( n.v != 0 || !omit() )
                     c = l.xmlStyle && s.chance( 1, 12 ) ? "<![CDATA[" + spellInt( n.v ) + "]]>" : spellInt( n.v );
                  break;
               case T::Flt:
                  a.emplace_back( "type", "Float" );
                  if ( n.single || !omit() )
                     a.emplace_back( "precision", n.single ? "single" : "double" );
                  if ( n.dmn != ( n.single ? -FLT_MAX : -DBL_MAX ) || !omit() )
                     a.emplace_back( "minimum", spellDouble( n.dmn, n.single ) );
                  if ( n.dmx != ( n.single ? FLT_MAX : DBL_MAX ) || !omit() )
                     a.emplace_back( "maximum", spellDouble( n.dmx, n.single ) );
                  if ( n.d != 0 || std::signbit( n.d ) || !omit() )
                     c = spellDouble( n.d, n.single );
                  break;
               case T::Str:
                  a.emplace_back( "type", "String" );
                  c = text( n.s );
                  break;
               case T::Blob:
                  a.emplace_back( "type", "Blob" );
                  a.emplace_back( "fileOffset", std::to_string( toPhysical( where.at( &n ) ) ) );
                  a.emplace_back( "length", spellInt( static_cast<int64_t>( n.s.size() ) ) );
                  c = ws();
                  break;
            }
            return close( name, attrs( a ), c );
         }
      };

      void sectionsOf( const MN &n, std::vector<const MN *> &out )
      {
         if ( n.t == T::CV || n.t == T::Blob )
            out.push_back( &n );
         for ( auto &k : n.kids )
            sectionsOf( k, out );
      }
   }

   Encoded encode( Src &s, const MN &root, const std::vector<std::pair<std::string, std::string>> &exts, const Layout &l )
   {
      Encoded out;
      Enc e{ s, l, out };
      std::vector<const MN *> items;
      sectionsOf( root, items );
      items.push_back( nullptr ); // the XML
      if ( l.shuffle )
         for ( size_t i = items.size(); i > 1; --i )
            std::swap( items[i - 1], items[s.below( i )] );
      const auto gap = [&]( std::string &b ) {
         while ( b.size() % 4 )
            b += '\0';
         if ( l.gaps && s.chance( 1, 3 ) )
         {
            size_t n = s.chance( 1, 3 ) ? Payload - 4 - ( b.size() % Payload ) : 4 * s.geom( 100, 2000 );
            const char fill = s.pick<char>( { '\0', '\xFF', '<', '\x01' } );
            b.append( n, fill );
         }
      };
      uint64_t shift = 0; // of what follows
      const auto jump = [&]( std::string &b, size_t expected ) {
         if ( !l.far || s.chance( 1, 5 ) )
            return;
         b.resize( ( b.size() + Payload - 1 ) / Payload * Payload, '\0' );
         const uint64_t here = b.size() / Payload + shift / Payload;
         const uint64_t limit = uint64_t( 1 ) << l.far;
         uint64_t to = 0; // bytes, in the file or of content, or number of pages
         switch ( s.below( 4 ) )
         {
            case 0: to = s.below( limit ) / Page; break;
            case 1: to = ( uint64_t( 1 ) << ( 31 + s.below( static_cast<uint64_t>( l.far ) - 31 ) ) ) / Payload; break;
            case 2: to = s.below( 5 ) * ( uint64_t( 1 ) << 32 ) / ( s.flip() ? Page : Payload ); break;
            default: to = ( uint64_t( 1 ) << ( 31 + s.below( static_cast<uint64_t>( l.far ) - 31 ) ) ) / Page; break;
         }
         to -= std::min( to, s.flip() ? s.below( expected / Payload + 3 ) : s.below( 3 ) );
         if ( to <= here || to >= limit / Page )
            return;
         shift += ( to - here ) * Payload;
         out.jumps.emplace_back( b.size() / Payload, shift / Payload );
      };
      const auto sizeOf = [&]( const MN *m ) -> size_t {
         return !m ? 2000 : m->t == T::Blob ? m->s.size() : m->nrec * 4;
      };
      std::map<const MN *, uint64_t> where;
      std::string &b = out.logical;
      b.assign( 48, '\0' );
      uint64_t xmlAt = 0, xmlHere = 0, xmlRoom = 0;
      std::string xml;
      const auto makeXml = [&] {
         std::string d;
         switch ( l.xmlStyle ? s.below( 4 ) : 0 )
         {
            case 0:
               d = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
               break;
            case 1:
               d = "<?xml version='1.0' encoding='UTF-8' standalone='yes' ?>";
               break;
            case 2:
               d = "<?xml version=\"1.0\"?>\r\n<!-- head -->";
               break;
            default:
               break;
         }
         std::vector<std::pair<std::string, std::string>> a{ { "xmlns", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" } };
         for ( auto &x : exts )
            a.emplace_back( "xmlns:" + x.first, x.second );
         d += e.node( root, "e57Root", a, where );
         if ( l.xmlStyle && s.flip() )
            d += s.pick<const char *>( { "\n", " \r\n", "<!-- tail -->\n" } );
         return d;
      };
      if ( items.back() == nullptr )
      {
         for ( auto m : items )
         {
            gap( b );
            jump( b, sizeOf( m ) );
            if ( !m )
            {
               xmlAt = b.size() + shift;
               xml = makeXml();
               b += xml;
            }
            else
            {
               where[m] = b.size() + shift;
               b += m->t == T::CV ? e.cvSection( *m, b.size() + shift ) : e.blobSection( *m );
            }
         }
      }
      else
      {
         // made with marks of the greatest length that are replaced when the places are known
         uint64_t k = 0;
         for ( auto m : items )
            if ( m )
               where[m] = toLogical( 9000000000000000000ull + Page * k++ ); // 19 digits, replaced below
         xml = makeXml();
         xmlRoom = xml.size();
         std::map<const MN *, uint64_t> marked = where;
         for ( auto m : items )
         {
            gap( b );
            jump( b, sizeOf( m ) );
            if ( !m )
            {
               xmlAt = b.size() + shift;
               xmlHere = b.size();
               b.append( xmlRoom, ' ' );
            }
            else
            {
               where[m] = b.size() + shift;
               b += m->t == T::CV ? e.cvSection( *m, b.size() + shift ) : e.blobSection( *m );
            }
         }
         for ( auto &m : marked )
         {
            const std::string from = std::to_string( toPhysical( m.second ) );
            const std::string to = std::to_string( toPhysical( where[m.first] ) );
            const size_t p = xml.find( from );
            if ( p == std::string::npos )
               throw pbt::HarnessError( "offset mark lost" );
            xml.replace( p, from.size(), to );
         }
         xml.resize( xmlRoom, ' ' );
         b.replace( xmlHere, xmlRoom, xml );
      }
      gap( b );
      out.xml = xml;
      const uint64_t pages = ( b.size() + Payload - 1 ) / Payload;
      memcpy( &b[0], "ASTM-E57", 8 );
      poke( b, 8, 1, 4 );
      poke( b, 12, 0, 4 );
      poke( b, 16, ( pages + shift / Payload ) * Page, 8 );
      poke( b, 24, toPhysical( xmlAt ), 8 );
      poke( b, 32, xml.size(), 8 );
      poke( b, 40, Page, 8 );
      out.physical = paginate( b );
      return out;
   }
}
