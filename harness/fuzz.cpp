// Malformed files (C18): nearly valid files with fields, packets or XML altered.
#include "indep.hpp"
#include "mem.hpp"
#include "trace.hpp"

#include <fstream>
#include <map>
#include <set>

using namespace model;
using namespace VARIANT;
using pbt::Ctx;
using pbt::fail;
using pbt::Prng;
using pbt::sprintf_;
using pbt::Src;

namespace fuzz
{
   const std::vector<std::string> &typeNames()
   {
      static const std::vector<std::string> v{ "Integer", "ScaledInteger", "Float", "String", "Blob", "Structure", "Vector", "CompressedVector", "Strange", "" };
      return v;
   }

   std::string number( Src &s, uint64_t fileSize )
   {
      switch ( s.below( 8 ) )
      {
         case 0:
            return s.pick<const char *>( { "0", "-1", "1", "2", "3", "4", "48", "1020", "1021", "1023", "1024" } );
         case 1:
            return s.pick<const char *>( { "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615",
                                           "99999999999999999999999", "-99999999999999999999999", "9223372036854775800", "4611686018427387904" } );
         case 2:
            return s.pick<const char *>( { "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648", "65535", "65536", "1000000000" } );
         case 3:
            return s.pick<const char *>( { "1e400", "-1e400", "nan", "NaN", "inf", "INF", "-INF", "1e-400", "4.9e-324", "1.7976931348623157e308",
                                           "3.5e38", "1e39", "-0", "0.5" } );
         case 4:
            return s.pick<const char *>( { "", " ", "abc", "0x10", "1 2", "1,5", "--1", "+", ".", "e5", "1.5", "\xC3\xA9" } );
         case 5:
            return std::to_string( s.below( fileSize + 2000 ) );
         case 6:
            return std::to_string( 1024 * s.below( fileSize / 1024 + 2 ) + s.below( 8 ) );
         default:
            return std::to_string( static_cast<int64_t>( s.bits() ) );
      }
   }

   struct Attr
   {
      size_t nameAt, nameLen, valueAt, valueLen;
   };
   struct Elem
   {
      size_t start, openEnd, end; // whole element, end of its start tag
      size_t nameLen;
   };

   // rough scan of a document this harness or the library has written
   void scan( const std::string &x, std::vector<Attr> &attrs, std::vector<Elem> &elems )
   {
      std::vector<size_t> open;
      for ( size_t p = 0; p < x.size(); )
      {
         if ( x.compare( p, 9, "<![CDATA[" ) == 0 )
         {
            p = x.find( "]]>", p );
            p = p == std::string::npos ? x.size() : p + 3;
            continue;
         }
         if ( x.compare( p, 4, "<!--" ) == 0 )
         {
            p = x.find( "-->", p );
            p = p == std::string::npos ? x.size() : p + 3;
            continue;
         }
         if ( x.compare( p, 2, "<?" ) == 0 )
         {
            p = x.find( "?>", p );
            p = p == std::string::npos ? x.size() : p + 2;
            continue;
         }
         if ( x.compare( p, 2, "</" ) == 0 )
         {
            size_t e = x.find( '>', p );
            if ( e == std::string::npos )
               return;
            if ( !open.empty() )
            {
               elems[open.back()].end = e + 1;
               open.pop_back();
            }
            p = e + 1;
            continue;
         }
         if ( x[p] != '<' )
         {
            ++p;
            continue;
         }
         Elem el{ p, 0, 0, 0 };
         size_t q = p + 1;
         while ( q < x.size() && !strchr( " \t\r\n/>", x[q] ) )
            ++q;
         el.nameLen = q - p - 1;
         bool empty = false;
         while ( q < x.size() && x[q] != '>' )
         {
            if ( x[q] == '/' )
            {
               empty = true;
               ++q;
               continue;
            }
            if ( strchr( " \t\r\n", x[q] ) )
            {
               ++q;
               continue;
            }
            Attr a{ q, 0, 0, 0 };
            while ( q < x.size() && !strchr( " \t\r\n=>", x[q] ) )
               ++q;
            a.nameLen = q - a.nameAt;
            while ( q < x.size() && x[q] != '"' && x[q] != '\'' )
               ++q;
            if ( q >= x.size() )
               return;
            const char quote = x[q++];
            a.valueAt = q;
            while ( q < x.size() && x[q] != quote )
               ++q;
            a.valueLen = q - a.valueAt;
            if ( q >= x.size() )
               return;
            ++q;
            attrs.push_back( a );
         }
         el.openEnd = std::min( q + 1, x.size() );
         el.end = el.openEnd;
         elems.push_back( el );
         if ( !empty )
            open.push_back( elems.size() - 1 );
         p = q + 1;
      }
   }

   std::string fragment( Src &s, uint64_t fileSize, unsigned depth = 0 )
   {
      const std::string name = s.pick<const char *>( { "a", "vectorChild", "prototype", "codecs", "e57Root", "p0:x", "xml:a", "unknown:b", "data3D" } );
      const std::string type = s.pick( typeNames() );
      std::string o = "<" + name + ( type.empty() ? "" : " type=\"" + type + "\"" );
      for ( const char *a : { "minimum", "maximum", "scale", "offset", "fileOffset", "length", "recordCount" } )
         if ( s.chance( 1, 3 ) )
            o += sprintf_( " %s=\"%s\"", a, number( s, fileSize ).c_str() );
      if ( s.chance( 1, 6 ) )
         o += s.pick<const char *>( { " precision=\"single\"", " precision=\"half\"", " allowHeterogeneousChildren=\"1\"", " allowHeterogeneousChildren=\"2\"",
                                      " xmlns:q=\"http://q\"", " xmlns=\"\"", " xmlns=\"http://other\"" } );
      o += ">";
      if ( depth < 3 && s.chance( 1, 3 ) )
         for ( uint64_t k = s.below( 3 ) + 1; k > 0; --k )
            o += fragment( s, fileSize, depth + 1 );
      else if ( s.flip() )
         o += number( s, fileSize );
      return o + "</" + name + ">";
   }

   std::string mutateXml( Ctx &ctx, std::string x, uint64_t fileSize )
   {
      Src &s = ctx.s;
      std::vector<Attr> attrs;
      std::vector<Elem> elems;
      scan( x, attrs, elems );
      const auto someElem = [&]() -> const Elem & { return elems[s.below( elems.size() )]; };
      switch ( elems.empty() ? 9 : s.weighted( { 14, 3, 3, 1, 3, 4, 1, 2, 1, 1, 1, 1, 3 } ) )
      {
         case 0: // value of an attribute
            if ( !attrs.empty() )
            {
               Attr a = s.pick( attrs );
               std::string an = x.substr( a.nameAt, a.nameLen );
               // rather the attributes with meaning for the reading that follows
               for ( int tries = 0; tries < 4 && ( an == "type" || an == "xmlns" ); ++tries )
               {
                  a = s.pick( attrs );
                  an = x.substr( a.nameAt, a.nameLen );
               }
               std::string v = an == "type" ? s.pick( typeNames() ) : number( s, fileSize );
               if ( an == "precision" )
                  v = s.pick<const char *>( { "single", "double", "half", "" } );
               ctx.say( "attribute " + an + "=" + v + "; " );
               x.replace( a.valueAt, a.valueLen, v );
            }
            break;
         case 1: // attribute removed, doubled or renamed
            if ( !attrs.empty() )
            {
               const Attr &a = s.pick( attrs );
               const std::string an = x.substr( a.nameAt, a.nameLen );
               ctx.say( "attribute " + an + " removed or renamed; " );
               if ( s.chance( 2, 3 ) )
                  x.erase( a.nameAt, a.valueAt + a.valueLen + 1 - a.nameAt );
               else
                  x.replace( a.nameAt, a.nameLen, s.pick<const char *>( { "minimum", "maximum", "type", "xmlns", "xmlns:zz", "fileOffset", "length" } ) );
            }
            break;
         case 2: // element removed
         {
            const Elem &e = someElem();
            ctx.say( "element " + x.substr( e.start + 1, e.nameLen ) + " removed; " );
            x.erase( e.start, e.end - e.start );
            break;
         }
         case 3: // element doubled
         {
            const Elem &e = someElem();
            ctx.say( "element " + x.substr( e.start + 1, e.nameLen ) + " doubled; " );
            x.insert( e.end, x.substr( e.start, e.end - e.start ) );
            break;
         }
         case 4: // element copied into or over another
         {
            const Elem a = someElem(), b = someElem();
            const std::string part = x.substr( a.start, a.end - a.start );
            ctx.say( "element " + x.substr( a.start + 1, a.nameLen ) + " copied to " + x.substr( b.start + 1, b.nameLen ) + "; " );
            if ( s.flip() )
               x.insert( b.openEnd, part );
            else
               x.replace( b.start, b.end - b.start, part );
            break;
         }
         case 5: // fragment inserted
         {
            const Elem e = someElem();
            const std::string f = fragment( s, fileSize );
            ctx.say( "fragment " + f + " in " + x.substr( e.start + 1, e.nameLen ) + "; " );
            if ( s.flip() )
               x.insert( e.openEnd, f );
            else
               x.replace( e.start, e.end - e.start, f );
            break;
         }
         case 6: // text inserted
         {
            const Elem &e = someElem();
            const std::string t = s.chance( 1, 2 ) ? number( s, fileSize )
                                                   : s.pick<const char *>( { "text", "&lt;", "&undefined;", "&#0;", "&#xD800;", "&#x10FFFF;", "\xFF\xFE", "\xC0\x80",
                                                                             "\xED\xA0\x80", "\x01", "<![CDATA[x", "<!-- ", "]]>", "<", "&" } );
            ctx.say( "text " + showStr( t ) + "; " );
            x.insert( e.openEnd, t );
            break;
         }
         case 7: // renamed
         {
            const Elem &e = someElem();
            const std::string nn = s.pick<const char *>( { "prototype", "codecs", "vectorChild", "e57Root", "a:b", "p0:y", "1x", "", "x y", "\xC3\xA9t\xC3\xA9" } );
            ctx.say( "renamed to " + nn + "; " );
            const std::string old = x.substr( e.start + 1, e.nameLen );
            const std::string endTag = "</" + old;
            const size_t et = x.rfind( endTag, e.end );
            if ( et != std::string::npos && et > e.start )
               x.replace( et + 2, old.size(), nn );
            x.replace( e.start + 1, e.nameLen, nn );
            break;
         }
         case 8: // cut
            ctx.say( "XML cut; " );
            x.resize( s.below( x.size() + 1 ) );
            break;
         case 9: // bytes
         {
            ctx.say( "XML bytes altered; " );
            for ( uint64_t k = 1 + s.below( 4 ); k > 0 && !x.empty(); --k )
            {
               const size_t at = s.below( x.size() );
               switch ( s.below( 3 ) )
               {
                  case 0:
                     x[at] = static_cast<char>( s.below( 256 ) );
                     break;
                  case 1:
                     x.erase( at, 1 + s.below( 8 ) );
                     break;
                  default:
                     x.insert( at, 1, static_cast<char>( s.below( 256 ) ) );
                     break;
               }
            }
            break;
         }
         case 10: // document type and entities
         {
            // with declarations the document is valid, so that reading goes on
            std::string d, decl;
            if ( s.chance( 3, 4 ) )
            {
               std::map<std::string, std::set<std::string>> names{ { "q", { "type" } } };
               size_t ai = 0;
               for ( const Elem &e : elems )
               {
                  auto &as = names[x.substr( e.start + 1, e.nameLen )];
                  for ( ; ai < attrs.size() && attrs[ai].nameAt < e.openEnd; ++ai )
                     as.insert( x.substr( attrs[ai].nameAt, attrs[ai].nameLen ) );
               }
               for ( auto &kv : names )
               {
                  decl += "<!ELEMENT " + kv.first + " ANY>";
                  for ( auto &a : kv.second )
                     decl += "<!ATTLIST " + kv.first + " " + a + " CDATA #IMPLIED>";
               }
            }
            switch ( s.below( 5 ) )
            {
               case 0:
                  d = "<!DOCTYPE e57Root [" + decl + "<!ENTITY a \"x\">]>";
                  break;
               case 1:
               {
                  d = "<!DOCTYPE e57Root [" + decl + "<!ENTITY e0 \"xxxxxxxxxxxxxxxxxxxx\">";
                  const uint64_t n = 2 + s.below( 8 );
                  for ( uint64_t i = 1; i <= n; ++i )
                  {
                     d += sprintf_( "<!ENTITY e%llu \"", (unsigned long long)i );
                     for ( int k = 0; k < 12; ++k )
                        d += sprintf_( "&e%llu;", (unsigned long long)( i - 1 ) );
                     d += "\">";
                  }
                  d += "]>";
                  const Elem &e = someElem();
                  x.insert( e.openEnd, sprintf_( "<q type=\"String\">&e%llu;</q>", (unsigned long long)n ) );
                  break;
               }
               case 2:
                  d = "<!DOCTYPE e57Root [" + decl + "<!ENTITY a SYSTEM \"" + ctx.dir + "/secret.txt\">]>";
                  x.insert( elems[0].openEnd, "<q type=\"String\">&a;</q>" );
                  break;
               case 3:
                  d = "<!DOCTYPE e57Root SYSTEM \"" + ctx.dir + "/none.dtd\">";
                  break;
               default:
                  d = "<!DOCTYPE e57Root [" + decl + "<!ELEMENT x57Root (a,b)><!ATTLIST e57Root type CDATA \"Vector\" zz CDATA \"5\">]>";
                  break;
            }
            ctx.say( d.substr( 0, 60 ) + "…" + d.substr( d.size() - std::min<size_t>( d.size(), 60 ) ) + "; " );
            ctx.label( "document type" );
            const size_t at = x.find( "<e57Root" );
            x.insert( at == std::string::npos ? 0 : at, d );
            break;
         }
         case 11: // nested deeply
         {
            const uint64_t n = s.pick<uint64_t>( { 50, 500, 3000, ctx.thorough ? 200000ull : 60000ull } );
            const std::string type = s.flip() ? "Structure" : "Vector";
            std::string a, b;
            for ( uint64_t i = 0; i < n; ++i )
            {
               a += "<n type=\"" + type + "\">";
               b += "</n>";
            }
            ctx.label( "deep" );
            ctx.say( sprintf_( "%llu levels of %s; ", (unsigned long long)n, type.c_str() ) );
            x.insert( elems[0].openEnd, a + b );
            break;
         }
         default: // attribute inserted
         {
            const Elem &e = someElem();
            const std::string a = s.pick<const char *>( { "minimum", "maximum", "scale", "offset", "precision", "fileOffset", "length", "recordCount", "xmlns:p0", "xmlns",
                                                          "xsi:schemaLocation", "xml:space", "zz" } );
            const std::string t = sprintf_( " %s=\"%s\"", a.c_str(), number( s, fileSize ).c_str() );
            ctx.say( "attribute" + t + " inserted; " );
            x.insert( e.start + 1 + e.nameLen, t );
            break;
         }
      }
      return x;
   }

   void poke( std::string &b, uint64_t at, uint64_t v, unsigned n )
   {
      for ( unsigned i = 0; i < n && at + i < b.size(); ++i )
         b[at + i] = static_cast<char>( v >> ( 8 * i ) );
   }

   uint64_t value64( Src &s, uint64_t fileSize )
   {
      switch ( s.below( 5 ) )
      {
         case 0:
            return s.pick<uint64_t>( { 0, 1, 4, 16, 31, 32, 33, 36, 40, 48, 1020, 1021, 1024 } );
         case 1:
            return s.pick<uint64_t>( { fileSize, fileSize - 1, fileSize - 4, fileSize + 4, fileSize - 1024, fileSize - 2048 } );
         case 2:
            return s.pick<uint64_t>( { 1ull << 31, 1ull << 32, 1ull << 62, 1ull << 63, INT64_MAX, UINT64_MAX, UINT64_MAX - 3, UINT64_MAX - 1023, UINT64_MAX - 47,
                                       ( 1ull << 63 ) - 1024, 0xFFFFFFFC } );
         case 3:
            return s.below( fileSize + 4096 );
         default:
            return 4 * s.below( fileSize / 4 + 1 );
      }
   }

   // logical bytes of a file with XML last, XML text separate
   struct Base
   {
      std::string body, xml;
      indep::Decoded d;
   };

   std::string assemble( const std::string &body, const std::string &xml )
   {
      std::string l = body;
      while ( l.size() % 4 )
         l += '\0';
      const uint64_t at = l.size();
      l += xml;
      poke( l, 16, ( l.size() + 1019 ) / 1020 * 1024, 8 );
      poke( l, 24, indep::toPhysical( at ), 8 );
      poke( l, 32, xml.size(), 8 );
      return l;
   }

   void mutateBinary( Ctx &ctx, std::string &l, const indep::Decoded &d )
   {
      Src &s = ctx.s;
      const uint64_t size = l.size();
      switch ( s.weighted( { 1, 3, d.packets.empty() ? 0u : 8u, 2 } ) )
      {
         case 0: // file header
         {
            const unsigned f = static_cast<unsigned>( s.below( 7 ) );
            static const unsigned at[] = { 0, 8, 12, 16, 24, 32, 40 }, len[] = { 8, 4, 4, 8, 8, 8, 8 };
            const uint64_t v = value64( s, size / 1020 * 1024 + 1024 );
            ctx.say( sprintf_( "header field %u = %llu; ", f, (unsigned long long)v ) );
            poke( l, at[f], v, len[f] );
            break;
         }
         case 1: // section header
         {
            std::vector<const indep::Section *> bin;
            for ( auto &x : d.sections )
               if ( x.what != "XML" && x.what != "file header" )
                  bin.push_back( &x );
            if ( bin.empty() )
               break;
            const auto &sec = *s.pick( bin );
            const unsigned f = static_cast<unsigned>( s.below( 5 ) );
            const uint64_t v = value64( s, size );
            ctx.say( sprintf_( "section of %s field %u = %llu; ", sec.what.c_str(), f, (unsigned long long)v ) );
            if ( f == 4 )
               poke( l, sec.start + s.below( 8 ), v, 1 );
            else
               poke( l, sec.start + 8 * f, v, 8 );
            break;
         }
         case 2: // packet
         {
            const auto &p = s.pick( d.packets );
            const unsigned f = static_cast<unsigned>( s.below( 9 ) );
            const uint64_t v = value64( s, 65536 );
            ctx.say( sprintf_( "packet at %llu (type %u) field %u = %llu; ", (unsigned long long)p.start, p.type, f, (unsigned long long)v ) );
            switch ( f )
            {
               case 0:
                  poke( l, p.start, s.below( 5 ), 1 );
                  break;
               case 1:
                  poke( l, p.start + 1, v, 1 );
                  break;
               case 2:
                  poke( l, p.start + 2, v - 1, 2 );
                  break;
               case 3:
                  poke( l, p.start + 4, v, 2 );
                  break;
               case 4:
                  poke( l, p.start + 6 + 2 * s.below( 6 ), v, 2 );
                  break;
               case 5:
               {
                  // length and stream count consistent with each other, not with the prototype
                  const unsigned n = static_cast<unsigned>( s.below( 8 ) );
                  poke( l, p.start + 4, n, 2 );
                  for ( unsigned i = 0; i < n; ++i )
                     poke( l, p.start + 6 + 2 * i, 0, 2 );
                  const uint64_t total = ( 6 + 2 * n + 3 ) / 4 * 4;
                  if ( s.flip() )
                     poke( l, p.start + 2, total - 1, 2 );
                  else if ( n && p.length > total )
                     poke( l, p.start + 6, p.length - ( 6 + 2 * n ), 2 );
                  break;
               }
               case 6: // start of a byte stream (length of the first string)
               {
                  uint64_t at = p.start + 6 + 2 * p.streams.size();
                  for ( uint64_t k = s.below( p.streams.size() + 1 ), i = 0; i < k && i < p.streams.size(); ++i )
                     at += p.streams[i];
                  poke( l, at, s.flip() ? s.bits() | 1 : v, s.flip() ? 1 : 8 );
                  break;
               }
               default:
                  for ( uint64_t k = 1 + s.below( 8 ); k > 0; --k )
                     poke( l, p.start + s.below( p.length ), s.bits(), s.flip() ? 1 : 8 );
                  break;
            }
            break;
         }
         default: // anywhere
            ctx.say( "bytes altered; " );
            for ( uint64_t k = 1 + s.below( 10 ); k > 0; --k )
               poke( l, s.below( size ), s.bits(), 1 );
            break;
      }
   }

   // a mutated file; well-formed pages unless drawn otherwise
   std::string make( Ctx &ctx )
   {
      Src &s = ctx.s;
      if ( s.chance( 1, 40 ) )
      {
         Prng r( s.bits() );
         std::string f( s.flip() ? 1024 * s.below( 6 ) : s.below( 6000 ), '\0' );
         const bool zero = s.chance( 1, 4 );
         for ( auto &c : f )
            c = static_cast<char>( zero ? 0 : r.next() );
         if ( s.flip() )
            indep::resum( f );
         ctx.say( "random bytes; " );
         return f;
      }
      TreeOpts o;
      o.maxNodes = 10;
      o.maxDepth = 4;
      o.maxRecBytes = s.chance( 1, 6 ) ? 20000 : 1500;
      o.maxBlob = 1500;
      std::vector<std::pair<std::string, std::string>> exts;
      if ( s.chance( 1, 3 ) )
      {
         exts.emplace_back( "p0", "http://example.org/p0" );
         o.prefixes.push_back( "p0" );
      }
      MN root = genTree( s, o );
      if ( s.chance( 3, 4 ) )
      {
         MN cv = genCV( s, o );
         cv.name = "zzrec";
         root.kids.push_back( std::move( cv ) );
      }
      indep::Layout l;
      l.packets = s.chance( 1, 3 );
      l.pad = s.flip();
      const indep::Encoded e = indep::encode( s, root, exts, l );
      const indep::Decoded d = indep::decode( e.physical );
      std::string body = e.logical.substr( 0, d.xmlStart );
      std::string xml = e.xml;
      const uint64_t n = 1 + ( s.flip() ? 0 : s.geom( 1, 6 ) );
      bool inXml = false;
      std::string logical;
      std::vector<bool> plan;
      const uint64_t kind = s.weighted( { 5, 3, 2 } );
      for ( uint64_t k = 0; k < n; ++k )
         plan.push_back( kind == 2 ? s.flip() : kind == 1 );
      for ( bool x : plan )
         if ( x )
         {
            xml = mutateXml( ctx, xml, e.physical.size() );
            inXml = true;
         }
      logical = assemble( body, xml );
      for ( bool x : plan )
         if ( !x )
            mutateBinary( ctx, logical, d );
      std::string f = indep::paginate( logical );
      if ( s.chance( 1, 20 ) )
      {
         ctx.say( "cut; " );
         f.resize( s.flip() ? s.below( f.size() + 1 ) : 1024 * s.below( f.size() / 1024 + 1 ) );
         if ( f.size() >= 24 && s.flip() )
         {
            for ( unsigned i = 0; i < 8; ++i )
               f[16 + i] = static_cast<char>( f.size() >> ( 8 * i ) );
            indep::resum( f );
         }
      }
      ctx.label( inXml ? "XML" : "binary only" );
      return f;
   }
}

namespace
{
   void c18( Ctx &ctx )
   {
      Src &s = ctx.s;
      {
         std::ofstream( ctx.dir + "/secret.txt" ) << "SECRETSECRETSECRET";
      }
      const std::string f = fuzz::make( ctx );
      ctx.hash = pbt::hash64( f );
      const bool memory = s.flip();
      const int policy = s.pick( { 100, 0, 25 } );
      const std::string path = ctx.dir + "/a.e57";
      {
         std::ofstream o( path, std::ios::binary );
         o.write( f.data(), static_cast<std::streamsize>( f.size() ) );
      }
      TraceOpts to;
      to.capacity = s.pick<uint64_t>( { 1, 17, 200 } );
      to.maxReads = 300;
      to.maxBlob = 1 << 20;
      Tracer t( to );
      bool opened = false;
      mem::reset();
      try
      {
         std::unique_ptr<char[]> m;
         if ( memory )
         {
            m.reset( new char[f.size()] );
            memcpy( m.get(), f.data(), f.size() );
         }
         e57::ImageFile imf = memory ? e57::ImageFile( m.get(), f.size(), policy ) : e57::ImageFile( path, "r", policy );
         opened = true;
         t.file( imf );
         imf.close();
      }
      catch ( const e57::E57Exception &e )
      {
         // results or the library's own exception
         what( e );
      }
      mem::stop();
      // (the trace itself is part of it)
      const int64_t limit = ( 24 << 20 ) + 60 * static_cast<int64_t>( f.size() ) + 4 * static_cast<int64_t>( t.out.size() );
      if ( mem::peakBytes() > limit )
         fail( sprintf_( "%lld bytes were allocated for a file of %zu bytes", (long long)mem::peakBytes(), f.size() ) );
      if ( t.out.find( "SECRETSECRET" ) != std::string::npos )
         fail( "the content of another file was read into an element" );
      ctx.say( sprintf_( "%zu bytes, opened %d, %zu values, %zu errors", f.size(), opened, t.values, t.errors ) );
      ctx.nontrivial = true;
      ctx.label( opened ? ( t.errors ? "opened, errors" : "opened, no errors" ) : "refused" );
   }

   pbt::Reg r18( { "C18", c18, 20000, 400000, "exploration",
                   "every altered file counts; distinct by its bytes",
                   { "memory limit 24 MiB plus 60 times the file size", "a case that takes more than 20 s counts as endless" },
                   20 } );
}
