// An E57 decoder and encoder written from the published format, sharing no code with
// the library under test.
#pragma once

#include "model.hpp"

#include <map>
#include <string>
#include <vector>

namespace indep
{
   using model::MN;

   struct Bad : std::runtime_error
   {
      explicit Bad( const std::string &m ) : std::runtime_error( m ) {}
   };

   uint32_t crc32c( const void *data, size_t n );

   constexpr uint64_t Page = 1024, Payload = 1020;
   inline uint64_t toPhysical( uint64_t logical ) { return logical / Payload * Page + logical % Payload; }
   inline uint64_t toLogical( uint64_t physical )
   {
      const uint64_t r = physical % Page;
      return physical / Page * Payload + ( r < Payload ? r : Payload );
   }

   // pages with checksums from logical bytes (zero filled to a whole page), and back
   std::string paginate( const std::string &logical );
   std::string depaginate( const std::string &physical ); // throws Bad on wrong checksums
   void resum( std::string &physical );                   // recompute all checksums

   struct Xml
   {
      std::string name;
      std::vector<std::pair<std::string, std::string>> attrs;
      std::vector<Xml> kids;
      std::string text;
      const std::string *attr( const std::string &n ) const;
   };
   Xml parseXml( const std::string &doc ); // throws Bad

   struct Section
   {
      uint64_t start, length; // logical
      std::string what;
   };

   struct Packet
   {
      uint64_t start; // logical
      unsigned type, length;
      std::vector<unsigned> streams; // data packets: bytes of each stream
   };

   struct Decoded
   {
      MN root;
      std::vector<std::pair<std::string, std::string>> exts;
      std::vector<Section> sections; // header, XML and binary sections, sorted by start
      std::vector<Packet> packets;
      uint64_t xmlStart = 0, xmlLength = 0;
      std::string xml;
   };

   // Strict: every rule of the format that the file breaks is reported with Bad.
   // sparse: pages are only verified when they are used (files with holes).
   Decoded decode( const std::string &physical );

   // ---------------------------------------------------------------- encoder
   struct Layout
   {
      bool shuffle = false;    // sections in any order, XML anywhere
      bool gaps = false;       // unused bytes between sections
      bool packets = false;    // arbitrary splitting and foreign packets
      bool full = false;       // with packets: as much as fits in each
      bool xmlStyle = false;   // formatting freedom
      bool spellings = false;  // number spellings
      bool pad = false;        // trailing zero bits of integer streams up to a word
      int far = 0;             // sections at far places up to 2^far (see Encoded::jumps)
   };
   struct Encoded
   {
      std::string logical, physical;
      std::string xml;
      std::string note; // what was done
      unsigned dataPackets = 0, otherPackets = 0, fullPackets = 0;
      unsigned chunks = 0; // of one section, at most
      // with far sections: from page .first on, the pages given belong .second pages further behind
      std::vector<std::pair<uint64_t, uint64_t>> jumps;
   };
   Encoded encode( pbt::Src &s, const MN &root, const std::vector<std::pair<std::string, std::string>> &exts,
                   const Layout &l );

   // encoded streams of a compressed vector (one per leaf)
   std::vector<std::string> streams( const MN &cv );
}
