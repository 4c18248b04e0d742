// Neutral model of E57 content: plain data, no library types.
#pragma once

#include "engine.hpp"

#include <cfloat>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>

namespace model
{
   enum class T
   {
      Struct,
      Vec,
      CV,
      Int,
      SInt,
      Flt,
      Str,
      Blob
   };

   struct Col
   {
      std::vector<int64_t> i;
      std::vector<double> d;
      std::vector<std::string> s;
   };

   struct MN
   {
      T t = T::Struct;
      std::string name;
      std::vector<MN> kids;       // Struct, Vec
      bool hetero = false;        // Vec
      int64_t v = 0;              // Int, SInt (raw)
      int64_t mn = INT64_MIN, mx = INT64_MAX;
      double scale = 1, off = 0;  // SInt
      double d = 0;               // Flt
      double dmn = -DBL_MAX, dmx = DBL_MAX;
      bool single = false;
      std::string s;              // Str: value, Blob: bytes
      std::vector<MN> proto;      // CV: one element
      std::vector<MN> codecs;     // CV: one element
      uint64_t nrec = 0;
      std::vector<Col> cols;      // one per leaf of the prototype

      bool operator==( const MN & ) const = delete;
   };

   struct Leaf
   {
      std::string path;
      const MN *n;
   };

   void leavesOf( const MN &n, const std::string &prefix, std::vector<Leaf> &out );
   std::vector<Leaf> leavesOf( const MN &proto );

   // number of bits of one value of this leaf in a bit-packed stream (strings: 0)
   unsigned bitsOf( const MN &leaf );

   std::string show( const MN &n, bool content = true );
   std::string showNum( double d );
   std::string showStr( const std::string &s, size_t max = 60 );

   bool sameNum( double a, double b ); // numerically equal, NaN equals NaN

   // "" if equal, else a description of the first difference
   std::string diff( const MN &want, const MN &got, const std::string &path = "/" );
   std::string diffCols( const std::vector<Leaf> &leaves, const std::vector<Col> &want, const std::vector<Col> &got,
                         uint64_t n );
   uint64_t count( const MN &n );

   // ------------------------------------------------------------- generators
   using pbt::Src;

   int64_t genInt64( Src &s );
   double genDouble( Src &s ); // finite
   float genFloat( Src &s );   // finite
   // bounds whose span needs exactly `bits` bits
   void genBounds( Src &s, unsigned bits, int64_t &mn, int64_t &mx );
   std::string genId( Src &s, size_t maxLen = 12 ); // element name without prefix
   std::string genXmlText( Src &s, size_t maxLen ); // UTF-8, only characters XML 1.0 can carry
   std::string genBytes( Src &s, size_t maxLen );
   void appendUtf8( std::string &o, uint32_t cp );

   struct ProtoOpts
   {
      unsigned minLeaves = 1, maxLeaves = 8;
      bool strings = true;
      bool nesting = true;
      std::vector<std::string> prefixes; // registered extension prefixes usable in names
   };
   MN genLeaf( Src &s, bool strings, bool forPrototype );
   MN genProto( Src &s, const ProtoOpts &o );

   struct ColOpts
   {
      size_t maxString = 40;
      bool floatSpecials = true; // NaN, infinities, -0 in float fields
      size_t individually = 12;  // up to this number of records all values are drawn
   };
   std::vector<Col> genCols( Src &s, const MN &proto, uint64_t n, const ColOpts &o );
   // a record count; biased so that `bytes` of record data are crossed sometimes
   uint64_t genCount( Src &s, const MN &proto, uint64_t maxBytes );
   Col slice( const Col &c, uint64_t from, uint64_t n );
   std::vector<Col> slice( const std::vector<Col> &c, uint64_t from, uint64_t n );

   struct TreeOpts
   {
      unsigned maxNodes = 30;
      unsigned maxDepth = 6;
      bool cvs = true, blobs = true, extremes = true, text = true;
      uint64_t maxRecBytes = 3000;
      size_t maxBlob = 4000;
      unsigned minLeaves = 1; // fields of record vectors
      std::vector<std::string> prefixes;
   };
   MN genTree( Src &s, const TreeOpts &o ); // root structure
   MN genCV( Src &s, const TreeOpts &o );

   const char *tname( T t );
}
