From 5b20392802a2baf7d2c2d2a7a5e2af4f1d97ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:12 +0000
Subject: [PATCH 01/45] fix: reproduce single precision values exactly when
 they are written as XML

Seven digits after the decimal point are not enough for every float. Write
eight, and round single precision text back to a float when reading.
---
 src/CheckedFile.cpp  |  6 +++---
 src/E57XmlParser.cpp | 14 +++++++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 84222fc..12dbd5e 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -478,13 +478,13 @@ CheckedFile &CheckedFile::operator<<( uint64_t i )
 
 CheckedFile &CheckedFile::operator<<( float f )
 {
-   //??? is 7 digits right number?
-   return writeFloatingPoint( f, 7 );
+   // 9 significant digits (8 after the decimal point) are needed to reproduce any float exactly
+   return writeFloatingPoint( f, 8 );
 }
 
 CheckedFile &CheckedFile::operator<<( double d )
 {
-   //??? is 17 digits right number?
+   // 17 significant digits are needed to reproduce any double exactly
    return writeFloatingPoint( d, 17 );
 }
 
diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 101f470..eb8a0a1 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -104,6 +104,14 @@ namespace
       return ( u_str );
    }
 
+   // Convert text to a floating point value, rounding it to the precision of the node.
+   double toFloatValue( const ustring &str, FloatPrecision precision )
+   {
+      const double value = strToDouble( str );
+
+      return ( precision == PrecisionSingle ) ? static_cast<float>( value ) : value;
+   }
+
    ustring lookupAttribute( const Attributes &attributes, const XMLCh *attribute_name )
    {
       XMLSize_t attr_index;
@@ -474,7 +482,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       if ( isAttributeDefined( attributes, att_minimum ) )
       {
          ustring minimum_str = lookupAttribute( attributes, att_minimum );
-         pi.floatMinimum = strToDouble( minimum_str ); //??? use exact rounding library
+         pi.floatMinimum = toFloatValue( minimum_str, pi.precision );
       }
       else
       {
@@ -492,7 +500,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       if ( isAttributeDefined( attributes, att_maximum ) )
       {
          ustring maximum_str = lookupAttribute( attributes, att_maximum );
-         pi.floatMaximum = strToDouble( maximum_str ); //??? use exact rounding library
+         pi.floatMaximum = toFloatValue( maximum_str, pi.precision );
       }
       else
       {
@@ -765,7 +773,7 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
 
          if ( pi.childText.length() > 0 )
          {
-            floatValue = strToDouble( pi.childText );
+            floatValue = toFloatValue( pi.childText, pi.precision );
             foundValue = true;
          }
 
-- 
2.43.0


From 1e920e4e58e27b70896ddddaeec1a0c717f9fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:12 +0000
Subject: [PATCH 02/45] fix: keep carriage returns in string values

XML parsers turn a carriage return inside CDATA into a line feed. Write it as
a character reference between two CDATA sections.
---
 src/StringNodeImpl.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index 8a2fd29..bb78104 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -29,6 +29,25 @@
 #include "CheckedFile.h"
 #include "StringFunctions.h"
 
+namespace
+{
+   // Write part of a CDATA section. An XML parser would turn a carriage return into a line feed, so
+   // write it as a character reference between two CDATA sections.
+   void writeCData( e57::CheckedFile &cf, const e57::ustring &text )
+   {
+      size_t position = 0;
+      size_t found = 0;
+
+      while ( ( found = text.find( '\r', position ) ) != std::string::npos )
+      {
+         cf << text.substr( position, found - position ) << "]]>&#13;<![CDATA[";
+         position = found + 1;
+      }
+
+      cf << text.substr( position );
+   }
+}
+
 namespace e57
 {
    StringNodeImpl::StringNodeImpl( ImageFileImplWeakPtr destImageFile, const ustring &value ) :
@@ -116,13 +135,13 @@ namespace e57
             if ( found == std::string::npos )
             {
                // Didn't find any more "]]>", so can send the rest.
-               cf << value_.substr( currentPosition );
+               writeCData( cf, value_.substr( currentPosition ) );
                break;
             }
 
             // Must output in two pieces, first send up to end of "]]"  (don't send the following
             // ">").
-            cf << value_.substr( currentPosition, found - currentPosition + 2 );
+            writeCData( cf, value_.substr( currentPosition, found - currentPosition + 2 ) );
 
             // Then start a new CDATA
             cf << "]]><![CDATA[";
-- 
2.43.0


From ebceb6db1bb612ecbfa51d6e7c7a031b8a289eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:12 +0000
Subject: [PATCH 03/45] fix: stop decoding strings when the destination buffer
 is full

Reading string fields in several smaller reads failed with ErrorInternal.
---
 src/Decoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index 2024cfe..855c1a9 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -512,9 +512,10 @@ size_t BitpackStringDecoder::inputProcessAligned( const char *inbuf, const size_
    size_t nBytesAvailable = ( endBit - firstBit ) >> 3;
    size_t nBytesRead = 0;
 
-   // Loop until we've finished all the records, or ran out of input currently
+   // Loop until we've finished all the records, filled destBuffer, or ran out of input currently
    // available
-   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable )
+   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable &&
+           destBuffer_->nextIndex() < destBuffer_->capacity() )
    {
 #ifdef E57_VERBOSE
       std::cout << "read string loop1: readingPrefix=" << readingPrefix_
-- 
2.43.0


From fbc87fe1aa7fcde513f08329b60b28e4607c532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:12 +0000
Subject: [PATCH 04/45] fix: avoid signed overflow for integers using most of
 the 64-bit range

---
 src/Encoder.cpp       | 3 ++-
 src/ImageFileImpl.cpp | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index e0c403f..74209d0 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -746,7 +746,8 @@ uint64_t BitpackIntegerEncoder<RegisterT>::processRecords( size_t recordCount )
                                                          " maximum=" + toString( maximum_ ) );
       }
 
-      auto uValue = static_cast<uint64_t>( rawValue - minimum_ );
+      // (unsigned arithmetic, the difference may not fit in an int64_t)
+      auto uValue = static_cast<uint64_t>( rawValue ) - static_cast<uint64_t>( minimum_ );
 
 #ifdef E57_VERBOSE
       std::cout << "encoding integer rawValue=" << binaryString( rawValue ) << " = "
diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 0187868..b8facea 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -786,7 +786,9 @@ namespace e57
       // position of the first 1 (from left) in the binary form of stateCountMinus1.
       //??? move to E57Utility?
 
-      uint64_t stateCountMinus1 = maximum - minimum;
+      // (unsigned arithmetic, the difference may not fit in an int64_t)
+      uint64_t stateCountMinus1 =
+         static_cast<uint64_t>( maximum ) - static_cast<uint64_t>( minimum );
 
       unsigned log2 = 0;
 
-- 
2.43.0


From 2eeea15eb2f9c90867bd9da4fe6f17b5e138721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:12 +0000
Subject: [PATCH 05/45] fix: always point a compressed vector section at a data
 packet

If none of the fields needs any bytes (or only the first write was empty), the
section had no usable first data packet and could not be read. Write an empty
packet when closing if no other packet was written.
---
 src/CompressedVectorWriterImpl.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 7099adf..2ae8d88 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -25,6 +25,7 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <numeric>
 
@@ -183,6 +184,12 @@ namespace e57
          flush();
       }
 
+      // If there was no data to write, write an empty data packet for the section to point to.
+      if ( dataPacketsCount_ == 0 )
+      {
+         packetWriteZeroRecords();
+      }
+
       // Write one index packet (required by standard).
       packetWriteIndex();
 
@@ -290,9 +297,9 @@ namespace e57
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       checkWriterOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
+      // Nothing to do. If no data is ever written, close() will write an empty packet.
       if ( requestedRecordCount == 0 )
       {
-         packetWriteZeroRecords();
          return;
       }
 
@@ -616,7 +623,7 @@ namespace e57
       return ( packetPhysicalOffset ); //??? needed
    }
 
-   // If we don't have any records, write a packet which is only the header + zero padding.
+   // If we don't have any data, write a packet whose bytestreams are all empty.
    // Code is a simplified version of packetWrite().
    void CompressedVectorWriterImpl::packetWriteZeroRecords()
    {
@@ -627,19 +634,18 @@ namespace e57
       // Use temp buf in object (is 64KBytes long) instead of allocating each time here
       char *packet = reinterpret_cast<char *>( &dataPacket_ );
 
-      auto packetLength = static_cast<unsigned int>( sizeof( DataPacketHeader ) );
+      // packetLength must be multiple of 4
+      const auto cNumByteStreams = bytestreams_.size();
+      auto packetLength = static_cast<unsigned int>( sizeof( DataPacketHeader ) +
+                                                     cNumByteStreams * sizeof( uint16_t ) );
+      packetLength = ( packetLength + 3 ) / 4 * 4;
 
-      // packetLength must be multiple of 4, add zero padding
-      auto data = reinterpret_cast<char *>( &packet[sizeof( DataPacketHeader )] );
-      while ( packetLength % 4 )
-      {
-         *data++ = 0;
-
-         packetLength++;
-      }
+      // Zero the bytestreamBufferLengths and the padding
+      std::fill( packet + sizeof( DataPacketHeader ), packet + packetLength, '\0' );
 
       // Prepare header in dataPacket_, now that we are sure of packetLength
       dataPacket_.header.packetLogicalLengthMinus1 = static_cast<uint16_t>( packetLength - 1 );
+      dataPacket_.header.bytestreamCount = static_cast<uint16_t>( cNumByteStreams );
 
       // Double check that data packet is well formed
       dataPacket_.verify( packetLength );
-- 
2.43.0


From 2d1b1e4dfaf551286d4a575c3e6b7418ffa64d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:12 +0000
Subject: [PATCH 06/45] fix: allow padding a data packet up to its maximum size

---
 src/CompressedVectorWriterImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 2ae8d88..16d728c 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -572,7 +572,7 @@ namespace e57
       {
          // Double check we aren't accidentally going to write off end of
          // vector<char>
-         if ( p >= &packet[DATA_PACKET_MAX - 1] )
+         if ( p >= &packet[DATA_PACKET_MAX] )
          {
             throw E57_EXCEPTION1( ErrorInternal );
          }
-- 
2.43.0


From ebb96aa4f39f4464196cede0c0e5f7de8258a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:02 +0000
Subject: [PATCH 07/45] fix: deliver booleans with the right sense when reading
 numbers into bool buffers

Reading a zero into a bool buffer gave true and reading a non-zero value gave
false. Return true for non-zero values.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 9da1777..ee779e2 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -238,7 +238,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         *reinterpret_cast<bool *>( p ) = ( inValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( inValue ? true : false );
          break;
       case Real32:
          if ( std::is_same<T, double>::value )
@@ -781,7 +781,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value )
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( value );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( value ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( value ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
@@ -908,7 +908,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( scaledValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( scaledValue ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
-- 
2.43.0


From ddadcc7469f0f5b295e6bf81f094f25f0781db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:36 +0000
Subject: [PATCH 08/45] fix: refuse values that the destination of a conversion
 cannot hold

Converting between memory buffers and records cast NaN, 2^63, and other values
outside the range of the integer destination, which is undefined behaviour and
gave meaningless numbers. Doubles too large for single precision were turned
into infinity because they were compared with the limits of a double. Report
the documented not representable errors instead.
---
 src/SourceDestBufferImpl.cpp | 45 +++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index ee779e2..20638b2 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -33,6 +33,18 @@
 
 using namespace e57;
 
+/// Convert a floating point value to an integer (rounding toward zero), if it can be represented
+static int64_t realToInt64( double value, const ustring &pathName )
+{
+   if ( std::isnan( value ) || value < INT64_MIN || value >= static_cast<double>( INT64_MAX ) )
+   {
+      throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                            "pathName=" + pathName + " value=" + toString( value ) );
+   }
+
+   return static_cast<int64_t>( value );
+}
+
 SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
                                             const ustring &pathName, const size_t capacity,
                                             bool doConversion, bool doScaling ) :
@@ -145,6 +157,12 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
    /// distance between elements).
    char *p = &base_[nextIndex_ * stride_];
 
+   /// NaN can't be stored in any of the integer formats
+   if ( doConversion_ && std::isnan( inValue ) && memoryRepresentation_ <= Int64 )
+   {
+      throw E57_EXCEPTION2( ErrorValueNotRepresentable, "pathName=" + pathName_ + " value=NaN" );
+   }
+
    switch ( memoryRepresentation_ )
    {
       case Int8:
@@ -202,7 +220,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT32_MIN || ( inValue > static_cast<T>( INT32_MAX ) ) )
+         if ( inValue < INT32_MIN || ( inValue >= static_cast<T>( INT32_MAX ) + 1 ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -214,7 +232,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT32_MIN || ( inValue > ( static_cast<T>( UINT32_MAX ) ) ) )
+         if ( inValue < UINT32_MIN || ( inValue >= ( static_cast<T>( UINT32_MAX ) + 1 ) ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -226,7 +244,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT64_MIN || ( inValue > ( static_cast<T>( INT64_MAX ) ) ) )
+         if ( inValue < INT64_MIN || ( inValue >= ( static_cast<T>( INT64_MAX ) ) ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -246,7 +264,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
             /// Does this count as conversion?  It loses information.
             /// Check for really large exponents that can't fit in a single
             /// precision
-            if ( inValue < DOUBLE_MIN || DOUBLE_MAX < inValue )
+            if ( inValue < FLOAT_MIN || FLOAT_MAX < inValue )
             {
                throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                      "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -364,16 +382,14 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
-         value = static_cast<int64_t>( *reinterpret_cast<float *>( p ) );
+         value = realToInt64( *reinterpret_cast<float *>( p ), pathName_ );
          break;
       case Real64:
          if ( !doConversion_ )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
-         value = static_cast<int64_t>( *reinterpret_cast<double *>( p ) );
+         value = realToInt64( *reinterpret_cast<double *>( p ), pathName_ );
          break;
       case UString:
          throw E57_EXCEPTION2( ErrorExpectingNumeric, "pathName=" + pathName_ );
@@ -492,7 +508,8 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
    }
 
    /// Make sure that value is representable in an int64_t
-   if ( doubleRawValue < INT64_MIN || ( doubleRawValue > ( static_cast<double>( INT64_MAX ) ) ) )
+   if ( std::isnan( doubleRawValue ) || doubleRawValue < INT64_MIN ||
+        ( doubleRawValue >= ( static_cast<double>( INT64_MAX ) ) ) )
    {
       throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                             "pathName=" + pathName_ + " value=" + toString( doubleRawValue ) );
@@ -588,7 +605,7 @@ float SourceDestBufferImpl::getNextFloat()
          double d = *reinterpret_cast<double *>( p );
 
          ///??? silently limit here?
-         if ( d < DOUBLE_MIN || DOUBLE_MAX < d )
+         if ( d < FLOAT_MIN || FLOAT_MAX < d )
          {
             throw E57_EXCEPTION2( ErrorReal64TooLarge,
                                   "pathName=" + pathName_ + " value=" + toString( d ) );
@@ -905,6 +922,12 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint32_t *>( p ) = static_cast<uint32_t>( scaledValue );
          break;
       case Int64:
+         if ( scaledValue < INT64_MIN || scaledValue >= static_cast<double>( INT64_MAX ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " scaledValue=" + toString( scaledValue ) );
+         }
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
@@ -917,7 +940,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          }
          /// Check that exponent of result is not too big for single precision
          /// float
-         if ( scaledValue < DOUBLE_MIN || DOUBLE_MAX < scaledValue )
+         if ( scaledValue < FLOAT_MIN || FLOAT_MAX < scaledValue )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
-- 
2.43.0


From 6a856b7d11ee09576c7603d397ba0258a9810cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:14 +0000
Subject: [PATCH 09/45] fix: apply scale and offset when writing a scaled
 integer field holding one value

A scaled integer field whose minimum equals its maximum needs no bits. Its
encoder compared the unscaled buffer value with the raw minimum, so valid data
were refused and wrong data accepted. Convert the value like the other encoders.
---
 src/Encoder.cpp | 14 ++++++++------
 src/Encoder.h   |  6 +++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index 74209d0..ea1b433 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -83,7 +83,7 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, ini->minimum() ) );
+               new ConstantIntegerEncoder( bytestreamNumber, sbuf, ini->minimum(), false, 1.0, 0.0 ) );
 
             return encoder;
          }
@@ -137,8 +137,8 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          // stored.
          if ( bitsPerRecord == 0 )
          {
-            std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, sini->minimum() ) );
+            std::shared_ptr<Encoder> encoder( new ConstantIntegerEncoder(
+               bytestreamNumber, sbuf, sini->minimum(), true, sini->scale(), sini->offset() ) );
 
             return encoder;
          }
@@ -895,9 +895,10 @@ void BitpackIntegerEncoder<RegisterT>::dump( int indent, std::ostream &os ) cons
 //================================================================
 
 ConstantIntegerEncoder::ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf,
-                                                int64_t minimum ) :
+                                                int64_t minimum, bool isScaledInteger, double scale,
+                                                double offset ) :
    Encoder( bytestreamNumber ), sourceBuffer_( sbuf.impl() ), currentRecordIndex_( 0 ),
-   minimum_( minimum )
+   minimum_( minimum ), isScaledInteger_( isScaledInteger ), scale_( scale ), offset_( offset )
 {
 }
 
@@ -912,7 +913,8 @@ uint64_t ConstantIntegerEncoder::processRecords( size_t recordCount )
    // Check that all source values are == minimum_
    for ( unsigned i = 0; i < recordCount; i++ )
    {
-      int64_t nextInt64 = sourceBuffer_->getNextInt64();
+      int64_t nextInt64 = isScaledInteger_ ? sourceBuffer_->getNextInt64( scale_, offset_ )
+                                           : sourceBuffer_->getNextInt64();
       if ( nextInt64 != minimum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "nextInt64=" + toString( nextInt64 ) +
diff --git a/src/Encoder.h b/src/Encoder.h
index 5806f6a..734491c 100644
--- a/src/Encoder.h
+++ b/src/Encoder.h
@@ -176,7 +176,8 @@ namespace e57
    class ConstantIntegerEncoder : public Encoder
    {
    public:
-      ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf, int64_t minimum );
+      ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf, int64_t minimum,
+                              bool isScaledInteger, double scale, double offset );
       uint64_t processRecords( size_t recordCount ) override;
       unsigned sourceBufferNextIndex() override;
       uint64_t currentRecordIndex() override;
@@ -199,5 +200,8 @@ namespace e57
       std::shared_ptr<SourceDestBufferImpl> sourceBuffer_;
       uint64_t currentRecordIndex_;
       int64_t minimum_;
+      bool isScaledInteger_;
+      double scale_;
+      double offset_;
    };
 }
-- 
2.43.0


From a134a519655a16f5b5faff383f4ff14556e6cdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:52 +0000
Subject: [PATCH 10/45] fix: use the new buffers given to a record read or
 write call

Passing replacement buffers to CompressedVectorReader::read or
CompressedVectorWriter::write kept transferring to and from the buffers given
before. Hand the replacements to the decoders and encoders.
---
 src/CompressedVectorReaderImpl.cpp |  9 +++++++++
 src/CompressedVectorWriterImpl.cpp | 13 ++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 21eed23..2131688 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -232,6 +232,15 @@ namespace e57
       // Check compatible with current dbufs
       setBuffers( dbufs );
 
+      // Direct the decoders to the new buffers
+      for ( size_t i = 0; i < channels_.size(); i++ )
+      {
+         std::vector<SourceDestBuffer> theDbuf( 1, dbufs_.at( i ) );
+
+         channels_[i].dbuf = theDbuf.at( 0 );
+         channels_[i].decoder->destBufferSetNew( theDbuf );
+      }
+
       return ( read() );
    }
 
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 16d728c..bbc003b 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -283,9 +283,20 @@ namespace e57
                                            const size_t requestedRecordCount )
    {
       // don't checkImageFileOpen, write(unsigned) will do it
-      // don't checkWriterOpen(), write(unsigned) will do it
+      checkWriterOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       setBuffers( sbufs );
+
+      // Direct the encoders to the new buffers
+      for ( const auto &sbuf : sbufs_ )
+      {
+         std::vector<SourceDestBuffer> theSbuf( 1, sbuf );
+         uint64_t bytestreamNumber = 0;
+
+         proto_->findTerminalPosition( proto_->get( sbuf.pathName() ), bytestreamNumber );
+         bytestreams_.at( bytestreamNumber )->sourceBufferSetNew( theSbuf );
+      }
+
       write( requestedRecordCount );
    }
 
-- 
2.43.0


From 4517eb71a7ba301bb23138cf64693d0b72cd5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:21 +0000
Subject: [PATCH 11/45] fix: drop the records of a vector when writing them
 failed part way

After a write call that failed because of a bad value, closing the writer
stored streams that no longer matched each other, and writing again could loop
forever. As documented, leave the vector empty and refuse further writes.
---
 src/CompressedVectorWriterImpl.cpp | 20 +++++++++++++++++++-
 src/CompressedVectorWriterImpl.h   |  1 +
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index bbc003b..49b02b7 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -173,12 +173,18 @@ namespace e57
       // try to close again.
       isOpen_ = false;
 
+      // If a write failed, drop all records
+      if ( writeIncomplete_ )
+      {
+         recordCount_ = 0;
+      }
+
       // If have any data, write packet
       // Write all remaining ioBuffers and internal encoder register cache into
       // file. Know we are done when totalOutputAvailable() returns 0 after a
       // flush().
       flush();
-      while ( totalOutputAvailable() > 0 )
+      while ( totalOutputAvailable() > 0 && !writeIncomplete_ )
       {
          packetWrite();
          flush();
@@ -308,6 +314,14 @@ namespace e57
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       checkWriterOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
+      // Can't go on after a failed write
+      if ( writeIncomplete_ )
+      {
+         throw E57_EXCEPTION2( ErrorWriterNotOpen,
+                               "previous write failed; imageFileName=" + cVector_->imageFileName() +
+                                  " cvPathName=" + cVector_->pathName() );
+      }
+
       // Nothing to do. If no data is ever written, close() will write an empty packet.
       if ( requestedRecordCount == 0 )
       {
@@ -330,6 +344,9 @@ namespace e57
          sbuf.impl()->rewind();
       }
 
+      // If the transfer fails part way, the streams no longer match each other
+      writeIncomplete_ = true;
+
       // Loop until all channels have completed requestedRecordCount transfers
       uint64_t endRecordIndex = recordCount_ + requestedRecordCount;
       while ( true )
@@ -412,6 +429,7 @@ namespace e57
       }
 
       recordCount_ += requestedRecordCount;
+      writeIncomplete_ = false;
 
       // When we leave this function, will likely still have data in channel
       // ioBuffers as well as partial words in Encoder registers.
diff --git a/src/CompressedVectorWriterImpl.h b/src/CompressedVectorWriterImpl.h
index 5596267..d439f3a 100644
--- a/src/CompressedVectorWriterImpl.h
+++ b/src/CompressedVectorWriterImpl.h
@@ -75,6 +75,7 @@ namespace e57
       uint64_t dataPhysicalOffset_;        /// start of first data packet
       uint64_t topIndexPhysicalOffset_;    /// top level index packet
       uint64_t recordCount_;               /// number of records written so far
+      bool writeIncomplete_ = false;       /// true during a write, and after one that failed
       uint64_t dataPacketsCount_;          /// number of data packets written so far
       uint64_t indexPacketsCount_;         /// number of index packets written so far
    };
-- 
2.43.0


From 27e0e91b1a3b71c2d5e5b07a2ad185f86e9322a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:52 +0000
Subject: [PATCH 12/45] fix: write integers and child numbers independently of
 the global locale

A program that installs a C++ locale with digit grouping got files with
grouped digits in their XML, which could not be read back.
---
 src/CheckedFile.cpp       | 10 ++++------
 src/StructureNodeImpl.cpp |  5 ++---
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 12dbd5e..dc643af 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -464,16 +464,14 @@ CheckedFile &CheckedFile::operator<<( const ustring &s )
 
 CheckedFile &CheckedFile::operator<<( int64_t i )
 {
-   std::stringstream ss;
-   ss << i;
-   return ( *this << ss.str() );
+   // Note: does not depend on the global locale, unlike stream output
+   return ( *this << std::to_string( i ) );
 }
 
 CheckedFile &CheckedFile::operator<<( uint64_t i )
 {
-   std::stringstream ss;
-   ss << i;
-   return ( *this << ss.str() );
+   // Note: does not depend on the global locale, unlike stream output
+   return ( *this << std::to_string( i ) );
 }
 
 CheckedFile &CheckedFile::operator<<( float f )
diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index e64f7e9..5c42c98 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -236,8 +236,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
    }
 
    // Field name is string version of index value, e.g. "14"
-   std::stringstream elementName;
-   elementName << index;
+   const ustring elementName = std::to_string( index );
 
    // If this struct is type constrained, can't add new child
    if ( isTypeConstrained() )
@@ -245,7 +244,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
       throw E57_EXCEPTION2( ErrorHomogeneousViolation, "this->pathName=" + this->pathName() );
    }
 
-   ni->setParent( shared_from_this(), elementName.str() );
+   ni->setParent( shared_from_this(), elementName );
    children_.push_back( ni );
 }
 
-- 
2.43.0


From a795403afa50923962a612041a592d6b7e421f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:46 +0000
Subject: [PATCH 13/45] fix: refuse blobs of negative size and blobs created in
 a file being read

---
 src/BlobNodeImpl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 12ba879..70cb9c2 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -40,6 +40,16 @@ namespace e57
 
       ImageFileImplSharedPtr imf( destImageFile );
 
+      if ( !imf->isWriter() )
+      {
+         throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + imf->fileName() );
+      }
+      if ( byteCount < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "fileName=" + imf->fileName() +
+                                                       " byteCount=" + toString( byteCount ) );
+      }
+
       // This what caller thinks blob length is
       blobLogicalLength_ = byteCount;
 
-- 
2.43.0


From a58b3f8cc025eebf16ca04770dcae72404bb1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:46 +0000
Subject: [PATCH 14/45] fix: refuse NaN as the value of a float element

NaN is not within any bounds. Writing it made close() fail with an exception
that is not an E57Exception.
---
 src/FloatNodeImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FloatNodeImpl.cpp b/src/FloatNodeImpl.cpp
index 0486354..e17d51c 100644
--- a/src/FloatNodeImpl.cpp
+++ b/src/FloatNodeImpl.cpp
@@ -54,7 +54,8 @@ namespace e57
    // Throw an exception if the value is not within bounds.
    void FloatNodeImpl::validateValue() const
    {
-      if ( value_ < minimum_ || value_ > maximum_ )
+      // Written this way round so that NaN is refused as well
+      if ( !( value_ >= minimum_ && value_ <= maximum_ ) )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "this->pathName=" + this->pathName() +
                                                          " value=" + toString( value_ ) +
-- 
2.43.0


From 12edcb83514b4d75a391f0d6439d25fa729843ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:46 +0000
Subject: [PATCH 15/45] fix: refuse scaled values without a raw integer when
 creating a scaled integer

A scale of zero or a quotient beyond 64 bits made the conversion undefined.
---
 src/ScaledIntegerNodeImpl.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/ScaledIntegerNodeImpl.cpp b/src/ScaledIntegerNodeImpl.cpp
index 1c284b6..d938e19 100644
--- a/src/ScaledIntegerNodeImpl.cpp
+++ b/src/ScaledIntegerNodeImpl.cpp
@@ -33,6 +33,27 @@
 
 namespace e57
 {
+   // Convert a scaled value to a raw value, throws if there is no such integer.
+   static int64_t rawFromScaled( double scaledValue, double scale, double offset )
+   {
+      if ( scale == 0.0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "scale=" + toString( scale ) );
+      }
+
+      const double cRawValue = std::floor( ( scaledValue - offset ) / scale + .5 );
+
+      // Both limits are exact: -2^63 and 2^63
+      if ( !( cRawValue >= -9223372036854775808.0 && cRawValue < 9223372036854775808.0 ) )
+      {
+         throw E57_EXCEPTION2( ErrorValueOutOfBounds, "scaledValue=" + toString( scaledValue ) +
+                                                         " scale=" + toString( scale ) +
+                                                         " offset=" + toString( offset ) );
+      }
+
+      return static_cast<int64_t>( cRawValue );
+   }
+
    ScaledIntegerNodeImpl::ScaledIntegerNodeImpl( ImageFileImplWeakPtr destImageFile,
                                                  int64_t rawValue, int64_t minimum, int64_t maximum,
                                                  double scale, double offset ) :
@@ -46,9 +67,9 @@ namespace e57
                                                  double scaledMaximum, double scale,
                                                  double offset ) :
       NodeImpl( destImageFile ),
-      value_( static_cast<int64_t>( std::floor( ( scaledValue - offset ) / scale + .5 ) ) ),
-      minimum_( static_cast<int64_t>( std::floor( ( scaledMinimum - offset ) / scale + .5 ) ) ),
-      maximum_( static_cast<int64_t>( std::floor( ( scaledMaximum - offset ) / scale + .5 ) ) ),
+      value_( rawFromScaled( scaledValue, scale, offset ) ),
+      minimum_( rawFromScaled( scaledMinimum, scale, offset ) ),
+      maximum_( rawFromScaled( scaledMaximum, scale, offset ) ),
       scale_( scale ), offset_( offset )
    {
    }
-- 
2.43.0


From ba15af41e0139153706a64bcb866ff62f4ec6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:37 +0000
Subject: [PATCH 16/45] fix: enforce the documented rules when adding children
 to structures and vectors

Setting a child by path accepted elements of another file, out of order or
differently typed children of vectors, and names that are not element names.
Children could be added in a file opened for reading, and an element could
become its own ancestor, which made later calls loop forever.
---
 src/NodeImpl.cpp          |  3 ++-
 src/StructureNode.cpp     |  6 ++++++
 src/StructureNodeImpl.cpp | 31 +++++++++++++++++++++++++++++++
 src/VectorNode.cpp        |  6 ++++++
 4 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 12c69c4..ead7d25 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -166,7 +166,8 @@ void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
    //    root.set("x", root)) 2) if user attempts to reuse codecs or prototype
    //    trees of a CompressedVectorNode
    //       ??? what if CV not attached yet?
-   if ( !parent_.expired() || isAttached_ )
+   // The root of the new parent can't be this node either: it would become its own ancestor.
+   if ( !parent_.expired() || isAttached_ || parent->getRoot() == shared_from_this() )
    {
       // ??? does caller do setParent first, so state is not messed up when
       // throw?
diff --git a/src/StructureNode.cpp b/src/StructureNode.cpp
index c01a9ef..8395746 100644
--- a/src/StructureNode.cpp
+++ b/src/StructureNode.cpp
@@ -352,6 +352,12 @@ destImageFile() == n.destImageFile()).
 */
 void StructureNode::set( const ustring &pathName, const Node &n )
 {
+   const ImageFile imf( destImageFile() );
+   if ( imf.isOpen() && !imf.isWritable() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + imf.fileName() );
+   }
+
    impl_->set( pathName, n.impl(), false );
 }
 
diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 5c42c98..7419afc 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -330,6 +330,37 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
    // Check if we are at bottom level
    if ( level == fields.size() - 1 )
    {
+      // The only path for a new child of a vector is the next number, which is the same as appending
+      if ( type() == TypeVector )
+      {
+         if ( fields.at( level ) != std::to_string( children_.size() ) )
+         {
+            throw E57_EXCEPTION2( ErrorPathUndefined, "this->pathName=" + this->pathName() +
+                                                         " field=" + fields.at( level ) );
+         }
+
+         set( childCount(), ni );
+         return;
+      }
+
+      // A path may end in "/" or in a number, but these are not element names
+      const char first = fields.at( level ).empty() ? '0' : fields.at( level ).front();
+      if ( first >= '0' && first <= '9' )
+      {
+         throw E57_EXCEPTION2( ErrorPathNameMalformed, "this->pathName=" + this->pathName() +
+                                                          " field=" + fields.at( level ) );
+      }
+
+      // Verify that child is destined for same ImageFile as this is
+      ImageFileImplSharedPtr thisDest( destImageFile() );
+      ImageFileImplSharedPtr niDest( ni->destImageFile() );
+      if ( thisDest != niDest )
+      {
+         throw E57_EXCEPTION2( ErrorDifferentDestImageFile,
+                               "this->destImageFile" + thisDest->fileName() +
+                                  " ni->destImageFile" + niDest->fileName() );
+      }
+
       // At bottom, so append node at end of children
       ni->setParent( shared_from_this(), fields.at( level ) );
       children_.push_back( ni );
diff --git a/src/VectorNode.cpp b/src/VectorNode.cpp
index 8ba5ab5..af1d902 100644
--- a/src/VectorNode.cpp
+++ b/src/VectorNode.cpp
@@ -380,6 +380,12 @@ destImageFile().isWritable()).
 */
 void VectorNode::append( const Node &n )
 {
+   const ImageFile imf( destImageFile() );
+   if ( imf.isOpen() && !imf.isWritable() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + imf.fileName() );
+   }
+
    impl_->append( n.impl() );
 }
 
-- 
2.43.0


From cb3912922b5c5110c800a76ed375b96bdc6e9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:36 +0000
Subject: [PATCH 17/45] fix: refuse prototypes that contain blobs or record
 vectors, or that are the file root

---
 src/CompressedVectorNode.cpp     | 32 ++++++++++++++++++++++++++++++++
 src/CompressedVectorNodeImpl.cpp |  4 ++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/CompressedVectorNode.cpp b/src/CompressedVectorNode.cpp
index a8ac13c..4d879ac 100644
--- a/src/CompressedVectorNode.cpp
+++ b/src/CompressedVectorNode.cpp
@@ -161,6 +161,37 @@ externally visible state for consistency and throws an exception if the invarian
 @see CompressedVectorReader, CompressedVectorWriter, Node
 */
 
+/// Throw an exception if the tree contains nodes that can't be stored in a record.
+static void checkPrototype( const Node &node )
+{
+   switch ( node.type() )
+   {
+      case TypeBlob:
+      case TypeCompressedVector:
+         throw E57_EXCEPTION2( ErrorBadPrototype, "node->pathName=" + node.pathName() );
+      case TypeStructure:
+      {
+         const StructureNode s( node );
+         for ( int64_t i = 0; i < s.childCount(); ++i )
+         {
+            checkPrototype( s.get( i ) );
+         }
+         break;
+      }
+      case TypeVector:
+      {
+         const VectorNode v( node );
+         for ( int64_t i = 0; i < v.childCount(); ++i )
+         {
+            checkPrototype( v.get( i ) );
+         }
+         break;
+      }
+      default:
+         break;
+   }
+}
+
 /*!
 @brief Create an empty CompressedVectorNode, for writing, that will store records specified by the
 prototype.
@@ -213,6 +244,7 @@ CompressedVectorNode::CompressedVectorNode( const ImageFile &destImageFile, cons
 {
    // Because of shared_ptr quirks, can't set prototype,codecs in CompressedVectorNodeImpl(), so set
    // it afterwards
+   checkPrototype( prototype );
    impl_->setPrototype( prototype.impl() );
    impl_->setCodecs( codecs.impl() );
 }
diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 63ae31c..4048171 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -54,8 +54,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorSetTwice, "this->pathName=" + this->pathName() );
       }
 
-      // prototype can't have a parent (must be a root node)
-      if ( !prototype->isRoot() )
+      // prototype can't have a parent (must be a root node), nor be the root of the ImageFile
+      if ( !prototype->isRoot() || prototype == destImageFile()->root() )
       {
          throw E57_EXCEPTION2( ErrorAlreadyHasParent,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From fa6cf61885ac1f2e4af6016154909e0825ff6551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:34 +0000
Subject: [PATCH 18/45] fix: require the local part of a prefixed element name
 to start like a name

---
 src/ImageFileImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index b8facea..45585e3 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -749,6 +749,14 @@ namespace e57
                                                              " prefix=" + prefix +
                                                              " localPart=" + localPart );
          }
+
+         // The local part has to start like an unprefixed name
+         c = localPart[0];
+
+         if ( c < 128 && !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ) )
+         {
+            throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName );
+         }
       }
       else
       {
-- 
2.43.0


From 8288b73e6aefd5604eda6863b6df21eadaade854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:51 +0000
Subject: [PATCH 19/45] fix: escape extension URIs in the XML section

A URI with a quote, ampersand or less-than sign made the file unreadable.
---
 src/StructureNodeImpl.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 7419afc..db04adb 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -34,6 +34,38 @@
 
 using namespace e57;
 
+// Escape the characters that can't appear literally in an XML attribute value.
+static ustring escapeAttribute( const ustring &value )
+{
+   ustring escaped;
+
+   for ( const char c : value )
+   {
+      switch ( c )
+      {
+         case '&':
+            escaped += "&amp;";
+            break;
+         case '<':
+            escaped += "&lt;";
+            break;
+         case '"':
+            escaped += "&quot;";
+            break;
+         case '\t':
+         case '\n':
+         case '\r':
+            escaped += "&#" + std::to_string( static_cast<int>( c ) ) + ";";
+            break;
+         default:
+            escaped += c;
+            break;
+      }
+   }
+
+   return escaped;
+}
+
 StructureNodeImpl::StructureNodeImpl( ImageFileImplWeakPtr destImageFile ) :
    NodeImpl( destImageFile )
 {
@@ -450,7 +482,7 @@ void StructureNodeImpl::writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, i
 
          cf << "\n"
             << space( numSpaces ) << xmlnsExtension << imf->extensionsPrefix( index ) << "=\""
-            << imf->extensionsUri( index ) << "\"";
+            << escapeAttribute( imf->extensionsUri( index ) ) << "\"";
       }
 
       // If user didn't explicitly declare a default namespace, use the current E57 standard one.
-- 
2.43.0


From b81ad1cd88725e22f514d6110ffc94ffe47b06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:51 +0000
Subject: [PATCH 20/45] fix: refuse invalid extension declarations and out of
 range extension numbers

Prefixes that are not names, empty URIs and the URI of the default namespace
made the file unreadable. Numbers out of range read outside the list.
---
 src/ImageFile.cpp     | 31 +++++++++++++++++++++++++++++++
 src/ImageFileImpl.cpp | 19 ++++++++++++++++---
 2 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/ImageFile.cpp b/src/ImageFile.cpp
index 1947a44..4462997 100644
--- a/src/ImageFile.cpp
+++ b/src/ImageFile.cpp
@@ -507,6 +507,37 @@ See the class discussion at bottom of ImageFile page for more details about name
 */
 void ImageFile::extensionsAdd( const ustring &prefix, const ustring &uri )
 {
+   if ( isOpen() && !isWritable() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + fileName() );
+   }
+
+   // A prefix has to be a legal unprefixed element name. The default namespace is allowed.
+   if ( !prefix.empty() )
+   {
+      ustring noPrefix;
+      ustring localPart;
+
+      try
+      {
+         elementNameParse( prefix, noPrefix, localPart );
+      }
+      catch ( const E57Exception & )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "prefix=" + prefix + " uri=" + uri );
+      }
+
+      if ( localPart != prefix )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "prefix=" + prefix + " uri=" + uri );
+      }
+   }
+
+   if ( uri.empty() )
+   {
+      throw E57_EXCEPTION2( ErrorBadAPIArgument, "prefix=" + prefix + " uri=" + uri );
+   }
+
    impl_->extensionsAdd( prefix, uri );
 }
 
diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 45585e3..d52e487 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -408,7 +408,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorDuplicateNamespacePrefix, "prefix=" + prefix + " uri=" + uri );
       }
 
-      if ( extensionsLookupUri( uri, dummy ) )
+      // The default namespace is always declared, so its URI is taken as well.
+      if ( extensionsLookupUri( uri, dummy ) || ( !prefix.empty() && uri == VERSION_1_0_URI ) )
       {
          throw E57_EXCEPTION2( ErrorDuplicateNamespaceURI, "prefix=" + prefix + " uri=" + uri );
          ;
@@ -467,14 +468,26 @@ namespace e57
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].prefix; //??? throw e57 exception here if out of bounds?
+      if ( index >= nameSpaces_.size() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "fileName=" + fileName_ +
+                                                       " index=" + toString( index ) );
+      }
+
+      return nameSpaces_[index].prefix;
    }
 
    ustring ImageFileImpl::extensionsUri( const size_t index ) const
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].uri; //??? throw e57 exception here if out of bounds?
+      if ( index >= nameSpaces_.size() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "fileName=" + fileName_ +
+                                                       " index=" + toString( index ) );
+      }
+
+      return nameSpaces_[index].uri;
    }
 
    bool ImageFileImpl::isElementNameExtended( const ustring &elementName )
-- 
2.43.0


From 72ac7f0a383fa2335c3085cbae62b213698cb58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:31 +0000
Subject: [PATCH 21/45] fix: refuse blob transfers with a negative start or an
 overflowing end

---
 src/BlobNodeImpl.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 70cb9c2..d870b02 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -133,10 +133,9 @@ namespace e57
 
    void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
-
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
@@ -152,7 +151,6 @@ namespace e57
 
    void BlobNodeImpl::write( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       ImageFileImplSharedPtr destImageFile( destImageFile_ );
@@ -166,7 +164,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From 143a438217fcdf828fad3dd6d7ef5b68d9ab4714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:33 +0000
Subject: [PATCH 22/45] fix: refuse record vectors without a prototype when
 reading the XML section

---
 src/E57XmlParser.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index eb8a0a1..9e21136 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -714,9 +714,26 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          break;
       case TypeCompressedVector:
       {
-         // Verify that both prototype and codecs child elements were defined
-         // ???
-         current_ni = pi.container_ni;
+         std::shared_ptr<CompressedVectorNodeImpl> cv_ni =
+            std::static_pointer_cast<CompressedVectorNodeImpl>( pi.container_ni );
+
+         // Verify that the prototype child element was defined
+         if ( !cv_ni->getPrototype() )
+         {
+            throw E57_EXCEPTION2( ErrorBadXMLFormat, "missing prototype fileName=" +
+                                                        imf_->fileName() +
+                                                        " uri=" + toUString( uri ) +
+                                                        " localName=" + toUString( localName ) +
+                                                        " qName=" + toUString( qName ) );
+         }
+
+         // Without a codecs child element, all fields use the default codec
+         if ( !cv_ni->getCodecs() )
+         {
+            cv_ni->setCodecs( std::make_shared<VectorNodeImpl>( imf_, true ) );
+         }
+
+         current_ni = cv_ni;
       }
       break;
       case TypeInteger:
-- 
2.43.0


From f394adb5f2c7eef7fd8419a33ed8a0a84a99d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:20 +0000
Subject: [PATCH 23/45] fix: keep the XML section from reading other files and
 from expanding entities without limit

---
 src/E57XmlParser.cpp | 5 +++++
 src/E57XmlParser.h   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 9e21136..14d3165 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -319,6 +319,11 @@ void E57XmlParser::init()
    xmlReader->setFeature( XMLUni::fgXercesSchemaFullChecking, true );
    xmlReader->setFeature( XMLUni::fgSAX2CoreNameSpacePrefixes, true );
 
+   // Don't let the XML section pull in other files, nor blow up by expanding entities
+   securityManager_.setEntityExpansionLimit( 100 );
+   xmlReader->setProperty( XMLUni::fgXercesSecurityManager, &securityManager_ );
+   xmlReader->setFeature( XMLUni::fgXercesDisableDefaultEntityResolution, true );
+
    xmlReader->setContentHandler( this );
    xmlReader->setErrorHandler( this );
 }
diff --git a/src/E57XmlParser.h b/src/E57XmlParser.h
index e1a5f86..b9b9d58 100644
--- a/src/E57XmlParser.h
+++ b/src/E57XmlParser.h
@@ -31,6 +31,7 @@
 
 #include <xercesc/sax/InputSource.hpp>
 #include <xercesc/sax2/DefaultHandler.hpp>
+#include <xercesc/util/SecurityManager.hpp>
 
 #include "Common.h"
 
@@ -99,6 +100,7 @@ namespace e57
 
       std::stack<ParseInfo> stack_; /// Stores the current path in tree we are reading
 
+      SecurityManager securityManager_; /// must outlive xmlReader
       SAX2XMLReader *xmlReader;
    };
 
-- 
2.43.0


From a190e37e1d59249c93cc0535faccb21ca8e384bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:29 +0000
Subject: [PATCH 24/45] fix: refuse XML sections nested deeper than 1000
 elements

---
 src/E57XmlParser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 14d3165..51b46a4 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -82,6 +82,10 @@ static_assert( std::is_same<size_t, XMLSize_t>::value,
 
 namespace
 {
+   // Deepest nesting of elements accepted. Nodes are visited and destroyed recursively, so this
+   // keeps a malformed file from exhausting the stack.
+   constexpr size_t MAX_NESTING = 1000;
+
    inline int64_t convertStrToLL( const std::string &inStr )
    {
 #if defined( _MSC_VER )
@@ -354,6 +358,13 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
                 << std::endl;
    }
 #endif
+   if ( stack_.size() >= MAX_NESTING )
+   {
+      throw E57_EXCEPTION2( ErrorBadXMLFormat, "elements nested too deeply fileName=" +
+                                                  imf_->fileName() +
+                                                  " qName=" + toUString( qName ) );
+   }
+
    // Get Type attribute
    ustring node_type = lookupAttribute( attributes, att_type );
 
-- 
2.43.0


From aede7bfa37f0dc14c47215af2b6501cfc724962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:01 +0000
Subject: [PATCH 25/45] fix: report colour limits outside the 16-bit range when
 taking them from the point fields

---
 src/ReaderImpl.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 37bfbe8..392dd25 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -167,8 +167,8 @@ namespace e57
          {
             const IntegerNode integerColour( colourProto );
 
-            colourMin = static_cast<uint16_t>( integerColour.minimum() );
-            colourMax = static_cast<uint16_t>( integerColour.maximum() );
+            colourMin = static_cast<double>( integerColour.minimum() );
+            colourMax = static_cast<double>( integerColour.maximum() );
          }
          else if ( colourProto.type() == TypeScaledInteger )
          {
@@ -178,15 +178,15 @@ namespace e57
             const int64_t minimum = scaledColour.minimum();
             const int64_t maximum = scaledColour.maximum();
 
-            colourMin = static_cast<uint16_t>( minimum ) * scale + offset;
-            colourMax = static_cast<uint16_t>( maximum ) * scale + offset;
+            colourMin = static_cast<double>( minimum ) * scale + offset;
+            colourMax = static_cast<double>( maximum ) * scale + offset;
          }
          else if ( colourProto.type() == TypeFloat )
          {
             const FloatNode floatColour( colourProto );
 
-            colourMin = static_cast<uint16_t>( floatColour.minimum() );
-            colourMax = static_cast<uint16_t>( floatColour.maximum() );
+            colourMin = floatColour.minimum();
+            colourMax = floatColour.maximum();
          }
       }
    }
-- 
2.43.0


From 5cb2c479e7050cfbd51517a3d51a544f63c9d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:42 +0000
Subject: [PATCH 26/45] fix: avoid signed overflow when computing row and
 column counts from extreme bounds

---
 src/ReaderImpl.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 392dd25..8c72e05 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -152,6 +152,16 @@ namespace e57
       return true;
    }
 
+   /// Number of integers in [minimum, maximum], or 0 if it can't be represented.
+   static int64_t _rangeSize( int64_t minimum, int64_t maximum )
+   {
+      const uint64_t size = static_cast<uint64_t>( maximum ) - static_cast<uint64_t>( minimum ) + 1;
+
+      return ( maximum < minimum || size > static_cast<uint64_t>( INT64_MAX ) )
+                ? 0
+                : static_cast<int64_t>( size );
+   }
+
    /// Possibly get min/max from the colour node itself instead of the colorLimits.
    void _readColourRanges( const std::string &protoName, const StructureNode &proto,
                            double &colourMin, double &colourMax )
@@ -1494,14 +1504,14 @@ namespace e57
 
          if ( indexBounds.isDefined( "columnMaximum" ) )
          {
-            column = IntegerNode( indexBounds.get( "columnMaximum" ) ).value() -
-                     IntegerNode( indexBounds.get( "columnMinimum" ) ).value() + 1;
+            column = _rangeSize( IntegerNode( indexBounds.get( "columnMinimum" ) ).value(),
+                                 IntegerNode( indexBounds.get( "columnMaximum" ) ).value() );
          }
 
          if ( indexBounds.isDefined( "rowMaximum" ) )
          {
-            row = IntegerNode( indexBounds.get( "rowMaximum" ) ).value() -
-                  IntegerNode( indexBounds.get( "rowMinimum" ) ).value() + 1;
+            row = _rangeSize( IntegerNode( indexBounds.get( "rowMinimum" ) ).value(),
+                              IntegerNode( indexBounds.get( "rowMaximum" ) ).value() );
          }
       }
 
@@ -1528,7 +1538,8 @@ namespace e57
             {
                const IntegerNode integerIDElementValue( lineGroupRecord.get( "idElementValue" ) );
 
-               elementSize = integerIDElementValue.maximum() - integerIDElementValue.minimum() + 1;
+               elementSize =
+                  _rangeSize( integerIDElementValue.minimum(), integerIDElementValue.maximum() );
             }
             else if ( bColumnIndex )
             {
-- 
2.43.0


From 81f1afabc41f5335cafd29c6e4817e51c499d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:56 +0000
Subject: [PATCH 27/45] fix: Report incomplete writes of a page as errors

---
 src/CheckedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index dc643af..762793f 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -819,7 +819,7 @@ void CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )
 #error "no supported compiler defined"
 #endif
 
-   if ( result < 0 )
+   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )
    {
       throw E57_EXCEPTION2( ErrorWriteFailed,
                             "fileName=" + fileName_ + " result=" + toString( result ) );
-- 
2.43.0


From a921d952e1c54061176f40bdbfeaa503735d3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:01 +0000
Subject: [PATCH 28/45] fix: Refuse calls on readers, writers and elements
 whose file is closed

Readers and writers used the closed file, a second close() changed the
number of open readers and writers again, and elements whose file was gone
raised std::bad_weak_ptr.
---
 src/CompressedVectorReaderImpl.cpp | 21 ++++++++-------------
 src/CompressedVectorWriterImpl.cpp | 24 +++++++++++++-----------
 src/NodeImpl.cpp                   | 16 ++++++++++++----
 3 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 2131688..e072413 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -224,9 +224,7 @@ namespace e57
 
    unsigned CompressedVectorReaderImpl::read( std::vector<SourceDestBuffer> &dbufs )
    {
-      // don't checkImageFileOpen(__FILE__, __LINE__, __FUNCTION__), read() will
-      // do it
-
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       checkReaderOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       // Check compatible with current dbufs
@@ -574,18 +572,18 @@ namespace e57
 
    void CompressedVectorReaderImpl::close()
    {
-      // Before anything that can throw, decrement reader count
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      imf->decrReaderCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-
       // No error if reader not open
       if ( !isOpen_ )
       {
          return;
       }
 
+      // The ImageFile may be closed or gone already
+      if ( ImageFileImplSharedPtr imf = cVector_->destImageFile_.lock() )
+      {
+         imf->decrReaderCount();
+      }
+
       // Destroy decoders
       channels_.clear();
 
@@ -598,10 +596,7 @@ namespace e57
    void CompressedVectorReaderImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorReaderImpl::checkReaderOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 49b02b7..811ea1e 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -156,14 +156,9 @@ namespace e57
 #ifdef E57_VERBOSE
       std::cout << "CompressedVectorWriterImpl::close() called" << std::endl; //???
 #endif
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-
-      // Before anything that can throw, decrement writer count
-      imf->decrWriterCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       // don't call checkWriterOpen();
 
+      // No error if writer not open
       if ( !isOpen_ )
       {
          return;
@@ -173,6 +168,16 @@ namespace e57
       // try to close again.
       isOpen_ = false;
 
+      ImageFileImplSharedPtr imf = cVector_->destImageFile_.lock();
+
+      // Before anything that can throw, decrement writer count
+      if ( imf )
+      {
+         imf->decrWriterCount();
+      }
+
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
       // If a write failed, drop all records
       if ( writeIncomplete_ )
       {
@@ -288,7 +293,7 @@ namespace e57
    void CompressedVectorWriterImpl::write( std::vector<SourceDestBuffer> &sbufs,
                                            const size_t requestedRecordCount )
    {
-      // don't checkImageFileOpen, write(unsigned) will do it
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       checkWriterOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       setBuffers( sbufs );
@@ -732,10 +737,7 @@ namespace e57
    void CompressedVectorWriterImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorWriterImpl::checkWriterOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index ead7d25..e62b2dd 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -45,10 +45,11 @@ void NodeImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                    const char *srcFunctionName ) const
 {
    // Throw an exception if destImageFile (destImageFile_) isn't open
-   ImageFileImplSharedPtr destImageFile( destImageFile_ );
-   if ( !destImageFile->isOpen() )
+   ImageFileImplSharedPtr destImageFile = destImageFile_.lock();
+   if ( !destImageFile || !destImageFile->isOpen() )
    {
-      throw E57Exception( ErrorImageFileNotOpen, "fileName=" + destImageFile->fileName(),
+      throw E57Exception( ErrorImageFileNotOpen,
+                          "fileName=" + ( destImageFile ? destImageFile->fileName() : ustring() ),
                           srcFileName, srcLineNumber, srcFunctionName );
    }
 }
@@ -130,7 +131,14 @@ ustring NodeImpl::elementName() const
 ImageFileImplSharedPtr NodeImpl::destImageFile()
 {
    // don't checkImageFileOpen
-   return ImageFileImplSharedPtr( destImageFile_ );
+   ImageFileImplSharedPtr imf = destImageFile_.lock();
+   if ( !imf )
+   {
+      // All handles of the ImageFile are gone
+      throw E57_EXCEPTION1( ErrorImageFileNotOpen );
+   }
+
+   return imf;
 }
 
 bool NodeImpl::isAttached() const
-- 
2.43.0


From 4ead0de553d09c1ad8d02688643098131d0a6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:36 +0000
Subject: [PATCH 29/45] fix: Refuse to write records to a vector that already
 has some

---
 src/CompressedVectorNodeImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 4048171..cda6d08 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -304,6 +304,13 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
+      // Can't write twice
+      if ( recordCount_ > 0 )
+      {
+         throw E57_EXCEPTION2( ErrorSetTwice, "fileName=" + destImageFile->fileName() +
+                                                 " recordCount=" + toString( recordCount_ ) );
+      }
+
       // Get pointer to me (really shared_ptr<CompressedVectorNodeImpl>)
       NodeImplSharedPtr ni( shared_from_this() );
 
-- 
2.43.0


From 0b71a6609c5c5060fbe4d06d83fea21ae38083d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:00 +0000
Subject: [PATCH 30/45] fix: Accept scans whose limits do not include zero

NewData3D gave every prototype element the value 0, which is rejected when
the limits of the field exclude it. Use the value nearest to 0 within the
limits.
---
 src/WriterImpl.cpp | 93 +++++++++++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index e6f4914..e1ad000 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -71,6 +71,16 @@ namespace
                .append( std::to_string( static_cast<int>( inNodeType ) ) );
       }
    }
+
+   /*!
+   @brief Get a value for a prototype node with the given bounds.
+
+   @return The value nearest to 0 which is in [minimum, maximum].
+   */
+   template <typename T> T _protoValue( T minimum, T maximum )
+   {
+      return ( minimum > 0 ) ? minimum : ( ( maximum < 0 ) ? maximum : 0 );
+   }
 }
 
 namespace e57
@@ -902,18 +912,21 @@ namespace e57
                const auto pointRangeMaximum = static_cast<int64_t>(
                   std::floor( ( pointRangeMax - pointRangeOffset ) / pointRangeScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, pointRangeMinimum, pointRangeMaximum,
-                                         pointRangeScale, pointRangeOffset );
+               return ScaledIntegerNode( imf_, _protoValue( pointRangeMinimum, pointRangeMaximum ),
+                                         pointRangeMinimum, pointRangeMaximum, pointRangeScale,
+                                         pointRangeOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _protoValue( pointRangeMin, pointRangeMax ), PrecisionSingle,
+                                 pointRangeMin, pointRangeMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _protoValue( pointRangeMin, pointRangeMax ), PrecisionDouble,
+                                 pointRangeMin, pointRangeMax );
             }
          }
 
@@ -969,18 +982,20 @@ namespace e57
                const auto angleMaximum = static_cast<int64_t>(
                   std::floor( ( angleMax - angleOffset ) / angleScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, angleMinimum, angleMaximum, angleScale,
-                                         angleOffset );
+               return ScaledIntegerNode( imf_, _protoValue( angleMinimum, angleMaximum ),
+                                         angleMinimum, angleMaximum, angleScale, angleOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, angleMin, angleMax );
+               return FloatNode( imf_, _protoValue( angleMin, angleMax ), PrecisionSingle, angleMin,
+                                 angleMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, angleMin, angleMax );
+               return FloatNode( imf_, _protoValue( angleMin, angleMax ), PrecisionDouble, angleMin,
+                                 angleMax );
             }
          }
 
@@ -1009,8 +1024,12 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "intensity", IntegerNode( imf_, 0, static_cast<int64_t>( intensityMin ),
-                                                    static_cast<int64_t>( intensityMax ) ) );
+               const auto integerMinimum = static_cast<int64_t>( intensityMin );
+               const auto integerMaximum = static_cast<int64_t>( intensityMax );
+
+               proto.set( "intensity",
+                          IntegerNode( imf_, _protoValue( integerMinimum, integerMaximum ),
+                                       integerMinimum, integerMaximum ) );
 
                break;
             }
@@ -1025,52 +1044,53 @@ namespace e57
                const auto rawIntegerMinimum =
                   static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
 
-               proto.set( "intensity", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "intensity", ScaledIntegerNode(
+                                          imf_, _protoValue( rawIntegerMinimum, rawIntegerMaximum ),
+                                          rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
 
                break;
             }
 
             case NumericalNodeType::Float:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionSingle,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity", FloatNode( imf_, _protoValue( intensityMin, intensityMax ),
+                                                  PrecisionSingle, intensityMin, intensityMax ) );
 
                break;
             }
 
             case NumericalNodeType::Double:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionDouble,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity", FloatNode( imf_, _protoValue( intensityMin, intensityMax ),
+                                                  PrecisionDouble, intensityMin, intensityMax ) );
 
                break;
             }
          }
       }
 
+      const auto getColorProto = [=]( double colorMin, double colorMax ) -> Node {
+         const auto colorMinimum = static_cast<int64_t>( colorMin );
+         const auto colorMaximum = static_cast<int64_t>( colorMax );
+
+         return IntegerNode( imf_, _protoValue( colorMinimum, colorMaximum ), colorMinimum,
+                             colorMaximum );
+      };
+
       if ( data3DHeader.pointFields.colorRedField )
       {
-         proto.set(
-            "colorRed",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorRedMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorRedMaximum ) ) );
+         proto.set( "colorRed", getColorProto( data3DHeader.colorLimits.colorRedMinimum,
+                                               data3DHeader.colorLimits.colorRedMaximum ) );
       }
       if ( data3DHeader.pointFields.colorGreenField )
       {
-         proto.set( "colorGreen",
-                    IntegerNode(
-                       imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMinimum ),
-                       static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMaximum ) ) );
+         proto.set( "colorGreen", getColorProto( data3DHeader.colorLimits.colorGreenMinimum,
+                                                 data3DHeader.colorLimits.colorGreenMaximum ) );
       }
       if ( data3DHeader.pointFields.colorBlueField )
       {
-         proto.set(
-            "colorBlue",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMaximum ) ) );
+         proto.set( "colorBlue", getColorProto( data3DHeader.colorLimits.colorBlueMinimum,
+                                                data3DHeader.colorLimits.colorBlueMaximum ) );
       }
 
       if ( data3DHeader.pointFields.returnIndexField )
@@ -1104,8 +1124,12 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "timeStamp", IntegerNode( imf_, 0, static_cast<int64_t>( timeMinimum ),
-                                                    static_cast<int64_t>( timeMaximum ) ) );
+               const auto integerMinimum = static_cast<int64_t>( timeMinimum );
+               const auto integerMaximum = static_cast<int64_t>( timeMaximum );
+
+               proto.set( "timeStamp",
+                          IntegerNode( imf_, _protoValue( integerMinimum, integerMaximum ),
+                                       integerMinimum, integerMaximum ) );
                break;
             }
 
@@ -1119,8 +1143,9 @@ namespace e57
                const auto rawIntegerMaximum =
                   static_cast<int64_t>( std::floor( ( timeMaximum - offset ) / scale + .5 ) );
 
-               proto.set( "timeStamp", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "timeStamp", ScaledIntegerNode(
+                                          imf_, _protoValue( rawIntegerMinimum, rawIntegerMaximum ),
+                                          rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
                break;
             }
 
-- 
2.43.0


From 09a87edfff9c55883b746da9658ab7828f91bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:00 +0000
Subject: [PATCH 31/45] fix: Keep limits set by the caller when creating float
 point buffers

The constructor replaced limits the caller had set by those of the float
type. The wider limits then overflowed scaled and integer fields.
---
 src/E57SimpleData.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/E57SimpleData.cpp b/src/E57SimpleData.cpp
index 29368e1..c5c6105 100644
--- a/src/E57SimpleData.cpp
+++ b/src/E57SimpleData.cpp
@@ -8,6 +8,8 @@
 #define _USE_MATH_DEFINES
 #include <cmath>
 
+#include <algorithm>
+
 #include "E57SimpleData.h"
 
 #include "Common.h"
@@ -53,15 +55,20 @@ namespace e57
 
       constexpr bool cIsFloat = std::is_same<COORDTYPE, float>::value;
 
-      // We need to adjust min/max for floats.
+      // We need to adjust min/max for floats (keeping limits which have been set).
       if ( cIsFloat )
       {
-         data3D.pointFields.pointRangeMinimum = FLOAT_MIN;
-         data3D.pointFields.pointRangeMaximum = FLOAT_MAX;
-         data3D.pointFields.angleMinimum = FLOAT_MIN;
-         data3D.pointFields.angleMaximum = FLOAT_MAX;
-         data3D.pointFields.timeMinimum = FLOAT_MIN;
-         data3D.pointFields.timeMaximum = FLOAT_MAX;
+         constexpr double cFloatMin = FLOAT_MIN;
+         constexpr double cFloatMax = FLOAT_MAX;
+
+         auto &pointFields = data3D.pointFields;
+
+         pointFields.pointRangeMinimum = std::max( pointFields.pointRangeMinimum, cFloatMin );
+         pointFields.pointRangeMaximum = std::min( pointFields.pointRangeMaximum, cFloatMax );
+         pointFields.angleMinimum = std::max( pointFields.angleMinimum, cFloatMin );
+         pointFields.angleMaximum = std::min( pointFields.angleMaximum, cFloatMax );
+         pointFields.timeMinimum = std::max( pointFields.timeMinimum, cFloatMin );
+         pointFields.timeMaximum = std::min( pointFields.timeMaximum, cFloatMax );
       }
 
       // IF point range node type is not ScaledInteger
-- 
2.43.0


From 65e6a02545c14a239b5bfddc5d038156431b1e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:00 +0000
Subject: [PATCH 32/45] fix: Fill in point limits individually and only from
 fields which exist

Limits were only derived when both were unset and all fields of the group
had buffers. A missing buffer was dereferenced, and a scan without points
got inverted limits.
---
 src/E57SimpleWriter.cpp | 95 +++++++++++++++++++++++++++--------------
 1 file changed, 64 insertions(+), 31 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index d11d81e..6f9ee47 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -49,67 +49,80 @@ namespace
       constexpr COORDTYPE cMin = std::numeric_limits<COORDTYPE>::lowest();
       constexpr COORDTYPE cMax = std::numeric_limits<COORDTYPE>::max();
 
+      // Limits which are not set are those of Data3D or those Data3DPointsData_t changed them to.
+      const auto minUnset = [=]( double inLimit ) {
+         return ( inLimit == cMin ) || ( inLimit == e57::DOUBLE_MIN );
+      };
+      const auto maxUnset = [=]( double inLimit ) {
+         return ( inLimit == cMax ) || ( inLimit == e57::DOUBLE_MAX );
+      };
+
       // IF we are using scaled ints for cartesian points
-      // AND we haven't set either min or max
+      // AND we haven't set min or max
       // THEN calculate them from the points
       auto pointRangeMinimum = cMax;
       auto pointRangeMaximum = cMin;
 
       const bool writePointRange =
          ( pointFields.pointRangeNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.pointRangeMinimum == cMin ) && ( pointFields.pointRangeMaximum == cMax );
+         ( minUnset( pointFields.pointRangeMinimum ) || maxUnset( pointFields.pointRangeMaximum ) );
 
       // IF we are using scaled ints for spherical angles
-      // AND we haven't set either min or max
+      // AND we haven't set min or max
       // THEN calculate them from the points
       auto angleMinimum = cMax;
       auto angleMaximum = cMin;
 
       const bool writeAngle =
          ( pointFields.angleNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.angleMinimum == cMin ) && ( pointFields.angleMaximum == cMax );
+         ( minUnset( pointFields.angleMinimum ) || maxUnset( pointFields.angleMaximum ) );
 
       // IF we are using scaled ints for timestamps
-      // AND we haven't set either min or max
+      // AND we haven't set min or max
       // THEN calculate them from the points
       double timeMinimum = std::numeric_limits<double>::max();
       double timeMaximum = std::numeric_limits<double>::lowest();
 
       const bool writeTimeStamp =
-         pointFields.timeStampField &&
+         pointFields.timeStampField && ( inBuffers.timeStamp != nullptr ) &&
          ( pointFields.timeNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.timeMinimum == cMin ) && ( pointFields.timeMaximum == cMax );
+         ( minUnset( pointFields.timeMinimum ) || maxUnset( pointFields.timeMaximum ) );
+
+      // Extend the limits by a value of a field (if we have it)
+      const auto extend = []( bool inField, const COORDTYPE *inBuffer, size_t inIndex,
+                              COORDTYPE &ioMinimum, COORDTYPE &ioMaximum ) {
+         if ( inField && ( inBuffer != nullptr ) )
+         {
+            ioMinimum = std::min( inBuffer[inIndex], ioMinimum );
+            ioMaximum = std::max( inBuffer[inIndex], ioMaximum );
+         }
+      };
 
       // Now run through the points and set the things we need to
       for ( size_t i = 0; i < ioData3DHeader.pointCount; ++i )
       {
-         if ( writePointRange && pointFields.cartesianXField )
+         if ( writePointRange )
          {
-            pointRangeMinimum = std::min( inBuffers.cartesianX[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
+            extend( pointFields.cartesianXField, inBuffers.cartesianX, i, pointRangeMinimum,
+                    pointRangeMaximum );
+            extend( pointFields.cartesianYField, inBuffers.cartesianY, i, pointRangeMinimum,
+                    pointRangeMaximum );
+            extend( pointFields.cartesianZField, inBuffers.cartesianZ, i, pointRangeMinimum,
+                    pointRangeMaximum );
 
-            pointRangeMaximum = std::max( inBuffers.cartesianX[i], pointRangeMaximum );
-            pointRangeMaximum = std::max( inBuffers.cartesianY[i], pointRangeMaximum );
-            pointRangeMaximum = std::max( inBuffers.cartesianZ[i], pointRangeMaximum );
-         }
-
-         if ( writePointRange && pointFields.sphericalRangeField )
-         {
             // Note that the writer code uses pointRangeMinimum/pointRangeMaximum
             // (see WriterImpl::NewData3D()) instead of using the sphericalBounds which has
             // rangeMinimum and rangeMaximum.
-            pointRangeMinimum = std::min( inBuffers.sphericalRange[i], pointRangeMinimum );
-            pointRangeMaximum = std::max( inBuffers.sphericalRange[i], pointRangeMaximum );
+            extend( pointFields.sphericalRangeField, inBuffers.sphericalRange, i, pointRangeMinimum,
+                    pointRangeMaximum );
          }
 
          if ( writeAngle )
          {
-            angleMinimum = std::min( inBuffers.sphericalAzimuth[i], angleMinimum );
-            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
-
-            angleMaximum = std::max( inBuffers.sphericalAzimuth[i], angleMaximum );
-            angleMaximum = std::max( inBuffers.sphericalElevation[i], angleMaximum );
+            extend( pointFields.sphericalAzimuthField, inBuffers.sphericalAzimuth, i, angleMinimum,
+                    angleMaximum );
+            extend( pointFields.sphericalElevationField, inBuffers.sphericalElevation, i,
+                    angleMinimum, angleMaximum );
          }
 
          if ( writeTimeStamp )
@@ -119,22 +132,42 @@ namespace
          }
       }
 
+      // Fill in the limits which are not set
+      const auto fill = [=]( double &ioMinimum, double &ioMaximum, double inMinimum,
+                             double inMaximum ) {
+         // IF there are no values
+         // THEN use an empty range at the other limit (or at 0)
+         if ( inMinimum > inMaximum )
+         {
+            inMinimum = maxUnset( ioMaximum ) ? 0.0 : ioMaximum;
+            inMaximum = minUnset( ioMinimum ) ? 0.0 : ioMinimum;
+         }
+
+         if ( minUnset( ioMinimum ) )
+         {
+            ioMinimum = inMinimum;
+         }
+
+         if ( maxUnset( ioMaximum ) )
+         {
+            ioMaximum = inMaximum;
+         }
+      };
+
       if ( writePointRange )
       {
-         pointFields.pointRangeMinimum = pointRangeMinimum;
-         pointFields.pointRangeMaximum = pointRangeMaximum;
+         fill( pointFields.pointRangeMinimum, pointFields.pointRangeMaximum, pointRangeMinimum,
+               pointRangeMaximum );
       }
 
       if ( writeAngle )
       {
-         pointFields.angleMinimum = angleMinimum;
-         pointFields.angleMaximum = angleMaximum;
+         fill( pointFields.angleMinimum, pointFields.angleMaximum, angleMinimum, angleMaximum );
       }
 
       if ( writeTimeStamp )
       {
-         pointFields.timeMinimum = timeMinimum;
-         pointFields.timeMaximum = timeMaximum;
+         fill( pointFields.timeMinimum, pointFields.timeMaximum, timeMinimum, timeMaximum );
       }
    }
    template void _fillMinMaxData( e57::Data3D &ioData3DHeader,
-- 
2.43.0


From c0ffffc96d10fb881739c0149892d5203561cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:23 +0000
Subject: [PATCH 33/45] fix: Write limits, bounds and times of scans and images
 when any part is set

Color limits were only written when those of red were set. Cartesian bounds
depended on x and spherical bounds on the range. Dates were only written
when positive.
---
 src/WriterImpl.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index e1ad000..f61a5cd 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -251,7 +251,7 @@ namespace e57
                     StringNode( imf_, image2DHeader.associatedData3DGuid ) );
       }
 
-      if ( image2DHeader.acquisitionDateTime.dateTimeValue > 0.0 )
+      if ( image2DHeader.acquisitionDateTime != DateTime{} )
       {
          StructureNode acquisitionDateTime( imf_ );
 
@@ -709,8 +709,7 @@ namespace e57
          scan.set( "intensityLimits", intbox );
       }
 
-      if ( ( data3DHeader.colorLimits.colorRedMaximum != 0.0 ) ||
-           ( data3DHeader.colorLimits.colorRedMinimum != 0.0 ) )
+      if ( data3DHeader.colorLimits != ColorLimits{} )
       {
          StructureNode colorbox( imf_ );
 
@@ -738,8 +737,7 @@ namespace e57
 
       // Add Cartesian bounding box to scan.
       // Path names: "/data3D/0/cartesianBounds/xMinimum", etc...
-      if ( ( data3DHeader.cartesianBounds.xMinimum != -DOUBLE_MAX ) ||
-           ( data3DHeader.cartesianBounds.xMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.cartesianBounds != CartesianBounds{} )
       {
          StructureNode bbox( imf_ );
 
@@ -753,8 +751,7 @@ namespace e57
          scan.set( "cartesianBounds", bbox );
       }
 
-      if ( ( data3DHeader.sphericalBounds.rangeMinimum != 0.0 ) ||
-           ( data3DHeader.sphericalBounds.rangeMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.sphericalBounds != SphericalBounds{} )
       {
          StructureNode sbox( imf_ );
 
@@ -796,7 +793,7 @@ namespace e57
       // Add start/stop acquisition times to scan.
       // Path names: "/data3D/0/acquisitionStart/dateTimeValue",
       //             "/data3D/0/acquisitionEnd/dateTimeValue"
-      if ( data3DHeader.acquisitionStart.dateTimeValue > 0.0 )
+      if ( data3DHeader.acquisitionStart != DateTime{} )
       {
          StructureNode acquisitionStart( imf_ );
 
@@ -808,7 +805,7 @@ namespace e57
 
          scan.set( "acquisitionStart", acquisitionStart );
       }
-      if ( data3DHeader.acquisitionEnd.dateTimeValue > 0.0 )
+      if ( data3DHeader.acquisitionEnd != DateTime{} )
       {
          StructureNode acquisitionEnd( imf_ );
 
-- 
2.43.0


From 5fa0e297f96db9bf7b18ed3b38df15831688d9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:23 +0000
Subject: [PATCH 34/45] fix: Use the time limits of a scan for floating point
 timestamps

They were only used for integer timestamps, so limits set by the caller
were lost.
---
 src/WriterImpl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index f61a5cd..a5379ab 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -1148,15 +1148,15 @@ namespace e57
 
             case NumericalNodeType::Float:
             {
-               proto.set( "timeStamp",
-                          FloatNode( imf_, 0.0, PrecisionSingle, FLOAT_MIN, FLOAT_MAX ) );
+               proto.set( "timeStamp", FloatNode( imf_, _protoValue( timeMinimum, timeMaximum ),
+                                                  PrecisionSingle, timeMinimum, timeMaximum ) );
                break;
             }
 
             case NumericalNodeType::Double:
             {
-               proto.set( "timeStamp",
-                          FloatNode( imf_, 0.0, PrecisionDouble, DOUBLE_MIN, DOUBLE_MAX ) );
+               proto.set( "timeStamp", FloatNode( imf_, _protoValue( timeMinimum, timeMaximum ),
+                                                  PrecisionDouble, timeMinimum, timeMaximum ) );
                break;
             }
          }
-- 
2.43.0


From b4b826b6c6a263baf3c879e0bc077c901db3d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:53 +0000
Subject: [PATCH 35/45] fix: Write the projection of an image which also has a
 visual reference

The projection was dropped silently although readers support both.
---
 src/WriterImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index a5379ab..59414bd 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -315,8 +315,10 @@ namespace e57
             "imageWidth",
             IntegerNode( imf_, image2DHeader.visualReferenceRepresentation.imageWidth ) );
       }
-      else if ( image2DHeader.pinholeRepresentation.jpegImageSize > 0 ||
-                image2DHeader.pinholeRepresentation.pngImageSize > 0 )
+
+      // Besides the visual reference an image may have one of the projections.
+      if ( image2DHeader.pinholeRepresentation.jpegImageSize > 0 ||
+           image2DHeader.pinholeRepresentation.pngImageSize > 0 )
       {
          StructureNode pinholeRepresentation( imf_ );
          image.set( "pinholeRepresentation", pinholeRepresentation );
-- 
2.43.0


From d7d28c213a97255588652c97a5af578b090576c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:12 +0000
Subject: [PATCH 36/45] fix: Accept line groupings of scans without points or
 groups

The prototype of the group records got a maximum of -1, which is rejected.
---
 src/WriterImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 59414bd..8093c57 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -26,6 +26,7 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <cmath>
 
 #include "WriterImpl.h"
@@ -858,8 +859,10 @@ namespace e57
 
          StructureNode lineGroupProto( imf_ );
 
-         lineGroupProto.set( "startPointIndex", IntegerNode( imf_, 0, 0, pointsCount - 1 ) );
-         lineGroupProto.set( "idElementValue", IntegerNode( imf_, 0, 0, groupsSize - 1 ) );
+         lineGroupProto.set( "startPointIndex",
+                             IntegerNode( imf_, 0, 0, std::max<int64_t>( pointsCount - 1, 0 ) ) );
+         lineGroupProto.set( "idElementValue",
+                             IntegerNode( imf_, 0, 0, std::max<int64_t>( groupsSize - 1, 0 ) ) );
          lineGroupProto.set( "pointCount", IntegerNode( imf_, 0, 0, countSize ) );
 
          // Make empty codecs vector for use in creating groups CompressedVector.
-- 
2.43.0


From 043b65bac6ed890419ca22167bf4a7825fe271bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:39 +0000
Subject: [PATCH 37/45] fix: Do not throw from the destructors of Reader and
 Writer

An error while closing the file ended the process.
---
 src/ReaderImpl.cpp | 11 +++++++++--
 src/WriterImpl.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 8c72e05..b28722a 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -210,9 +210,16 @@ namespace e57
 
    ReaderImpl::~ReaderImpl()
    {
-      if ( IsOpen() )
+      // Destructors must not throw
+      try
+      {
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
       {
-         Close();
       }
    }
 
diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 8093c57..780e5ae 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -186,9 +186,16 @@ namespace e57
 
    WriterImpl::~WriterImpl()
    {
-      if ( IsOpen() )
+      // Destructors must not throw
+      try
+      {
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
       {
-         Close();
       }
    }
 
-- 
2.43.0


From 69d68ecc47b0ea1582052a37d113517157f8b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:00 +0000
Subject: [PATCH 38/45] fix: Close the file when opening it for reading fails,
 and close it only once

A file whose length is not a multiple of the page size, or that could not be
positioned, was left open because the destructor of CheckedFile does not run
when its constructor throws. After a failed close the descriptor was closed a
second time.
---
 src/CheckedFile.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 762793f..dd39ed5 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -208,17 +208,33 @@ CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy
 
          readOnly_ = true;
 
-         physicalLength_ = lseek64( 0LL, SEEK_END );
-
-         if ( physicalLength_ % 1024 != 0 )
+         try
          {
-            throw E57_EXCEPTION2( ErrorBadInputDataSize,
-                                  "file length is " + toString( physicalLength_ ) + " bytes" );
-         }
+            physicalLength_ = lseek64( 0LL, SEEK_END );
+
+            if ( physicalLength_ % 1024 != 0 )
+            {
+               throw E57_EXCEPTION2( ErrorBadInputDataSize,
+                                     "file length is " + toString( physicalLength_ ) + " bytes" );
+            }
 
-         lseek64( 0, SEEK_SET );
+            lseek64( 0, SEEK_SET );
 
-         logicalLength_ = physicalToLogical( physicalLength_ );
+            logicalLength_ = physicalToLogical( physicalLength_ );
+         }
+         catch ( ... )
+         {
+            // The destructor won't be called
+            try
+            {
+               close();
+            }
+            catch ( ... )
+            {
+            }
+
+            throw;
+         }
       }
       break;
 
@@ -693,13 +709,14 @@ void CheckedFile::close()
 #else
 #error "no supported compiler defined"
 #endif
+      // The descriptor is gone even if there was an error
+      fd_ = -1;
+
       if ( result < 0 )
       {
          throw E57_EXCEPTION2( ErrorCloseFailed,
                                "fileName=" + fileName_ + " result=" + toString( result ) );
       }
-
-      fd_ = -1;
    }
 
    if ( bufView_ != nullptr )
-- 
2.43.0


From 3b823e5e3b3e332d78079a33d30fea223391acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:00 +0000
Subject: [PATCH 39/45] fix: Release the packet cache when a
 CompressedVectorReader cannot be created

The 2 MB cache was leaked when the first packet could not be read or was not a
data packet.
---
 src/CompressedVectorReaderImpl.cpp | 6 ++----
 src/CompressedVectorReaderImpl.h   | 4 +++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index e072413..ee02c83 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -132,8 +132,7 @@ namespace e57
       uint64_t dataLogicalOffset =
          imf->file_->physicalToLogical( sectionHeader.dataPhysicalOffset );
 
-      //??? what if fault in this constructor?
-      cache_ = new PacketReadCache( imf->file_, 32 );
+      cache_.reset( new PacketReadCache( imf->file_, 32 ) );
 
       // Verify that packet given by dataPhysicalOffset is actually a data packet,
       // init channels
@@ -587,8 +586,7 @@ namespace e57
       // Destroy decoders
       channels_.clear();
 
-      delete cache_;
-      cache_ = nullptr;
+      cache_.reset();
 
       isOpen_ = false;
    }
diff --git a/src/CompressedVectorReaderImpl.h b/src/CompressedVectorReaderImpl.h
index 3064bc1..c323f15 100644
--- a/src/CompressedVectorReaderImpl.h
+++ b/src/CompressedVectorReaderImpl.h
@@ -26,6 +26,8 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <memory>
+
 #include "DecodeChannel.h"
 
 namespace e57
@@ -70,7 +72,7 @@ namespace e57
       std::shared_ptr<CompressedVectorNodeImpl> cVector_;
       NodeImplSharedPtr proto_;
       std::vector<DecodeChannel> channels_;
-      PacketReadCache *cache_;
+      std::unique_ptr<PacketReadCache> cache_;
 
       uint64_t recordCount_; /// number of records written so far
       uint64_t maxRecordCount_;
-- 
2.43.0


From 15bd4f7f1201f0a155b1984701b6277efb936502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:00 +0000
Subject: [PATCH 40/45] fix: Release the memory of the XML parser after errors

The transcoded parts of the parser's messages were never released. Exceptions
raised while reading the file went through the parser, which leaks memory when
that happens in its constructors; they are now kept until the parser returns.
---
 src/E57XmlParser.cpp | 101 ++++++++++++++++++++++++++++++-------------
 src/E57XmlParser.h   |   8 +++-
 2 files changed, 77 insertions(+), 32 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 51b46a4..a571ee3 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -108,6 +108,17 @@ namespace
       return ( u_str );
    }
 
+   // Text of the parser's messages, in the local code page
+   ustring transcoded( const XMLCh *const xml_str )
+   {
+      char *str = XMLString::transcode( xml_str );
+      const ustring u_str( str != nullptr ? str : "" );
+
+      XMLString::release( &str );
+
+      return u_str;
+   }
+
    // Convert text to a floating point value, rounding it to the precision of the node.
    double toFloatValue( const ustring &str, FloatPrecision precision )
    {
@@ -139,7 +150,8 @@ namespace
 class E57FileInputStream : public BinInputStream
 {
 public:
-   E57FileInputStream( CheckedFile *cf, uint64_t logicalStart, uint64_t logicalLength );
+   E57FileInputStream( CheckedFile *cf, uint64_t logicalStart, uint64_t logicalLength,
+                       std::exception_ptr &readFailure );
    ~E57FileInputStream() override = default;
 
    E57FileInputStream( const E57FileInputStream & ) = delete;
@@ -163,12 +175,13 @@ private:
    uint64_t logicalStart_;
    uint64_t logicalLength_;
    uint64_t logicalPosition_;
+   std::exception_ptr &readFailure_;
 };
 
 E57FileInputStream::E57FileInputStream( CheckedFile *cf, uint64_t logicalStart,
-                                        uint64_t logicalLength ) :
+                                        uint64_t logicalLength, std::exception_ptr &readFailure ) :
    cf_( cf ), logicalStart_( logicalStart ), logicalLength_( logicalLength ),
-   logicalPosition_( logicalStart )
+   logicalPosition_( logicalStart ), readFailure_( readFailure )
 {
 }
 
@@ -217,8 +230,19 @@ XMLSize_t E57FileInputStream::readBytes( XMLByte *const toFill, const XMLSize_t
 
    size_t readCount = std::min( maxToRead_size, available_size );
 
-   cf_->seek( logicalPosition_ );
-   cf_->read( reinterpret_cast<char *>( toFill ), readCount ); //??? cast ok?
+   // Don't throw through the parser, it would not release all of its memory. The failure is
+   // reported when the parser returns.
+   try
+   {
+      cf_->seek( logicalPosition_ );
+      cf_->read( reinterpret_cast<char *>( toFill ), readCount ); //??? cast ok?
+   }
+   catch ( ... )
+   {
+      readFailure_ = std::current_exception();
+      return ( 0 );
+   }
+
    logicalPosition_ += readCount;
    return ( readCount );
 }
@@ -237,7 +261,15 @@ E57XmlFileInputSource::E57XmlFileInputSource( CheckedFile *cf, uint64_t logicalS
 
 BinInputStream *E57XmlFileInputSource::makeStream() const
 {
-   return new E57FileInputStream( cf_, logicalStart_, logicalLength_ );
+   return new E57FileInputStream( cf_, logicalStart_, logicalLength_, readFailure_ );
+}
+
+void E57XmlFileInputSource::rethrowReadFailure() const
+{
+   if ( readFailure_ )
+   {
+      std::rethrow_exception( readFailure_ );
+   }
 }
 
 //=============================================================================
@@ -304,8 +336,7 @@ void E57XmlParser::init()
    catch ( const XMLException &ex )
    {
       // Turn parser exception into E57Exception
-      throw E57_EXCEPTION2( ErrorXMLParserInit,
-                            "parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+      throw E57_EXCEPTION2( ErrorXMLParserInit, "parserMessage=" + transcoded( ex.getMessage() ) );
    }
 
    xmlReader = XMLReaderFactory::createXMLReader(); //??? auto_ptr?
@@ -332,9 +363,21 @@ void E57XmlParser::init()
    xmlReader->setErrorHandler( this );
 }
 
-void E57XmlParser::parse( InputSource &inputSource )
+void E57XmlParser::parse( E57XmlFileInputSource &inputSource )
 {
-   xmlReader->parse( inputSource );
+   try
+   {
+      xmlReader->parse( inputSource );
+   }
+   catch ( ... )
+   {
+      // What the parser complains about may be a consequence of the failure
+      inputSource.rethrowReadFailure();
+
+      throw;
+   }
+
+   inputSource.rethrowReadFailure();
 }
 
 void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const localName,
@@ -360,9 +403,9 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 #endif
    if ( stack_.size() >= MAX_NESTING )
    {
-      throw E57_EXCEPTION2( ErrorBadXMLFormat, "elements nested too deeply fileName=" +
-                                                  imf_->fileName() +
-                                                  " qName=" + toUString( qName ) );
+      throw E57_EXCEPTION2( ErrorBadXMLFormat,
+                            "elements nested too deeply fileName=" + imf_->fileName() +
+                               " qName=" + toUString( qName ) );
    }
 
    // Get Type attribute
@@ -736,11 +779,10 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          // Verify that the prototype child element was defined
          if ( !cv_ni->getPrototype() )
          {
-            throw E57_EXCEPTION2( ErrorBadXMLFormat, "missing prototype fileName=" +
-                                                        imf_->fileName() +
-                                                        " uri=" + toUString( uri ) +
-                                                        " localName=" + toUString( localName ) +
-                                                        " qName=" + toUString( qName ) );
+            throw E57_EXCEPTION2(
+               ErrorBadXMLFormat,
+               "missing prototype fileName=" + imf_->fileName() + " uri=" + toUString( uri ) +
+                  " localName=" + toUString( localName ) + " qName=" + toUString( qName ) );
          }
 
          // Without a codecs child element, all fields use the default codec
@@ -983,29 +1025,26 @@ void E57XmlParser::characters( const XMLCh *const chars, const XMLSize_t length
 
 void E57XmlParser::error( const SAXParseException &ex )
 {
-   throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
-                         " xmlLine=" + toString( ex.getLineNumber() ) +
-                         " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+   throw E57_EXCEPTION2( ErrorXMLParser, "systemId=" + transcoded( ex.getSystemId() ) +
+                                            " xmlLine=" + toString( ex.getLineNumber() ) +
+                                            " xmlColumn=" + toString( ex.getColumnNumber() ) +
+                                            " parserMessage=" + transcoded( ex.getMessage() ) );
 }
 
 void E57XmlParser::fatalError( const SAXParseException &ex )
 {
-   throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
-                         " xmlLine=" + toString( ex.getLineNumber() ) +
-                         " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+   throw E57_EXCEPTION2( ErrorXMLParser, "systemId=" + transcoded( ex.getSystemId() ) +
+                                            " xmlLine=" + toString( ex.getLineNumber() ) +
+                                            " xmlColumn=" + toString( ex.getColumnNumber() ) +
+                                            " parserMessage=" + transcoded( ex.getMessage() ) );
 }
 
 void E57XmlParser::warning( const SAXParseException &ex )
 {
    // Don't take any action on warning from parser, just report
-   std::cerr << "**** XML parser warning: " << ustring( XMLString::transcode( ex.getMessage() ) )
-             << std::endl;
+   std::cerr << "**** XML parser warning: " << transcoded( ex.getMessage() ) << std::endl;
    std::cerr << "  Debug info:" << std::endl;
-   std::cerr << "    systemId=" << XMLString::transcode( ex.getSystemId() ) << std::endl;
+   std::cerr << "    systemId=" << transcoded( ex.getSystemId() ) << std::endl;
    std::cerr << ",   xmlLine=" << ex.getLineNumber() << std::endl;
    std::cerr << ",   xmlColumn=" << ex.getColumnNumber() << std::endl;
 }
diff --git a/src/E57XmlParser.h b/src/E57XmlParser.h
index b9b9d58..73325c8 100644
--- a/src/E57XmlParser.h
+++ b/src/E57XmlParser.h
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <exception>
 #include <stack>
 
 #include <xercesc/sax/InputSource.hpp>
@@ -45,6 +46,7 @@ namespace XERCES_CPP_NAMESPACE
 namespace e57
 {
    class CheckedFile;
+   class E57XmlFileInputSource;
 
    class E57XmlParser : public DefaultHandler
    {
@@ -54,7 +56,7 @@ namespace e57
 
       void init();
 
-      void parse( InputSource &inputSource );
+      void parse( E57XmlFileInputSource &inputSource );
 
    private:
       /// SAX interface
@@ -115,10 +117,14 @@ namespace e57
 
       BinInputStream *makeStream() const override;
 
+      /// Throws the exception that reading the file has raised, if any
+      void rethrowReadFailure() const;
+
    private:
       //??? lifetime of cf_ must be longer than this object!
       CheckedFile *cf_;
       uint64_t logicalStart_;
       uint64_t logicalLength_;
+      mutable std::exception_ptr readFailure_;
    };
 }
-- 
2.43.0


From 4cf2a45a933508d78c0371c4bbffe31144f815ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:53 +0000
Subject: [PATCH 41/45] fix: Do not print packet bytes as a terminated string
 in verbose builds

The verbose message of the string decoder printed its input up to the next zero
byte, which may be beyond the end of the packet.
---
 src/Decoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index 855c1a9..e4c57ff 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -494,8 +494,9 @@ size_t BitpackStringDecoder::inputProcessAligned( const char *inbuf, const size_
                                                   const size_t endBit )
 {
 #ifdef E57_VERBOSE
-   std::cout << "BitpackStringDecoder::inputProcessAligned() called, inbuf=" << inbuf
-             << " firstBit=" << firstBit << " endBit=" << endBit << std::endl;
+   std::cout << "BitpackStringDecoder::inputProcessAligned() called, inbuf="
+             << reinterpret_cast<const void *>( inbuf ) << " firstBit=" << firstBit
+             << " endBit=" << endBit << std::endl;
 #endif
    // Read from inbuf, decode, store in destBuffer
    // Repeat until have filled destBuffer, or completed all records
-- 
2.43.0


From f57d1f89597df95b1b0a477a25a61a52ae87b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:02 +0000
Subject: [PATCH 42/45] fix: Read files in which an element other than the root
 is named e57Root

Every element with that local name was taken for the root element, so a file
with such an element written by the library could not be read again.
---
 src/E57XmlParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index a571ee3..2e9bd3a 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -613,8 +613,8 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 #endif
       pi.nodeType = TypeStructure;
 
-      // Read name space decls, if e57Root element
-      if ( toUString( localName ) == "e57Root" )
+      // Read name space decls, if e57Root element (other elements may have that name as well)
+      if ( stack_.empty() && toUString( localName ) == "e57Root" )
       {
          // Search attributes for namespace declarations (only allowed in E57Root structure)
          bool gotDefault = false;
@@ -660,7 +660,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 
       // After have Structure, check again if E57Root, if so mark attached so all children will be
       // attached when added
-      if ( toUString( localName ) == "e57Root" )
+      if ( stack_.empty() && toUString( localName ) == "e57Root" )
       {
          s_ni->setAttachedRecursive();
       }
-- 
2.43.0


From e2a98a92dc2987969a342f15deeed4b961020d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:02 +0000
Subject: [PATCH 43/45] fix: Refuse homogeneous vectors as codecs of a
 CompressedVectorNode

The constructor documents ErrorBadCodecs for them. They were accepted, and the
file written could not be read again.
---
 src/CompressedVectorNodeImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index cda6d08..e17cd83 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -99,6 +99,13 @@ namespace e57
          throw E57_EXCEPTION2( ErrorSetTwice, "this->pathName=" + this->pathName() );
       }
 
+      // codecs must be heterogeneous
+      if ( !codecs->allowHeteroChildren() )
+      {
+         throw E57_EXCEPTION2( ErrorBadCodecs, "this->pathName=" + this->pathName() +
+                                                  " codecs->pathName=" + codecs->pathName() );
+      }
+
       // codecs can't have a parent (must be a root node)
       if ( !codecs->isRoot() )
       {
-- 
2.43.0


From 5a15cb8ebf5344e448119fb6d8c9e2f82b461ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:03 +0000
Subject: [PATCH 44/45] fix: Write record vectors with very many fields

When the lengths of the byte streams fill most of a packet, the writer sent empty packets
forever or looped without sending any. It now always makes progress, and prototypes whose
packet header leaves no space for data are refused with ErrorBadPrototype.
---
 src/CompressedVectorNode.cpp       |  1 +
 src/CompressedVectorWriterImpl.cpp | 27 +++++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/CompressedVectorNode.cpp b/src/CompressedVectorNode.cpp
index 4d879ac..f1353ab 100644
--- a/src/CompressedVectorNode.cpp
+++ b/src/CompressedVectorNode.cpp
@@ -470,6 +470,7 @@ CompressedVectorNode cannot be set twice).
 @throw ::ErrorBufferSizeMismatch (n/c)
 @throw ::ErrorBufferDuplicatePathName (n/c)
 @throw ::ErrorNoBufferForElement (n/c)
+@throw ::ErrorBadPrototype The prototype has more fields than fit into a packet (n/c)
 @throw ::ErrorInternal All objects in undocumented state
 
 @see CompressedVectorWriter, SourceDestBuffer, CompressedVectorNode::CompressedVectorNode,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 811ea1e..6567272 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -96,6 +96,16 @@ namespace e57
       // The bytestreams_ vector must be ordered by bytestreamNumber, not by order
       // called specified sbufs, so sort it.
       sort( bytestreams_.begin(), bytestreams_.end(), SortByBytestreamNumber() );
+
+      // A data packet needs space for the length of every bytestream and for some data
+      if ( sizeof( DataPacketHeader ) + bytestreams_.size() * sizeof( uint16_t ) >=
+           DATA_PACKET_MAX )
+      {
+         throw E57_EXCEPTION2( ErrorBadPrototype, "fieldCount=" + toString( bytestreams_.size() ) +
+                                                     " imageFileName=" + cVector_->imageFileName() +
+                                                     " cvPathName=" + cVector_->pathName() );
+      }
+
 #if ( E57_VALIDATION_LEVEL == VALIDATION_DEEP )
       // Double check that all bytestreams are specified
       for ( unsigned i = 0; i < bytestreams_.size(); i++ )
@@ -391,8 +401,9 @@ namespace e57
 #else
          constexpr size_t E57_TARGET_PACKET_SIZE = ( DATA_PACKET_MAX * 3 / 4 );
 #endif
-         // If have more than target fraction of packet, send it now
-         if ( currentPacketSize() >= E57_TARGET_PACKET_SIZE )
+         // If have more than target fraction of packet, send it now (with very many bytestreams,
+         // the header of the packet alone may be as large)
+         if ( ( currentPacketSize() >= E57_TARGET_PACKET_SIZE ) && ( totalOutputAvailable() > 0 ) )
          { //???
             packetWrite();
             continue; // restart loop so recalc statistics (packet size may not be
@@ -511,6 +522,18 @@ namespace e57
             count.at( i ) = static_cast<unsigned>(
                std::floor( cFractionToSend * cStreams.at( i )->outputAvailable() ) );
          }
+
+         // With very many bytestreams, every amount may have been rounded down to zero. Send what
+         // fits then, so always make progress.
+         if ( std::accumulate( count.begin(), count.end(), static_cast<size_t>( 0 ) ) == 0 )
+         {
+            size_t bytesLeft = cPacketMaxPayloadBytes;
+            for ( unsigned i = 0; i < cNumByteStreams; ++i )
+            {
+               count.at( i ) = std::min( bytesLeft, cStreams.at( i )->outputAvailable() );
+               bytesLeft -= count.at( i );
+            }
+         }
       }
 
 #ifdef E57_VERBOSE
-- 
2.43.0


From ae03a14325d02d052d51fabe548f8fbeed4d5c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:59 +0000
Subject: [PATCH 45/45] fix: Refuse scaled integers with an infinite or
 undefined scale or offset

Such numbers cannot be written to the XML section. Closing the file aborted the process.
---
 src/ScaledIntegerNode.cpp     |  2 ++
 src/ScaledIntegerNodeImpl.cpp | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ScaledIntegerNode.cpp b/src/ScaledIntegerNode.cpp
index eb99169..f8cbf9a 100644
--- a/src/ScaledIntegerNode.cpp
+++ b/src/ScaledIntegerNode.cpp
@@ -138,6 +138,7 @@ bounds.
 be true).
 @pre minimum <= rawValue <= maximum
 @pre scale != 0
+@pre @a scale and @a offset must be finite
 
 @throw ::ErrorBadAPIArgument (n/c)
 @throw ::ErrorImageFileNotOpen (n/c)
@@ -200,6 +201,7 @@ bounds.
 be true).
 @pre scaledMinimum <= scaledValue <= scaledMaximum
 @pre scale != 0
+@pre @a scale and @a offset must be finite
 
 @throw ::ErrorBadAPIArgument (n/c)
 @throw ::ErrorImageFileNotOpen (n/c)
diff --git a/src/ScaledIntegerNodeImpl.cpp b/src/ScaledIntegerNodeImpl.cpp
index d938e19..858d85f 100644
--- a/src/ScaledIntegerNodeImpl.cpp
+++ b/src/ScaledIntegerNodeImpl.cpp
@@ -66,17 +66,23 @@ namespace e57
                                                  double scaledValue, double scaledMinimum,
                                                  double scaledMaximum, double scale,
                                                  double offset ) :
-      NodeImpl( destImageFile ),
-      value_( rawFromScaled( scaledValue, scale, offset ) ),
+      NodeImpl( destImageFile ), value_( rawFromScaled( scaledValue, scale, offset ) ),
       minimum_( rawFromScaled( scaledMinimum, scale, offset ) ),
-      maximum_( rawFromScaled( scaledMaximum, scale, offset ) ),
-      scale_( scale ), offset_( offset )
+      maximum_( rawFromScaled( scaledMaximum, scale, offset ) ), scale_( scale ), offset_( offset )
    {
    }
 
-   // Throw an exception if the value is not within bounds.
+   // Throw an exception if the value is not within bounds, or if scale or offset is not a number
+   // that can be written to a file.
    void ScaledIntegerNodeImpl::validateValue() const
    {
+      if ( !std::isfinite( scale_ ) || !std::isfinite( offset_ ) )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "this->pathName=" + this->pathName() +
+                                                       " scale=" + toString( scale_ ) +
+                                                       " offset=" + toString( offset_ ) );
+      }
+
       if ( value_ < minimum_ || value_ > maximum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "this->pathName=" + this->pathName() +
-- 
2.43.0

