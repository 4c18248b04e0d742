// Point buffers and field tables of the high-level API.
#pragma once

#include "lib.hpp"

#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"

namespace VARIANT
{
   enum PF
   {
      CartX,
      CartY,
      CartZ,
      CartInv,
      Inten,
      IntenInv,
      Red,
      Green,
      Blue,
      ColInv,
      SphR,
      SphA,
      SphE,
      SphInv,
      Row,
      Column,
      RetIdx,
      RetCnt,
      Time,
      TimeInv,
      NorX,
      NorY,
      NorZ,
      PFCount
   };

   inline const char *pfName( unsigned f )
   {
      static const char *n[] = { "cartesianX", "cartesianY", "cartesianZ", "cartesianInvalidState",
                                 "intensity", "isIntensityInvalid", "colorRed", "colorGreen",
                                 "colorBlue", "isColorInvalid", "sphericalRange", "sphericalAzimuth",
                                 "sphericalElevation", "sphericalInvalidState", "rowIndex", "columnIndex",
                                 "returnIndex", "returnCount", "timeStamp", "isTimeStampInvalid",
                                 "nor:normalX", "nor:normalY", "nor:normalZ" };
      return n[f];
   }
   inline bool isCoord( unsigned f ) { return f <= CartZ || ( f >= SphR && f <= SphE ); }
   inline bool isNormal( unsigned f ) { return f >= NorX && f <= NorZ; }
   inline bool isFlag( unsigned f ) { return f == CartInv || f == IntenInv || f == ColInv || f == SphInv || f == TimeInv; }

   // memory type of a field's buffer
   inline MT pfMem( unsigned f, bool dbl )
   {
      if ( isCoord( f ) )
         return dbl ? F64 : F32;
      if ( isNormal( f ) )
         return F32;
      if ( f == Inten || f == Time )
         return F64;
      if ( f == Red || f == Green || f == Blue )
         return U16;
      if ( f == Row || f == Column )
         return I32;
      return I8;
   }

   inline bool &pfFlag( e57::PointStandardizedFieldsAvailable &a, unsigned f )
   {
      switch ( f )
      {
         case CartX: return a.cartesianXField;
         case CartY: return a.cartesianYField;
         case CartZ: return a.cartesianZField;
         case CartInv: return a.cartesianInvalidStateField;
         case Inten: return a.intensityField;
         case IntenInv: return a.isIntensityInvalidField;
         case Red: return a.colorRedField;
         case Green: return a.colorGreenField;
         case Blue: return a.colorBlueField;
         case ColInv: return a.isColorInvalidField;
         case SphR: return a.sphericalRangeField;
         case SphA: return a.sphericalAzimuthField;
         case SphE: return a.sphericalElevationField;
         case SphInv: return a.sphericalInvalidStateField;
         case Row: return a.rowIndexField;
         case Column: return a.columnIndexField;
         case RetIdx: return a.returnIndexField;
         case RetCnt: return a.returnCountField;
         case Time: return a.timeStampField;
         case TimeInv: return a.isTimeStampInvalidField;
         case NorX: return a.normalXField;
         case NorY: return a.normalYField;
         default: return a.normalZField;
      }
   }

   template <typename C> inline void pfSet( e57::Data3DPointsData_t<C> &d, unsigned f, void *p )
   {
      switch ( f )
      {
         case CartX: d.cartesianX = static_cast<C *>( p ); break;
         case CartY: d.cartesianY = static_cast<C *>( p ); break;
         case CartZ: d.cartesianZ = static_cast<C *>( p ); break;
         case CartInv: d.cartesianInvalidState = static_cast<int8_t *>( p ); break;
         case Inten: d.intensity = static_cast<double *>( p ); break;
         case IntenInv: d.isIntensityInvalid = static_cast<int8_t *>( p ); break;
         case Red: d.colorRed = static_cast<uint16_t *>( p ); break;
         case Green: d.colorGreen = static_cast<uint16_t *>( p ); break;
         case Blue: d.colorBlue = static_cast<uint16_t *>( p ); break;
         case ColInv: d.isColorInvalid = static_cast<int8_t *>( p ); break;
         case SphR: d.sphericalRange = static_cast<C *>( p ); break;
         case SphA: d.sphericalAzimuth = static_cast<C *>( p ); break;
         case SphE: d.sphericalElevation = static_cast<C *>( p ); break;
         case SphInv: d.sphericalInvalidState = static_cast<int8_t *>( p ); break;
         case Row: d.rowIndex = static_cast<int32_t *>( p ); break;
         case Column: d.columnIndex = static_cast<int32_t *>( p ); break;
         case RetIdx: d.returnIndex = static_cast<int8_t *>( p ); break;
         case RetCnt: d.returnCount = static_cast<int8_t *>( p ); break;
         case Time: d.timeStamp = static_cast<double *>( p ); break;
         case TimeInv: d.isTimeStampInvalid = static_cast<int8_t *>( p ); break;
         case NorX: d.normalX = static_cast<float *>( p ); break;
         case NorY: d.normalY = static_cast<float *>( p ); break;
         default: d.normalZ = static_cast<float *>( p ); break;
      }
   }

   // Buffers of exactly n points (so that the sanitizer sees any access beyond them),
   // filled with a pattern.
   template <typename C> struct PointBufs
   {
      size_t n;
      std::unique_ptr<uint8_t[]> mem[PFCount];
      e57::Data3DPointsData_t<C> d;

      explicit PointBufs( size_t count, uint64_t fields = ~0ull ) : n( count )
      {
         for ( unsigned f = 0; f < PFCount; ++f )
            if ( fields >> f & 1 )
            {
               const size_t bytes = n * mtSize( type( f ) );
               mem[f].reset( new uint8_t[bytes] );
               memset( mem[f].get(), 0xA5, bytes );
               pfSet( d, f, mem[f].get() );
            }
      }
      static MT type( unsigned f ) { return pfMem( f, sizeof( C ) == 8 ); }
      bool has( unsigned f ) const { return mem[f] != nullptr; }
      void wipe()
      {
         for ( unsigned f = 0; f < PFCount; ++f )
            if ( mem[f] )
               memset( mem[f].get(), 0xA5, n * mtSize( type( f ) ) );
      }
      bool untouched( unsigned f, size_t from = 0 ) const
      {
         const size_t sz = mtSize( type( f ) );
         for ( size_t i = from * sz; i < n * sz; ++i )
            if ( mem[f][i] != 0xA5 )
               return false;
         return true;
      }
      double get( unsigned f, size_t i ) const
      {
         const uint8_t *p = mem[f].get() + i * mtSize( type( f ) );
         switch ( type( f ) )
         {
            case F64: { double v; memcpy( &v, p, 8 ); return v; }
            case F32: { float v; memcpy( &v, p, 4 ); return v; }
            case I32: { int32_t v; memcpy( &v, p, 4 ); return v; }
            case U16: { uint16_t v; memcpy( &v, p, 2 ); return v; }
            default: return static_cast<int8_t>( *p );
         }
      }
      void set( unsigned f, size_t i, double x )
      {
         uint8_t *p = mem[f].get() + i * mtSize( type( f ) );
         switch ( type( f ) )
         {
            case F64: memcpy( p, &x, 8 ); break;
            case F32: { float v = static_cast<float>( x ); memcpy( p, &v, 4 ); break; }
            case I32: { int32_t v = static_cast<int32_t>( x ); memcpy( p, &v, 4 ); break; }
            case U16: { uint16_t v = static_cast<uint16_t>( x ); memcpy( p, &v, 2 ); break; }
            default: *p = static_cast<uint8_t>( static_cast<int8_t>( x ) ); break;
         }
      }
   };
}
