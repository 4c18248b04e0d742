// C29: images through the high-level API
#include "heads.hpp"

using namespace pbt;
using namespace VARIANT;

namespace
{
   using e57::ImageMaskPNG;
   using e57::ImageNone;

   // The bytes of (projection, type) of the image; null if it has none
   const std::vector<uint8_t> *bytesOf( const Image &im, int proj, int type )
   {
      if ( proj < 1 || proj > 4 || !im.rep[proj].there )
         return nullptr;
      const auto &r = im.rep[proj];
      if ( type == ImageMaskPNG )
         return r.mask.empty() ? nullptr : &r.mask;
      return type == r.type ? &r.data : nullptr;
   }

   // one image data transfer of a part
   struct Part
   {
      int proj, type;
      size_t start, count;
   };
   std::vector<Part> parts( Src &s, const Image &im )
   {
      std::vector<Part> out;
      for ( int p = 1; p < 5; ++p )
         for ( int t = 1; t < 4; ++t )
            if ( auto *b = bytesOf( im, p, t ) )
            {
               const size_t most = s.chance( 1, 3 ) ? b->size() : 1 + s.below( std::max<size_t>( 1, b->size() ) );
               for ( size_t at = 0; at < b->size(); )
               {
                  size_t n = std::min( b->size() - at, s.chance( 1, 2 ) ? most : 1 + s.below( most ) );
                  if ( out.size() > 60 )
                     n = b->size() - at;
                  out.push_back( { p, t, at, n } );
                  at += n;
               }
            }
      if ( s.flip() )
         for ( size_t i = out.size(); i > 1; --i )
            std::swap( out[i - 1], out[s.below( i )] );
      return out;
   }

   // a (projection, type) that the image does not have
   std::pair<int, int> absent( Src &s, const Image &im )
   {
      for ( int tries = 0; tries < 40; ++tries )
      {
         const int p = static_cast<int>( s.below( 5 ) ), t = static_cast<int>( s.below( 4 ) );
         if ( !bytesOf( im, p, t ) )
            return { p, t };
      }
      return { 0, 0 };
   }

   void c29( Ctx &ctx )
   {
      Src &s = ctx.s;
      const size_t k = 1 + s.below( 3 );
      std::vector<Image> im;
      std::vector<e57::Image2D> heads( k );
      for ( size_t i = 0; i < k; ++i )
      {
         im.push_back( drawImage( s, s.chance( 1, 8 ) ? s.chance( 1, 8 ) ? 300000 : 70000 : 3000 ) );
         copyHead( heads[i], im[i].head );
         ctx.say( im[i].show() );
         unsigned reps = 0;
         for ( int p = 1; p < 5; ++p )
            reps += im[i].rep[p].there;
         ctx.label( reps == 0 ? "no representation" : reps == 2 ? "visual and projection" : im[i].proj ? "projection" : "visual" );
         if ( reps )
            ctx.nontrivial = true;
      }
      const std::string path = ctx.dir + "/i.e57";
      try
      {
         e57::Writer w( path, e57::WriterOptions{} );
         for ( size_t i = 0; i < k; ++i )
         {
            const auto todo = parts( s, im[i] );
            size_t from = 0;
            if ( !todo.empty() && s.flip() )
            {
               // the first part together with the header
               const Part &p = todo[0];
               auto buf = *bytesOf( im[i], p.proj, p.type );
               const int64_t n = w.WriteImage2DData( heads[i], static_cast<Image2DType>( p.type ), static_cast<Image2DProjection>( p.proj ),
                                                     static_cast<int64_t>( p.start ), buf.data() + p.start, static_cast<int64_t>( p.count ) );
               if ( n != static_cast<int64_t>( p.count ) )
                  fail( sprintf_( "WriteImage2DData with header returned %lld instead of %zu", (long long)n, p.count ) );
               from = 1;
            }
            else if ( w.NewImage2D( heads[i] ) != static_cast<int64_t>( i ) )
               fail( "NewImage2D returned a wrong index" );
            const int64_t at = static_cast<int64_t>( i );
            for ( size_t j = from; j < todo.size(); ++j )
            {
               const Part &p = todo[j];
               auto buf = *bytesOf( im[i], p.proj, p.type );
               const int64_t n = w.WriteImage2DData( at, static_cast<Image2DType>( p.type ), static_cast<Image2DProjection>( p.proj ), buf.data() + p.start,
                                                     static_cast<int64_t>( p.start ), static_cast<int64_t>( p.count ) );
               if ( n != static_cast<int64_t>( p.count ) )
                  fail( sprintf_( "WriteImage2DData returned %lld instead of %zu", (long long)n, p.count ) );
            }
            if ( s.chance( 1, 3 ) )
            {
               const auto a = absent( s, im[i] );
               uint8_t junk[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
               if ( w.WriteImage2DData( at, static_cast<Image2DType>( a.second ), static_cast<Image2DProjection>( a.first ), junk, 0, 8 ) != 0 )
                  fail( sprintf_( "projection %d type %d the image does not have was written", a.first, a.second ) );
               if ( w.WriteImage2DData( s.flip() ? -1 : at + 1, e57::ImageJPEG, e57::ProjectionVisual, junk, 0, 8 ) != 0 )
                  fail( "an image that does not exist was written" );
            }
            if ( heads[i].guid.empty() || ( !im[i].head.guid.empty() && im[i].head.guid != heads[i].guid ) )
               fail( "the identifier of the header was not given or changed" );
         }
         w.Close();
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "writing: " + what( e ) );
      }
      try
      {
         e57::Reader r( path, e57::ReaderOptions{} );
         if ( r.GetImage2DCount() != static_cast<int64_t>( k ) )
            fail( "the number of images is wrong" );
         e57::Image2D h;
         if ( r.ReadImage2D( -1, h ) || r.ReadImage2D( static_cast<int64_t>( k ), h ) )
            fail( "an image that does not exist is read" );
         for ( size_t i = k; i-- > 0; )
         {
            const int64_t at = static_cast<int64_t>( i );
            if ( !r.ReadImage2D( at, h ) )
               fail( "ReadImage2D fails" );
            const std::string d = diffImage( heads[i], h );
            if ( !d.empty() )
               fail( sprintf_( "image %zu: ", i ) + d );

            Image2DProjection proj = e57::ProjectionSpherical;
            Image2DType type = ImageMaskPNG, mask = ImageMaskPNG, visual = ImageMaskPNG;
            int64_t width = -7, height = -7, size = -7;
            const bool ok = r.GetImage2DSizes( at, proj, type, width, height, size, mask, visual );
            bool any = false;
            for ( int p = 1; p < 5; ++p )
               any = any || im[i].rep[p].there;
            if ( ok != any )
               fail( "GetImage2DSizes tells wrongly whether there is image data" );
            if ( visual != im[i].rep[1].type )
               fail( sprintf_( "GetImage2DSizes reports type %d for the visual reference instead of %d", visual, im[i].rep[1].type ) );
            if ( !any && proj != e57::ProjectionNone )
               fail( "GetImage2DSizes reports a projection of an image without" );
            if ( any )
            {
               if ( proj < 1 || proj > 4 || !im[i].rep[proj].there )
                  fail( sprintf_( "GetImage2DSizes reports projection %d", proj ) );
               const auto &q = im[i].rep[proj];
               int64_t w2 = heads[i].visualReferenceRepresentation.imageWidth, h2 = heads[i].visualReferenceRepresentation.imageHeight;
               if ( proj == e57::ProjectionPinhole )
                  w2 = heads[i].pinholeRepresentation.imageWidth, h2 = heads[i].pinholeRepresentation.imageHeight;
               if ( proj == e57::ProjectionSpherical )
                  w2 = heads[i].sphericalRepresentation.imageWidth, h2 = heads[i].sphericalRepresentation.imageHeight;
               if ( proj == e57::ProjectionCylindrical )
                  w2 = heads[i].cylindricalRepresentation.imageWidth, h2 = heads[i].cylindricalRepresentation.imageHeight;
               if ( type != q.type || width != w2 || height != h2 || size != static_cast<int64_t>( q.data.size() ) ||
                    mask != ( q.mask.empty() ? ImageNone : ImageMaskPNG ) )
                  fail( sprintf_( "GetImage2DSizes reports type %d, %lld x %lld, %lld bytes, mask %d instead of type %d, %lld x %lld, %zu bytes, mask %d", type,
                                  (long long)width, (long long)height, (long long)size, mask, q.type, (long long)w2, (long long)h2, q.data.size(),
                                  q.mask.empty() ? 0 : 3 ) );
            }

            for ( const Part &p : parts( s, im[i] ) )
            {
               const auto &b = *bytesOf( im[i], p.proj, p.type );
               std::vector<uint8_t> got( p.count + 8, 0xA5 );
               const int64_t n = r.ReadImage2DData( at, static_cast<Image2DProjection>( p.proj ), static_cast<Image2DType>( p.type ), got.data(),
                                                    static_cast<int64_t>( p.start ), static_cast<int64_t>( p.count ) );
               if ( n != static_cast<int64_t>( p.count ) )
                  fail( sprintf_( "ReadImage2DData returned %lld instead of %zu", (long long)n, p.count ) );
               for ( size_t j = 0; j < p.count; ++j )
                  if ( got[j] != b[p.start + j] )
                     fail( sprintf_( "image %zu projection %d type %d: byte %zu of the part from %zu of %zu bytes differs", i, p.proj, p.type, j, p.start, p.count ) );
               for ( size_t j = p.count; j < got.size(); ++j )
                  if ( got[j] != 0xA5 )
                     fail( "bytes behind the part were touched" );
            }
            for ( int tries = 0; tries < 3; ++tries )
            {
               const auto a = absent( s, im[i] );
               uint8_t got[16];
               memset( got, 0xA5, sizeof got );
               const int64_t n = r.ReadImage2DData( at, static_cast<Image2DProjection>( a.first ), static_cast<Image2DType>( a.second ), got, 0, 16 );
               if ( n != 0 )
                  fail( sprintf_( "projection %d type %d the image does not have was read", a.first, a.second ) );
               for ( uint8_t c : got )
                  if ( c != 0xA5 )
                     fail( "a request for an image that does not exist changed the buffer" );
            }
            uint8_t got[4] = { 9, 9, 9, 9 };
            if ( r.ReadImage2DData( -1, e57::ProjectionVisual, e57::ImageJPEG, got, 0, 4 ) ||
                 r.ReadImage2DData( static_cast<int64_t>( k ), e57::ProjectionPinhole, e57::ImagePNG, got, 0, 4 ) || got[0] != 9 )
               fail( "an image index that does not exist was read" );
         }
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "reading: " + what( e ) );
      }
   }

   pbt::Reg r29( { "C29",
                   c29,
                   20000,
                   100000,
                   "exploration",
                   "an image has a representation",
                   { "a representation holds either JPEG or PNG data (and perhaps a mask); an image has at most one projection besides the visual reference",
                     "which of the two representations GetImage2DSizes describes for an image with a visual reference and a projection is left open" } } );
}
