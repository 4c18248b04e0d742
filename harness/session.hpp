// A writing session over a model tree whose order of calls is determined by a seed, so
// that it can be performed several times.
#pragma once

#include "lib.hpp"

namespace VARIANT
{
   class Session
   {
   public:
      Session( const MN &r, const Exts &x, uint64_t sd ) : root( r ), exts( x ), seed( sd ) {}

      // everything except closing
      void build( const e57::ImageFile &imf ) const
      {
         pbt::Prng p( seed );
         e57::ImageFile f( imf );
         for ( auto &x : exts )
            f.extensionsAdd( x.first, x.second );
         e57::StructureNode r = f.root();
         std::vector<std::pair<e57::Node, const MN *>> todo;
         const bool piecewise = p.below( 2 );
         for ( auto &k : root.kids )
         {
            tick();
            const e57::Node n = buildNode( f, k );
            tick();
            r.set( k.name, n );
            collect( n, k, todo );
            if ( piecewise )
               flush( p, todo );
         }
         flush( p, todo );
      }
      void write( const std::string &path ) const
      {
         e57::ImageFile imf( path, "w" );
         build( imf );
         tick();
         imf.close();
      }

   private:
      const MN &root;
      const Exts &exts;
      uint64_t seed;

      using Todo = std::vector<std::pair<e57::Node, const MN *>>;
      static void collect( const e57::Node &n, const MN &m, Todo &todo )
      {
         if ( m.t == T::Struct )
            for ( size_t i = 0; i < m.kids.size(); ++i )
               collect( e57::StructureNode( n ).get( static_cast<int64_t>( i ) ), m.kids[i], todo );
         else if ( m.t == T::Vec )
            for ( size_t i = 0; i < m.kids.size(); ++i )
               collect( e57::VectorNode( n ).get( static_cast<int64_t>( i ) ), m.kids[i], todo );
         else if ( m.t == T::CV || m.t == T::Blob )
            todo.emplace_back( n, &m );
      }
      static void flush( pbt::Prng &p, Todo &todo )
      {
         for ( size_t i = todo.size(); i > 1; --i )
            std::swap( todo[i - 1], todo[p.below( i )] );
         for ( auto &t : todo )
         {
            const MN &m = *t.second;
            if ( m.t == T::CV )
            {
               writeRecords( e57::CompressedVectorNode( t.first ), m, p.below( 2 ) ? 0 : 1 + p.below( 300 ) );
               continue;
            }
            e57::BlobNode b( t.first );
            std::vector<uint8_t> d( m.s.begin(), m.s.end() );
            for ( size_t at = 0; at < d.size(); )
            {
               const size_t k = p.below( 3 ) ? d.size() - at : 1 + p.below( d.size() - at );
               tick();
               b.write( d.data() + at, static_cast<int64_t>( at ), k );
               at += k;
            }
         }
         todo.clear();
      }
   };
}
