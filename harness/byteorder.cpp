// @property C01
// @entry h_byteorder_roundtrip covers=end : network byte order encode/decode are inverse for every value of every type
// @entry h_byteorder_bytes covers=end : the encoded value has the most significant byte first in memory
#include "v.h"
#include "middleware/common/source/network/byteorder.cpp"

namespace byteorder = casual::common::network::byteorder;

template< typename T>
void roundtrip( const char* name)
{
   auto value = v_any< T>( name);
   auto encoded = byteorder::encode( value);
   v_trace( encoded);
   v_assert( byteorder::decode< T>( encoded) == value, name);
}

extern "C" void h_byteorder_roundtrip()
{
   roundtrip< short>( "short");
   roundtrip< int>( "int");
   roundtrip< long>( "long");
   roundtrip< long long>( "long long");
   roundtrip< char>( "char");
   roundtrip< unsigned char>( "unsigned char");
   {
      auto bits = v_any< std::uint32_t>( "float bits");
      float value; std::memcpy( &value, &bits, 4);
      float back = byteorder::decode< float>( byteorder::encode( value));
      v_assert( std::memcmp( &back, &value, 4) == 0, "float");
   }
   {
      auto bits = v_any< std::uint64_t>( "double bits");
      double value; std::memcpy( &value, &bits, 8);
      double back = byteorder::decode< double>( byteorder::encode( value));
      v_assert( std::memcmp( &back, &value, 8) == 0, "double");
   }
   {
      auto value = v_any< std::size_t>( "size");
      v_assert( byteorder::size::decode< std::size_t>( byteorder::size::encode( value)) == value, "size");
   }
   v_cover( "end");
}

template< typename T>
void bytes( const char* name)
{
   auto value = v_any< T>( name);
   auto encoded = byteorder::encode( value);
   unsigned char memory[ sizeof encoded];
   std::memcpy( memory, &encoded, sizeof encoded);
   bool good = sizeof( encoded) == sizeof( T);
   for( std::size_t i = 0; i < sizeof( encoded); ++i)
      good &= memory[ i] == static_cast< unsigned char>( static_cast< std::uint64_t>( value) >> ( 8 * ( sizeof( encoded) - 1 - i)));
   v_assert( good, name);
}

extern "C" void h_byteorder_bytes()
{
   bytes< short>( "short");
   bytes< int>( "int");
   bytes< long>( "long");
   bytes< long long>( "long long");
   v_cover( "end");
}
