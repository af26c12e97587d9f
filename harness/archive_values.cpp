// @property C06
// @tu middleware/common/source/network/byteorder.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @config skip casual::common::stream::write<
// @entry h_value_number covers=all : every number, boolean, enumeration, duration, time and uuid is the same when it is received, with what comes after it
// @entry h_value_string covers=all : a string of any size is the same when it is received, with what comes after it, whatever the receiver held
// @entry h_value_binary covers=all : binary data of any size is the same when it is received, with what comes after it
// @entry h_value_optional covers=none,some : an optional is received with its value exactly if it has one
// @entry h_value_container covers=all bounded : a sequence, set, map and tuple is received with all its elements in order
#include "v.h"
#include "v_os.h"
#include "common/serialize/native/binary.h"
#include "common/serialize/native/network.h"
#include "common/uuid.h"
#include "common/message/type.h"

#include <map>
#include <set>
#include <tuple>

namespace common = casual::common;
namespace binary = casual::common::serialize::native::binary;

namespace casual::common::process
{
   const Handle& handle()
   {
      static const Handle result{ strong::process::id{ 42}};
      return result;
   }
}

namespace
{
   enum class Small : std::uint8_t { a, b};
   enum class Short : short { a, b};
   enum class Long : long { a, b};

   struct Local
   {
      template< typename F> static void run( F&& f) { f( binary::Writer{}, []( auto& buffer){ return binary::Reader{ buffer};});}
   };
   struct Network
   {
      template< typename F> static void run( F&& f) { f( binary::network::Writer{}, []( auto& buffer){ return binary::network::Reader{ buffer};});}
   };

   template< typename F>
   void both( F&& f)
   {
      if( v_pick< int>( 0, 1, "network") == 0)
         Local::run( f);
      else
         Network::run( f);
   }

   template< typename T>
   void number()
   {
      T value = v_any< T>( "value");
      T other = v_any< T>( "other");
      both( [ &]( auto writer, auto create)
      {
         writer << value;
         writer << other;
         auto buffer = writer.consume();
         auto reader = create( buffer);
         T first = v_any< T>( "held");
         T second = v_any< T>( "held");
         reader >> first;
         reader >> second;
         v_assert( std::memcmp( &first, &value, sizeof( T)) == 0, "the value is the same");
         v_assert( std::memcmp( &second, &other, sizeof( T)) == 0, "the value that follows is the same");
      });
   }

   template< typename... Ts>
   void numbers( int index)
   {
      using function = void (*)();
      constexpr function functions[] = { &number< Ts>...};
      functions[ index]();
   }
}

extern "C" void h_value_number()
{
   using time = casual::platform::time::point::type;
   using unit = casual::platform::time::unit;
   numbers< bool, char, std::uint8_t, short, int, long, float, double, Small, Short, Long, unit, time, common::Uuid>( v_pick< int>( 0, 13, "type"));
   v_cover( "all");
}

extern "C" void h_value_string()
{
   auto size = v_any< std::uint32_t>( "size");
   v_assume( size < ( 1u << 30));
   v_size( size);
   auto data = static_cast< const char*>( v_alloc( size, "string"));
   auto other = v_any< long>( "other");
   both( [ &]( auto writer, auto create)
   {
      writer << std::string_view( data, size);
      writer << other;
      auto buffer = writer.consume();
      auto reader = create( buffer);
      std::string first{ "x"};
      long second = 0;
      reader >> first;
      reader >> second;
      v_assert( first.size() == size, "the size is the same");
      auto any = v_any< std::uint32_t>( "any");
      if( any < size)
         v_assert( first[ any] == data[ any], "the content is the same");
      v_assert( second == other, "the value that follows is the same");
   });
   v_cover( "all");
}

extern "C" void h_value_binary()
{
   auto size = v_any< std::uint32_t>( "size");
   v_assume( size < ( 1u << 30));
   v_size( size);
   auto data = static_cast< const std::byte*>( v_alloc( size, "binary"));
   auto other = v_any< long>( "other");
   both( [ &]( auto writer, auto create)
   {
      writer << std::span< const std::byte>( data, size);
      writer << other;
      auto buffer = writer.consume();
      auto reader = create( buffer);
      casual::platform::binary::type first;
      long second = 0;
      reader >> first;
      reader >> second;
      v_assert( first.size() == size, "the size is the same");
      auto any = v_any< std::uint32_t>( "any");
      if( any < size)
         v_assert( first[ any] == data[ any], "the content is the same");
      v_assert( second == other, "the value that follows is the same");
   });
   v_cover( "all");
}

extern "C" void h_value_optional()
{
   std::optional< long> value;
   if( v_pick< int>( 0, 1, "some") == 1)
      value = v_any< long>( "value");
   auto other = v_any< long>( "other");
   both( [ &]( auto writer, auto create)
   {
      writer << value;
      writer << other;
      auto buffer = writer.consume();
      auto reader = create( buffer);
      std::optional< long> first;
      long second = 0;
      reader >> first;
      reader >> second;
      v_assert( first.has_value() == value.has_value(), "there is a value exactly if there was one");
      if( value)
         v_assert( *first == *value, "the value is the same");
      v_assert( second == other, "the value that follows is the same");
   });
   if( value)
      v_cover( "some");
   else
      v_cover( "none");
}

extern "C" void h_value_container()
{
   v_bound( "at most 4 elements");
   auto count = v_pick< int>( 0, 4, "count");
   std::vector< short> sequence;
   std::set< long> set;
   std::map< long, std::string> map;
   for( int i = 0; i < count; ++i)
   {
      sequence.push_back( v_any< short>( "element"));
      set.insert( i * 3 - 4);
      map.emplace( 7 - i, std::string( i, v_any< char>( "character")));
   }
   std::tuple< short, std::string, bool> tuple{ v_any< short>( "tuple"), "abc", v_any< bool>( "tuple")};
   std::array< std::byte, 8> fixed;
   v_sym( fixed.data(), 8, "fixed");
   auto other = v_any< long>( "other");
   both( [ &]( auto writer, auto create)
   {
      writer << sequence;
      writer << set;
      writer << map;
      writer << tuple;
      writer << fixed;
      writer << other;
      auto buffer = writer.consume();
      auto reader = create( buffer);
      decltype( sequence) r_sequence{ 1, 2};
      decltype( set) r_set;
      decltype( map) r_map;
      decltype( tuple) r_tuple;
      decltype( fixed) r_fixed;
      long r_other = 0;
      reader >> r_sequence;
      reader >> r_set;
      reader >> r_map;
      reader >> r_tuple;
      reader >> r_fixed;
      reader >> r_other;
      v_assert( r_sequence.size() == sequence.size(), "all elements are received");
      for( std::size_t i = 0; i < sequence.size(); ++i)
         v_assert( r_sequence[ i] == sequence[ i], "every element is the same");
      v_assert( r_set == set, "the set is the same");
      v_assert( r_map.size() == map.size(), "the map is the same");
      for( auto& pair : map)
      {
         auto found = r_map.find( pair.first);
         v_assert( found != r_map.end(), "every key is received");
         v_assert( found->second.size() == pair.second.size(), "the value of a key is the same");
         for( std::size_t i = 0; i < pair.second.size(); ++i)
            v_assert( found->second[ i] == pair.second[ i], "the value of a key is the same");
      }
      v_assert( std::get< 0>( r_tuple) == std::get< 0>( tuple), "the tuple is the same");
      v_assert( std::get< 1>( r_tuple) == "abc", "the tuple is the same");
      v_assert( std::get< 2>( r_tuple) == std::get< 2>( tuple), "the tuple is the same");
      v_assert( std::memcmp( r_fixed.data(), fixed.data(), 8) == 0, "the fixed array is the same");
      v_assert( r_other == other, "the value that follows is the same");
   });
   v_cover( "all");
}
