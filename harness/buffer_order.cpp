// @property C02
// @tu middleware/buffer/source/order.cpp
// @tu middleware/common/source/buffer/pool.cpp
// @tu middleware/common/source/buffer/type.cpp
// @tu middleware/common/source/code/xatmi.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/exception/capture.cpp
// @tu middleware/common/source/network/byteorder.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/exception/guard.cpp
// @tu middleware/common/source/code/serialize.cpp
// @entry h_order_get_scalar covers=ok,oob : every scalar read of an arbitrary received order buffer of any size at any cursor is bounds checked and decodes the bytes at the cursor
// @entry h_order_get_string covers=ok,oob : string read stays inside the payload
// @entry h_order_get_binary covers=ok,oob : binary read stays inside the payload
// @entry h_order_add_scalar covers=kept,added : adding a scalar appends exactly its big endian encoding to a buffer of any size and content
// @entry h_order_add_string covers=kept,added : adding a string appends the string and its terminator
// @entry h_order_add_binary covers=kept,added,refused : adding a block appends its size and its content
// @entry h_order_reallocate covers=grown,shrunk,kept : resizing keeps the content and the cursor, whatever the sizes
// @entry h_order_allocate covers=fresh : an allocated buffer of any size is empty and can hold that size
// @entry h_order_transport covers=all : exactly the used part is sent whatever size the user supplies
// @entry h_order_prepare covers=get,add : rewinding and emptying
#include "v.h"
#include "casual/buffer/order.h"
#include "common/buffer/pool.h"

#include <cstring>

namespace common = casual::common;

namespace
{
   //! a received order buffer: arbitrary content of arbitrary size, arbitrary cursor
   struct Received
   {
      Received()
      {
         size = v_any< std::size_t>( "size");
         v_assume( size <= std::size_t{ 1} << 32);
         content = static_cast< const unsigned char*>( v_alloc( size, "content"));
         common::buffer::Payload payload{ CASUAL_ORDER "/", casual::platform::binary::type( size)};
         if( size > 0)
            std::memcpy( payload.data.data(), content, size);
         auto inserted = common::buffer::pool::holder().insert( std::move( payload));
         handle = std::get< 0>( inserted).raw();
         cursor = 0;

         // an arbitrary cursor: skip the first value, a binary block of arbitrary size
         if( v_pick( 0, 1, "skip first"))
         {
            const char* data;
            long count;
            v_assume( casual_order_get_binary( handle, &data, &count) == CASUAL_ORDER_SUCCESS);
            cursor = consumed();
         }
      }

      long consumed() const
      {
         long result = -1;
         casual_order_explore_buffer( handle, nullptr, nullptr, &result);
         return result;
      }

      template< typename U>
      U big_endian() const
      {
         U result = 0;
         for( std::size_t i = 0; i < sizeof( U); ++i)
            result = ( result << 8) | content[ cursor + i];
         return result;
      }

      std::size_t size;
      std::size_t cursor;
      const unsigned char* content;
      char* handle;
   };

   template< typename T, typename U>
   void get( Received& r, int (*function)( const char*, T*))
   {
      T value{};
      auto result = function( r.handle, &value);
      v_trace( result);
      v_trace( r.consumed());
      if( r.size - r.cursor >= sizeof( U))
      {
         v_cover( "ok");
         v_assert( result == CASUAL_ORDER_SUCCESS, "a value that fits is read");
         auto expected = r.big_endian< U>();
         U bits{};
         std::memcpy( &bits, &value, sizeof bits);
         v_assert( bits == expected, "the value is the big endian decoding of the bytes at the cursor");
         v_assert( r.consumed() == static_cast< long>( r.cursor + sizeof( U)), "the cursor advances by the size of the value");
      }
      else
      {
         v_cover( "oob");
         v_assert( result == CASUAL_ORDER_OUT_OF_BOUNDS, "a value that does not fit is reported");
         v_assert( r.consumed() == static_cast< long>( r.cursor), "the cursor does not move");
      }
   }
}

extern "C" void h_order_get_scalar()
{
   Received r;
   switch( v_pick( 0, 4, "type"))
   {
      case 0: get< short, std::uint16_t>( r, &casual_order_get_short); break;
      case 1: get< long, std::uint64_t>( r, &casual_order_get_long); break;
      case 2: get< float, std::uint32_t>( r, &casual_order_get_float); break;
      case 3: get< double, std::uint64_t>( r, &casual_order_get_double); break;
      default: get< char, std::uint8_t>( r, &casual_order_get_char); break;
   }
}

extern "C" void h_order_get_string()
{
   Received r;
   const char* value = nullptr;
   auto result = casual_order_get_string( r.handle, &value);
   v_trace( result);
   v_trace( r.consumed());
   auto any = v_any< std::size_t>( "any");
   if( result == CASUAL_ORDER_SUCCESS)
   {
      v_cover( "ok");
      auto length = r.consumed() - r.cursor - 1;
      v_assert( value == r.handle + r.cursor, "the string starts at the cursor");
      v_assert( r.cursor + length < r.size, "the string including terminator is inside the payload");
      v_assert( r.content[ r.cursor + length] == 0, "the string is terminated");
      if( any < length)
         v_assert( r.content[ r.cursor + any] != 0, "the cursor is moved past the first terminator");
   }
   else
   {
      v_cover( "oob");
      v_assert( result == CASUAL_ORDER_OUT_OF_BOUNDS, "missing terminator is reported");
      v_assert( r.consumed() == static_cast< long>( r.cursor), "the cursor does not move");
      if( any < r.size - r.cursor)
         v_assert( r.content[ r.cursor + any] != 0, "only an unterminated string is refused");
   }
}

extern "C" void h_order_get_binary()
{
   Received r;
   const char* data = nullptr;
   long size = 0;
   auto result = casual_order_get_binary( r.handle, &data, &size);
   v_trace( result);
   v_trace( r.consumed());
   long expected = -1;
   if( r.size - r.cursor >= 8)
      expected = r.big_endian< std::uint64_t>();

   if( expected >= 0 && static_cast< std::size_t>( expected) <= r.size - r.cursor - 8)
   {
      v_cover( "ok");
      v_assert( result == CASUAL_ORDER_SUCCESS, "a block that fits is read");
      v_assert( size == expected, "the size is the encoded size");
      v_assert( data == r.handle + r.cursor + 8, "the data follows the size");
      v_assert( r.consumed() == static_cast< long>( r.cursor + 8 + expected), "the cursor advances past the block");
   }
   else
   {
      v_cover( "oob");
      v_assert( result == CASUAL_ORDER_OUT_OF_BOUNDS, "a block that does not fit is reported");
      v_assert( r.consumed() == static_cast< long>( r.cursor), "the cursor does not move");
   }
}

namespace
{
   // an arbitrary buffer, and what adding one value shall do to it: the existing content is kept, and the encoded
   // value is appended
   template< typename F>
   void add( std::size_t size, F&& encoded, int result, Received& r)
   {
      v_trace( result);
      v_assert( result == CASUAL_ORDER_SUCCESS, "the value is added");
      long used = -1, reserved = -1, consumed = -1;
      v_assert( casual_order_explore_buffer( r.handle, &reserved, &used, &consumed) == CASUAL_ORDER_SUCCESS, "the returned handle is the buffer");
      v_trace( used);
      v_assert( used == static_cast< long>( r.size + size), "the used size grows by the size of the encoded value");
      v_assert( used <= reserved, "used is at most reserved");
      v_assert( consumed == static_cast< long>( r.cursor), "the cursor does not move");
      auto any = v_any< std::size_t>( "any");
      if( any < r.size)
      {
         v_cover( "kept");
         v_assert( static_cast< unsigned char>( r.handle[ any]) == r.content[ any], "existing content is kept");
      }
      else if( any - r.size < size)
      {
         v_cover( "added");
         v_assert( static_cast< unsigned char>( r.handle[ any]) == encoded( any - r.size), "the encoded value is appended");
      }
   }

   template< typename U, typename T>
   auto big_endian( T value)
   {
      U bits{};
      std::memcpy( &bits, &value, sizeof bits);
      return [ bits]( std::size_t index) { return static_cast< unsigned char>( bits >> ( 8 * ( sizeof( U) - 1 - index)));};
   }
}

extern "C" void h_order_add_scalar()
{
   Received r;
   switch( v_pick( 0, 5, "type"))
   {
      case 0: { auto value = v_any< short>( "value"); add( 2, big_endian< std::uint16_t>( value), casual_order_add_short( &r.handle, value), r); break;}
      case 1: { auto value = v_any< long>( "value"); add( 8, big_endian< std::uint64_t>( value), casual_order_add_long( &r.handle, value), r); break;}
      case 2: { auto value = v_any< float>( "value"); add( 4, big_endian< std::uint32_t>( value), casual_order_add_float( &r.handle, value), r); break;}
      case 3: { auto value = v_any< double>( "value"); add( 8, big_endian< std::uint64_t>( value), casual_order_add_double( &r.handle, value), r); break;}
      case 4: { auto value = v_any< char>( "value"); add( 1, big_endian< std::uint8_t>( value), casual_order_add_char( &r.handle, value), r); break;}
      default: { auto value = v_any< bool>( "value"); add( 1, big_endian< std::uint8_t>( value), casual_order_add_bool( &r.handle, value), r); break;}
   }
}

extern "C" void h_order_add_string()
{
   Received r;
   auto length = v_any< std::size_t>( "length");
   v_assume( length <= std::size_t{ 1} << 30);
   auto string = static_cast< const char*>( v_alloc( length + 1, "string"));
   v_assume( string[ length] == 0);
   auto result = casual_order_add_string( &r.handle, string);
   auto used = std::strlen( string) + 1;
   add( used, [=]( std::size_t index) { return static_cast< unsigned char>( string[ index]);}, result, r);
}

extern "C" void h_order_add_binary()
{
   Received r;
   auto count = v_any< long>( "count");
   v_assume( count <= 1l << 30);
   auto binary = static_cast< const char*>( v_alloc( count < 0 ? 0 : count, "binary"));
   auto result = casual_order_add_binary( &r.handle, binary, count);
   if( count < 0)
   {
      v_cover( "refused");
      v_assert( result == CASUAL_ORDER_INVALID_ARGUMENT, "a negative size is refused");
      return;
   }
   auto size = big_endian< std::uint64_t>( count);
   add( 8 + count, [=]( std::size_t index) { return index < 8 ? size( index) : static_cast< unsigned char>( binary[ index - 8]);}, result, r);
}

// rewinding for reading keeps the content, preparing for adding empties the buffer
extern "C" void h_order_prepare()
{
   Received r;
   v_assert( casual_order_explore_buffer( nullptr, nullptr, nullptr, nullptr) == CASUAL_ORDER_INVALID_HANDLE, "null handle is refused");
   long used = -1, consumed = -1;
   if( v_pick( 0, 1, "operation"))
   {
      v_cover( "get");
      v_assert( casual_order_get_prepare( r.handle) == CASUAL_ORDER_SUCCESS, "rewound");
      v_assert( casual_order_explore_buffer( r.handle, nullptr, &used, &consumed) == CASUAL_ORDER_SUCCESS, "the handle is valid");
      v_assert( used == static_cast< long>( r.size) && consumed == 0, "the content is kept and nothing is consumed");
   }
   else
   {
      v_cover( "add");
      v_assert( casual_order_add_prepare( r.handle) == CASUAL_ORDER_SUCCESS, "emptied");
      v_assert( casual_order_explore_buffer( r.handle, nullptr, &used, &consumed) == CASUAL_ORDER_SUCCESS, "the handle is valid");
      v_assert( used == 0, "an emptied buffer has no content");
   }
}

// tprealloc, in either direction
extern "C" void h_order_reallocate()
{
   Received r;
   auto size = v_any< long>( "resize");
   v_assume( size >= 0 && size <= 1l << 33);
   auto handle = common::buffer::pool::holder().reallocate( common::buffer::handle::type{ r.handle}, size).raw();
   long reserved = -1, used = -1, consumed = -1;
   v_assert( casual_order_explore_buffer( handle, &reserved, &used, &consumed) == CASUAL_ORDER_SUCCESS, "the returned handle is the buffer");
   v_assert( used == static_cast< long>( r.size), "the used size does not change");
   v_assert( consumed == static_cast< long>( r.cursor), "the cursor does not move");
   v_assert( used <= reserved, "used is at most reserved");
   if( size >= used)
   {
      v_cover( "grown");
      v_assert( reserved >= size, "the buffer can hold the requested size");
   }
   else
      v_cover( "shrunk");
   auto any = v_any< std::size_t>( "any");
   if( any < r.size)
   {
      v_cover( "kept");
      v_assert( static_cast< unsigned char>( handle[ any]) == r.content[ any], "existing content is kept");
   }
}

extern "C" void h_order_allocate()
{
   auto size = v_any< long>( "size");
   v_assume( size >= 0 && size <= 1l << 33);
   auto handle = common::buffer::pool::holder().allocate( CASUAL_ORDER "/", size).raw();
   v_cover( "fresh");
   long reserved = -1, used = -1, consumed = -1;
   v_assert( casual_order_explore_buffer( handle, &reserved, &used, &consumed) == CASUAL_ORDER_SUCCESS, "the returned handle is the buffer");
   v_assert( used == 0 && consumed == 0, "an allocated buffer is empty");
   v_assert( reserved >= size, "the buffer can hold the requested size");
}

extern "C" void h_order_transport()
{
   Received r;
   auto user = v_any< long>( "user size");
   auto send = common::buffer::pool::holder().get( common::buffer::handle::type{ r.handle}, user);
   v_cover( "all");
   v_assert( send.transport() == static_cast< long>( r.size), "exactly the used part is sent");
}
