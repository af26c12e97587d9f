// @property C04
// @tu middleware/buffer/source/string.cpp
// @tu middleware/buffer/source/octet.cpp
// @tu middleware/common/source/buffer/pool.cpp
// @tu middleware/common/source/buffer/type.cpp
// @tu middleware/common/source/code/xatmi.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/exception/capture.cpp
// @tu middleware/common/source/network/byteorder.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/exception/guard.cpp
// @tu middleware/common/source/code/serialize.cpp
// @entry h_string_inbound covers=accepted,refused : a received string buffer is accepted only if it is terminated inside the payload, and is read back
// @entry h_string_set covers=kept : a string that is set is read back whatever the buffer held before
// @entry h_string_allocate covers=fresh : an allocated string buffer of any size holds the empty string
// @entry h_string_reallocate covers=kept,cut : resizing keeps the content that fits, and the buffer stays terminated
// @entry h_string_transport covers=sent,refused : what is sent is exactly the string and its terminator
// @entry h_octet_set covers=kept,refused : data that is set is read back, byte by byte
// @entry h_octet_reallocate covers=kept : resizing keeps the content that fits
// @entry h_octet_transport covers=all : all the data is sent whatever size the user supplies
#include "v.h"
#include "casual/buffer/string.h"
#include "casual/buffer/octet.h"
#include "common/buffer/pool.h"

#include <cstring>
#include <exception>

namespace common = casual::common;

namespace
{
   auto& holder() { return common::buffer::pool::holder(); }

   struct Received
   {
      explicit Received( const char* type)
      {
         size = v_any< std::size_t>( "size");
         v_assume( size <= std::size_t{ 1} << 32);
         content = static_cast< const unsigned char*>( v_alloc( size, "content"));
         common::buffer::Payload payload{ type, casual::platform::binary::type( size)};
         if( size > 0)
            std::memcpy( payload.data.data(), content, size);
         try
         {
            handle = std::get< 0>( holder().insert( std::move( payload))).raw();
         }
         catch( const std::exception&)
         {
            handle = nullptr;
         }
      }

      std::size_t size;
      const unsigned char* content;
      char* handle;
   };

   //! a string buffer of any size that holds any string
   struct String : Received
   {
      String() : Received{ CASUAL_STRING "/"}
      {
         v_assume( handle);
         length = std::strlen( handle);
      }
      std::size_t length;
   };

   struct Value
   {
      Value()
      {
         auto capacity = v_any< std::size_t>( "capacity");
         v_assume( capacity <= std::size_t{ 1} << 30);
         auto bytes = static_cast< char*>( v_alloc( capacity + 1, "value"));
         bytes[ capacity] = '\0';
         string = bytes;
         length = std::strlen( string);
      }
      const char* string;
      std::size_t length;
   };

   void holds( const char* handle, const char* string, std::size_t length)
   {
      const char* value = nullptr;
      v_assert( casual_string_get( handle, &value) == CASUAL_STRING_SUCCESS, "the string is read");
      long size = -1, used = -1;
      v_assert( casual_string_explore_buffer( handle, &size, &used) == CASUAL_STRING_SUCCESS, "the buffer is explored");
      v_assert( used == static_cast< long>( length + 1), "the used size is the string and its terminator");
      v_assert( used <= size, "the used size is within the buffer");
      auto any = v_any< std::size_t>( "any");
      if( any <= length)
      {
         v_cover( "kept");
         v_assert( value[ any] == string[ any], "the string that is read is the string that is stored");
      }
   }
}

extern "C" void h_string_inbound()
{
   Received r{ CASUAL_STRING "/"};
   auto any = v_any< std::size_t>( "any");
   if( r.handle)
   {
      v_cover( "accepted");
      const char* value = nullptr;
      v_assert( casual_string_get( r.handle, &value) == CASUAL_STRING_SUCCESS, "an accepted string is read");
      long used = -1;
      v_assert( casual_string_explore_buffer( r.handle, nullptr, &used) == CASUAL_STRING_SUCCESS, "an accepted buffer is explored");
      v_assert( used > 0 && static_cast< std::size_t>( used) <= r.size, "the string ends inside the payload");
      v_assert( r.content[ used - 1] == 0, "the string is terminated");
      if( any < static_cast< std::size_t>( used))
         v_assert( static_cast< unsigned char>( value[ any]) == r.content[ any], "the string is the received bytes");
   }
   else
   {
      v_cover( "refused");
      if( any < r.size)
         v_assert( r.content[ any] != 0, "only an unterminated string is refused");
   }
}

extern "C" void h_string_set()
{
   String buffer;
   Value value;
   v_assert( casual_string_set( &buffer.handle, value.string) == CASUAL_STRING_SUCCESS, "the string is set");
   holds( buffer.handle, value.string, value.length);
}

extern "C" void h_string_allocate()
{
   auto size = v_any< long>( "size");
   v_assume( size >= 0 && size <= 1l << 30);
   auto handle = holder().allocate( CASUAL_STRING "/", size).raw();
   v_cover( "fresh");
   holds( handle, "", 0);
}

extern "C" void h_string_reallocate()
{
   String buffer;
   auto size = v_any< long>( "resize");
   v_assume( size >= 0 && size <= 1l << 30);
   auto handle = holder().reallocate( common::buffer::handle::type{ buffer.handle}, size).raw();
   long reserved = -1, used = -1;
   v_assert( casual_string_explore_buffer( handle, &reserved, &used) == CASUAL_STRING_SUCCESS, "the resized buffer is terminated");
   v_assert( reserved == ( size ? size : 1), "the buffer has the requested size");
   auto any = v_any< std::size_t>( "any");
   if( buffer.length < static_cast< std::size_t>( size))
   {
      v_cover( "kept");
      v_assert( used == static_cast< long>( buffer.length + 1), "a string that fits is kept");
      if( any <= buffer.length)
         v_assert( static_cast< unsigned char>( handle[ any]) == buffer.content[ any], "a string that fits is kept unchanged");
   }
   else
   {
      v_cover( "cut");
      v_assert( used == reserved, "a string that does not fit is cut");
      if( static_cast< long>( any) < used - 1 && static_cast< long>( any) >= 0)
         v_assert( static_cast< unsigned char>( handle[ any]) == buffer.content[ any], "the part that fits is kept");
   }
}

extern "C" void h_string_transport()
{
   String buffer;
   // the user may have written anything to the buffer
   auto any = v_any< std::size_t>( "where");
   v_assume( any < buffer.size);
   buffer.handle[ any] = v_any< char>( "written");
   auto terminated = std::memchr( buffer.handle, 0, buffer.size);
   auto user = v_any< long>( "user size");
   long transport = -1;
   try
   {
      transport = holder().get( common::buffer::handle::type{ buffer.handle}, user).transport();
   }
   catch( const std::exception&)
   {
      v_cover( "refused");
      v_assert( ! terminated, "only an unterminated string is refused");
      return;
   }
   v_cover( "sent");
   v_assert( terminated, "an unterminated string is refused");
   v_assert( transport == static_cast< char*>( terminated) - buffer.handle + 1, "the string and its terminator are sent");
}

extern "C" void h_octet_set()
{
   static const char* const types[] = { CASUAL_OCTET "/", CASUAL_OCTET "/" CASUAL_OCTET_XML, CASUAL_OCTET "/" CASUAL_OCTET_JSON, CASUAL_OCTET "/" CASUAL_OCTET_YAML};
   Received buffer{ v_one_of( types, "type")};
   v_assert( buffer.handle, "any data is accepted");
   auto count = v_any< long>( "count");
   v_assume( count <= 1l << 30);
   auto data = static_cast< const unsigned char*>( v_alloc( count < 0 ? 0 : count, "data"));
   auto result = casual_octet_set( &buffer.handle, reinterpret_cast< const char*>( data), count);
   const char* value = nullptr;
   long size = -1;
   v_assert( casual_octet_get( buffer.handle, &value, &size) == CASUAL_OCTET_SUCCESS, "the data is read");
   auto any = v_any< long>( "any");
   if( count < 0)
   {
      v_cover( "refused");
      v_assert( result == CASUAL_OCTET_INVALID_ARGUMENT, "a negative size is refused");
      v_assert( size == static_cast< long>( buffer.size), "the buffer is unchanged");
      if( any >= 0 && any < size)
         v_assert( static_cast< unsigned char>( value[ any]) == buffer.content[ any], "the content is unchanged");
   }
   else
   {
      v_assert( result == CASUAL_OCTET_SUCCESS, "the data is set");
      v_assert( size == count, "the size is the size that was set");
      if( any >= 0 && any < count)
      {
         v_cover( "kept");
         v_assert( static_cast< unsigned char>( value[ any]) == data[ any], "the data that is read is the data that was set");
      }
   }
}

extern "C" void h_octet_reallocate()
{
   Received buffer{ CASUAL_OCTET "/"};
   auto size = v_any< long>( "resize");
   v_assume( size >= 0 && size <= 1l << 30);
   auto handle = holder().reallocate( common::buffer::handle::type{ buffer.handle}, size).raw();
   const char* value = nullptr;
   long count = -1;
   v_assert( casual_octet_get( handle, &value, &count) == CASUAL_OCTET_SUCCESS, "the resized buffer is valid");
   v_assert( count == size, "the buffer has the requested size");
   auto any = v_any< long>( "any");
   if( any >= 0 && any < size && any < static_cast< long>( buffer.size))
   {
      v_cover( "kept");
      v_assert( static_cast< unsigned char>( value[ any]) == buffer.content[ any], "the content that fits is kept");
   }
}

extern "C" void h_octet_transport()
{
   Received buffer{ CASUAL_OCTET "/"};
   auto user = v_any< long>( "user size");
   v_cover( "all");
   v_assert( holder().get( common::buffer::handle::type{ buffer.handle}, user).transport() == static_cast< long>( buffer.size), "all the data is sent");
}
