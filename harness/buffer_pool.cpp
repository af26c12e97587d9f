// @property C05
// @tu middleware/xatmi/source/xatmi/explicit/buffer.cpp
// @tu middleware/xatmi/source/xatmi/internal/code.cpp
// @tu middleware/common/source/buffer/pool.cpp
// @tu middleware/common/source/buffer/type.cpp
// @tu middleware/common/source/buffer/x_octet.cpp
// @tu middleware/common/source/code/xatmi.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/signal.cpp
// @tu middleware/common/source/exception/capture.cpp
// @tu middleware/common/source/exception/guard.cpp
// @tu middleware/common/source/code/serialize.cpp
// @tu middleware/common/source/network/byteorder.cpp
// @tu middleware/common/source/uuid.cpp
// @entry h_pool_allocate covers=fresh bounded : an allocated buffer has its own memory, is zero initialised, has the requested size and type, and no other buffer changes
// @entry h_pool_reallocate covers=kept,moved bounded time=400 : resizing keeps type and the content that fits, and no other buffer changes
// @entry h_pool_free covers=gone,inbound,unknown bounded : free removes exactly that buffer, never the inbound one, and a handle that is not known changes nothing
// @entry h_pool_release covers=released,unknown bounded : a consumed buffer is handed over with the user supplied size, exactly once, and no other buffer changes
// @entry h_pool_get covers=sent,large,unknown bounded : what is sent is exactly the user supplied part of the buffer, never more than the buffer
// @entry h_pool_clear covers=all bounded : the end of an invocation frees the inbound buffers and nothing else
// @entry h_pool_types covers=known bounded : type and subtype are reported truncated to 8 and 16 bytes and nothing behind these are written
// @entry h_pool_null covers=all : the null buffer is accepted everywhere and is sent as null
// @entry h_pool_type_unknown covers=all : no buffer is created with a type that is not known
#include "v.h"
#include "casual/xatmi/explicit.h"
#include "casual/xatmi/internal/code.h"
#include "common/buffer/pool.h"

#include <cstring>
#include <exception>

namespace buffer = casual::common::buffer;

namespace
{
   auto& holder() { return buffer::pool::holder(); }

   constexpr int max = 2;

   struct Content
   {
      char* handle = nullptr;
      std::size_t size = 0;
      const unsigned char* content = nullptr;
      const char* type = nullptr;
      bool inbound = false;
   };

   const char* const types[] = { X_OCTET "/", ".json/"};

   Content create( bool first)
   {
      Content result;
      result.size = v_any< unsigned short>( "size") & 0xfff;
      result.content = static_cast< const unsigned char*>( v_alloc( result.size, "content"));
      result.type = first ? v_one_of( types, "type") : types[ 0];
      buffer::Payload payload{ result.type, casual::platform::binary::type( result.size)};
      if( result.size > 0)
         std::memcpy( payload.data.data(), result.content, result.size);
      result.inbound = v_pick< int>( 0, 1, "inbound") == 1;
      if( result.inbound)
         result.handle = holder().adopt( std::move( payload)).raw();
      else
         result.handle = std::get< 0>( holder().insert( std::move( payload))).raw();
      return result;
   }

   //! the pool holds any buffers, at most `max` of these
   struct Pool
   {
      Pool()
      {
         v_bound( "at most 2 live buffers, each smaller than 4096 bytes");
         count = v_pick< int>( 0, max, "count");
         for( int index = 0; index < count; ++index)
            buffers[ index] = create( index == 0);
      }

      //! the buffer is as it was
      void unchanged( const Content& content) const
      {
         v_assert( content.handle, "every buffer has a handle");
         auto send = holder().get( buffer::handle::type{ content.handle});
         v_assert( send.payload().data.data() == reinterpret_cast< const std::byte*>( content.handle), "the buffer is where it was");
         v_assert( static_cast< std::size_t>( send.payload().data.size()) == content.size, "the size of the buffer is unchanged");
         v_assert( send.payload().type == content.type, "the type of the buffer is unchanged");
         v_assert( holder().inbound( buffer::handle::type{ content.handle}) == content.inbound, "the buffer is inbound if it was");
         auto any = v_any< std::size_t>( "any");
         if( any < content.size)
            v_assert( static_cast< unsigned char>( content.handle[ any]) == content.content[ any], "the content of the buffer is unchanged");
      }

      void unchanged( int except = -1) const
      {
         for( int index = 0; index < count; ++index)
            if( index != except)
               unchanged( buffers[ index]);
      }

      int select() const
      {
         v_assume( count > 0);
         return v_pick< int>( 0, count - 1, "selected");
      }

      bool known( const char* handle) const
      {
         for( int index = 0; index < count; ++index)
            if( buffers[ index].handle == handle)
               return true;
         return false;
      }

      int count = 0;
      Content buffers[ max];
   };

   bool managed( const char* handle)
   {
      try
      {
         holder().get( buffer::handle::type{ handle});
         return true;
      }
      catch( const std::exception&)
      {
         return false;
      }
   }

   //! a pointer that is not the start of any buffer
   const char* stranger( const Pool& pool)
   {
      static char other[ 8];
      if( pool.count > 0 && v_pick< int>( 0, 1, "inside") == 1)
      {
         v_assume( pool.buffers[ 0].size > 1);
         return pool.buffers[ 0].handle + 1;
      }
      return other;
   }
}

extern "C" void h_pool_allocate()
{
   Pool pool;
   auto size = v_any< long>( "requested");
   v_assume( size <= 1l << 30);
   auto type = v_one_of( types, "new type");
   auto slash = std::strchr( type, '/');
   std::string main( type, slash);
   auto handle = casual_buffer_allocate( main.c_str(), v_pick< int>( 0, 1, "subtype") ? "" : nullptr, size);
   v_assert( handle, "the buffer is allocated");
   v_assert( casual::xatmi::internal::error::get() == casual::common::code::xatmi::ok, "no error is reported");
   v_assert( ! pool.known( handle), "the buffer has its own memory");
   auto expected = size < 0 ? 0 : size;
   auto send = holder().get( buffer::handle::type{ handle});
   v_assert( send.payload().data.size() == static_cast< std::size_t>( expected) && send.reserved() == expected, "the buffer has the requested size");
   v_assert( send.payload().type == type, "the buffer has the requested type");
   v_assert( ! holder().inbound( buffer::handle::type{ handle}), "an allocated buffer is not the inbound one");
   auto any = v_any< long>( "any byte");
   if( any >= 0 && any < expected)
   {
      v_cover( "fresh");
      v_assert( handle[ any] == 0, "no old data leaks in to a new buffer");
   }
   pool.unchanged();
}

extern "C" void h_pool_reallocate()
{
   Pool pool;
   auto selected = pool.select();
   auto& before = pool.buffers[ selected];
   auto size = v_any< long>( "requested");
   v_assume( size <= 1l << 30);
   auto handle = casual_buffer_reallocate( before.handle, size);
   v_assert( handle, "the buffer is resized");
   if( handle != before.handle)
   {
      v_cover( "moved");
      v_assert( ! managed( before.handle), "the handle from before is not valid any more");
   }
   auto expected = size < 0 ? 0 : size;
   auto send = holder().get( buffer::handle::type{ handle});
   v_assert( send.payload().data.size() == static_cast< std::size_t>( expected), "the buffer has the requested size");
   v_assert( send.payload().type == before.type, "the type is kept");
   v_assert( holder().inbound( buffer::handle::type{ handle}) == before.inbound, "the inbound buffer stays the inbound buffer");
   auto any = v_any< long>( "any byte");
   if( any >= 0 && any < expected)
   {
      if( any < static_cast< long>( before.size))
      {
         v_cover( "kept");
         v_assert( static_cast< unsigned char>( handle[ any]) == before.content[ any], "the content that fits is kept");
      }
      else
         v_assert( handle[ any] == 0, "no old data leaks in to the new part");
   }
   pool.unchanged( selected);
}

extern "C" void h_pool_free()
{
   Pool pool;
   if( pool.count == 0 || v_pick< int>( 0, 1, "strange") == 1)
   {
      v_cover( "unknown");
      casual_buffer_free( stranger( pool));
      pool.unchanged();
      return;
   }
   auto selected = pool.select();
   casual_buffer_free( pool.buffers[ selected].handle);
   if( pool.buffers[ selected].inbound)
   {
      v_cover( "inbound");
      pool.unchanged();
   }
   else
   {
      v_cover( "gone");
      v_assert( ! managed( pool.buffers[ selected].handle), "a buffer that is freed is gone");
      pool.unchanged( selected);
   }
}

extern "C" void h_pool_release()
{
   Pool pool;
   auto user = v_any< long>( "user size");
   if( pool.count == 0 || v_pick< int>( 0, 1, "strange") == 1)
   {
      v_cover( "unknown");
      bool failed = false;
      try { holder().release( buffer::handle::type{ stranger( pool)}, user); }
      catch( const std::exception&) { failed = true; }
      v_assert( failed, "a buffer that is not known can not be consumed");
      pool.unchanged();
      return;
   }
   auto selected = pool.select();
   auto& before = pool.buffers[ selected];
   v_assume( user >= 0 && user <= static_cast< long>( before.size));
   auto payload = holder().release( buffer::handle::type{ before.handle}, user);
   v_cover( "released");
   v_assert( payload.type == before.type, "the type is handed over");
   v_assert( static_cast< long>( payload.data.size()) == user, "the user supplied size is handed over");
   auto any = v_any< std::size_t>( "any byte");
   if( any < static_cast< std::size_t>( user))
      v_assert( static_cast< unsigned char>( payload.data[ any]) == before.content[ any], "the content is handed over");
   v_assert( ! managed( before.handle), "a consumed buffer can not be used again");
   pool.unchanged( selected);
}

extern "C" void h_pool_get()
{
   Pool pool;
   auto user = v_any< long>( "user size");
   if( pool.count == 0 || v_pick< int>( 0, 1, "strange") == 1)
   {
      v_cover( "unknown");
      v_assert( ! managed( stranger( pool)), "only the start of a buffer is a handle");
      pool.unchanged();
      return;
   }
   auto selected = pool.select();
   auto& before = pool.buffers[ selected];
   try
   {
      auto send = holder().get( buffer::handle::type{ before.handle}, user);
      v_cover( "sent");
      v_assert( user >= 0 && user <= static_cast< long>( before.size), "never more than the buffer is sent");
      v_assert( send.transport() == user, "the user supplied size is sent");
      v_assert( send.reserved() == static_cast< long>( before.size), "the reserved size is the size of the buffer");
   }
   catch( const std::exception&)
   {
      v_cover( "large");
      v_assert( user < 0 || user > static_cast< long>( before.size), "a valid size is accepted");
   }
   pool.unchanged();
}

extern "C" void h_pool_clear()
{
   Pool pool;
   v_cover( "all");
   holder().clear();
   for( int index = 0; index < pool.count; ++index)
   {
      if( pool.buffers[ index].inbound)
         v_assert( ! managed( pool.buffers[ index].handle), "the inbound buffer is freed");
      else
         pool.unchanged( pool.buffers[ index]);
   }
}

extern "C" void h_pool_types()
{
   Pool pool;
   auto selected = pool.select();
   v_cover( "known");
   char type[ 10];
   char subtype[ 18];
   std::memset( type, 'x', sizeof( type));
   std::memset( subtype, 'x', sizeof( subtype));
   bool t = v_pick< int>( 0, 1, "type wanted") == 1;
   bool s = v_pick< int>( 0, 1, "subtype wanted") == 1;
   auto size = casual_buffer_type( pool.buffers[ selected].handle, t ? type + 1 : nullptr, s ? subtype + 1 : nullptr);
   v_assert( size == static_cast< long>( pool.buffers[ selected].size), "the size is reported");
   v_assert( type[ 0] == 'x' && type[ 9] == 'x' && subtype[ 0] == 'x' && subtype[ 17] == 'x', "nothing else is written");
   if( t)
   {
      std::size_t length = std::strchr( pool.buffers[ selected].type, '/') - pool.buffers[ selected].type;
      for( std::size_t i = 0; i < 8; ++i)
         v_assert( type[ 1 + i] == ( i < length ? pool.buffers[ selected].type[ i] : 0), "the type is reported, zero filled");
   }
   if( s)
      for( int i = 0; i < 16; ++i)
         v_assert( subtype[ 1 + i] == 0, "the subtype is reported, zero filled");
   pool.unchanged();
}

extern "C" void h_pool_null()
{
   v_cover( "all");
   auto user = v_any< long>( "user size");
   casual_buffer_free( nullptr);
   v_assert( holder().get( buffer::handle::type{ static_cast< const char*>( nullptr)}, user).payload().null(), "null is sent as null");
   v_assert( holder().release( buffer::handle::type{ static_cast< const char*>( nullptr)}, user).null(), "null is consumed as null");
   v_assert( holder().release( buffer::handle::type{ static_cast< const char*>( nullptr)}).null(), "null is consumed as null");
   v_assert( ! holder().adopt( buffer::Payload{ nullptr}), "null is received as null");
   v_assert( ! std::get< 0>( holder().insert( buffer::Payload{ nullptr})), "null is received as null");
}

extern "C" void h_pool_type_unknown()
{
   v_cover( "all");
   char type[ 9];
   v_sym( type, 8, "type name");
   type[ 8] = '\0';
   for( auto known : { X_OCTET, ".binary", ".json", ".yaml", ".xml", ".ini"})
      v_assume( std::strcmp( type, known) != 0);
   auto handle = casual_buffer_allocate( type, nullptr, 10);
   v_assert( handle == nullptr, "a type that is not known is refused");
   v_assert( casual::xatmi::internal::error::get() == casual::common::code::xatmi::buffer_input, "the error is reported");
}
