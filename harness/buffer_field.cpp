// @property C03
// @tu middleware/buffer/source/field.cpp
// @tu middleware/common/source/buffer/pool.cpp
// @tu middleware/common/source/buffer/type.cpp
// @tu middleware/common/source/code/xatmi.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/exception/capture.cpp
// @tu middleware/common/source/network/byteorder.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/exception/guard.cpp
// @tu middleware/common/source/code/serialize.cpp
// @entry h_field_inbound_block time=400 covers=accepted,refused bounded : arbitrary received bytes are refused or every block is found where it is, inside the payload
// @entry h_field_inbound_string time=400 covers=accepted,refused bounded : arbitrary received bytes are refused or every string is found where it is, inside the payload
// @entry h_field_inbound_plain time=400 covers=accepted,refused bounded : arbitrary received bytes are refused or every field is found where it is, inside the payload
// @entry h_field_get covers=found,missing,type bounded : reading an occurrence gives exactly the value that is stored
// @entry h_field_add covers=found,missing,refused bounded : adding a field appends exactly that field and keeps the others
// @entry h_field_set_plain solver=60000 time=400 covers=found,missing,refused bounded : updating an occurrence changes exactly that field
// @entry h_field_set_string solver=60000 time=300 covers=found,missing,refused bounded : updating an occurrence changes exactly that field
// @entry h_field_set_block solver=60000 time=300 covers=found,missing,refused bounded : updating an occurrence changes exactly that field
// @entry h_field_cut_three time=700 tier=thorough covers=found,missing,refused bounded : removing an occurrence removes exactly that field
// @entry h_field_cut time=300 covers=found,missing,refused bounded : removing an occurrence removes exactly that field
// @entry h_field_iterate time=400 covers=all bounded : iteration visits every field exactly once
// @entry h_field_copy covers=found,missing bounded : copying a buffer gives the same fields
#include "v.h"
#include "casual/buffer/field.h"
#include "common/buffer/pool.h"

#include <cstring>
#include <exception>

namespace common = casual::common;

namespace
{
   constexpr std::size_t header = 16;

   std::uint64_t big_endian( const unsigned char* where, std::size_t count)
   {
      std::uint64_t result = 0;
      for( std::size_t i = 0; i < count; ++i)
         result = ( result << 8) | where[ i];
      return result;
   }

   struct Field
   {
      long id;
      std::size_t offset; // of the value
      std::size_t size;
      const unsigned char* value;
   };

   //! what a buffer shall hold
   struct Model
   {
      Field fields[ 4];
      int count = 0;

      int find( long id, long occurrence) const
      {
         for( int i = 0; i < count; ++i)
            if( fields[ i].id == id && occurrence-- == 0)
               return i;
         return -1;
      }

      std::size_t size() const
      {
         std::size_t result = 0;
         for( int i = 0; i < count; ++i)
            result += header + fields[ i].size;
         return result;
      }
   };

   char* insert( const unsigned char* content, std::size_t size)
   {
      common::buffer::Payload payload{ CASUAL_FIELD "/", casual::platform::binary::type( size)};
      if( size > 0)
         std::memcpy( payload.data.data(), content, size);
      try
      {
         return std::get< 0>( common::buffer::pool::holder().insert( std::move( payload))).raw();
      }
      catch( const std::exception&)
      {
         return nullptr;
      }
   }

   std::size_t type_size( long type)
   {
      switch( type)
      {
         case CASUAL_FIELD_SHORT: return 2;
         case CASUAL_FIELD_LONG: return 8;
         case CASUAL_FIELD_CHAR: return 1;
         case CASUAL_FIELD_FLOAT: return 4;
         case CASUAL_FIELD_DOUBLE: return 8;
         default: return 0;
      }
   }

   //! a well formed buffer with `count` fields of arbitrary ids and values
   struct Buffer : Model
   {
      Buffer( int max, int first = 0, int last = 2, bool small = false)
      {
         v_bound( "fields in the buffer");
         if( small)
            v_bound( "size of the values < 2^12");
         count = v_pick( 0, max, "fields");
         std::size_t size = 0;
         for( int i = 0; i < count; ++i)
         {
            auto& field = fields[ i];
            // plain types have a fixed size, strings are terminated
            auto type = v_pick( first, last, "kind");
            field.id = v_any< long>( "id");
            if( type == 0)
            {
               static const long plain[] = { CASUAL_FIELD_LONG, CASUAL_FIELD_SHORT};
               auto which = i == 0 ? v_one_of( plain, "plain") : plain[ 0];
               v_assume( field.id / CASUAL_FIELD_TYPE_BASE == which);
               field.size = type_size( which);
            }
            else
            {
               v_assume( field.id / CASUAL_FIELD_TYPE_BASE == ( type == 1 ? CASUAL_FIELD_STRING : CASUAL_FIELD_BINARY));
               if( small)
                  field.size = v_any< unsigned short>( "size") & 0xfff;
               else
                  field.size = v_any< std::size_t>( "size");
               v_assume( field.size <= std::size_t{ 1} << 30);
               if( type == 1)
                  v_assume( field.size > 0);
            }
            v_assume( field.id > 0);
            field.offset = size + header;
            size += header + field.size;
         }
         auto bytes = static_cast< unsigned char*>( v_alloc( size, "content"));
         content = bytes;
         for( int i = 0; i < count; ++i)
         {
            auto& field = fields[ i];
            field.value = content + field.offset;
            for( std::size_t b = 0; b < 8; ++b)
            {
               bytes[ field.offset - header + b] = static_cast< unsigned char>( static_cast< std::uint64_t>( field.id) >> ( 8 * ( 7 - b)));
               bytes[ field.offset - 8 + b] = static_cast< unsigned char>( field.size >> ( 8 * ( 7 - b)));
            }
            if( field.id / CASUAL_FIELD_TYPE_BASE == CASUAL_FIELD_STRING)
               bytes[ field.offset + field.size - 1] = 0;
         }
         handle = insert( content, size);
         v_assert( handle, "a well formed buffer is accepted");
      }

      const unsigned char* content;
      char* handle;
   };

   template< typename T, std::size_t size>
   void get_plain( const char* handle, long id, long occurrence, int (*function)( const char*, long, long, T*), const Field& field)
   {
      T value{};
      v_assert( function( handle, id, occurrence, &value) == CASUAL_FIELD_SUCCESS, "the stored value is read");
      std::uint64_t bits = 0;
      std::memcpy( &bits, &value, size);
      v_assert( bits == big_endian( field.value, size), "the value that is read is the value that is stored");
   }

   //! an arbitrary query on the buffer gives what the model says
   void compare( const char* handle, const Model& model)
   {
      long used = -1;
      v_assert( casual_field_explore_buffer( handle, nullptr, &used) == CASUAL_FIELD_SUCCESS, "the returned handle is the buffer");
      v_assert( used == static_cast< long>( model.size()), "the used size is the size of the fields");

      auto id = v_any< long>( "query id");
      auto occurrence = v_any< long>( "query occurrence");
      v_assume( id > 0);
      auto found = model.find( id, occurrence);

      if( found < 0)
      {
         v_cover( "missing");
         v_assert( casual_field_explore_value( handle, id, occurrence, nullptr) == CASUAL_FIELD_OUT_OF_BOUNDS, "an absent occurrence is reported");
         return;
      }
      v_cover( "found");
      const auto& field = model.fields[ found];

      switch( id / CASUAL_FIELD_TYPE_BASE)
      {
         case CASUAL_FIELD_SHORT: get_plain< short, 2>( handle, id, occurrence, &casual_field_get_short, field); break;
         case CASUAL_FIELD_LONG: get_plain< long, 8>( handle, id, occurrence, &casual_field_get_long, field); break;
         case CASUAL_FIELD_CHAR: get_plain< char, 1>( handle, id, occurrence, &casual_field_get_char, field); break;
         case CASUAL_FIELD_FLOAT: get_plain< float, 4>( handle, id, occurrence, &casual_field_get_float, field); break;
         case CASUAL_FIELD_DOUBLE: get_plain< double, 8>( handle, id, occurrence, &casual_field_get_double, field); break;
         default:
         {
            const char* value = nullptr;
            long size = -1;
            if( id / CASUAL_FIELD_TYPE_BASE == CASUAL_FIELD_STRING)
            {
               v_assert( casual_field_get_string( handle, id, occurrence, &value) == CASUAL_FIELD_SUCCESS, "the stored string is read");
               v_assert( casual_field_explore_value( handle, id, occurrence, &size) == CASUAL_FIELD_SUCCESS, "the stored string has a size");
            }
            else if( id / CASUAL_FIELD_TYPE_BASE == CASUAL_FIELD_BINARY)
               v_assert( casual_field_get_binary( handle, id, occurrence, &value, &size) == CASUAL_FIELD_SUCCESS, "the stored block is read");
            else
               return;
            v_assert( size == static_cast< long>( field.size), "the size is the size that is stored");
            v_assert( value == handle + field.offset, "the value is found where it is stored");
            auto any = v_any< std::size_t>( "any");
            if( any < field.size)
               v_assert( static_cast< unsigned char>( value[ any]) == field.value[ any], "the bytes are the bytes that are stored");
         }
      }
   }
}

namespace
{
   struct Inbound
   {
      Inbound( long type)
      {
         v_bound( "size of the payload");
         size = v_any< std::size_t>( "size");
         v_assume( size < 2 * header + 16);
         auto content = static_cast< const unsigned char*>( v_alloc( size, "content"));
         handle = insert( content, size);
         if( ! handle)
         {
            v_cover( "refused");
            id = occurrence = 0;
            return;
         }
         v_cover( "accepted");
         id = v_any< long>( "id");
         v_assume( id / CASUAL_FIELD_TYPE_BASE == type);
         occurrence = v_any< long>( "occurrence");
      }

      std::size_t size;
      char* handle;
      long id;
      long occurrence;
   };
}

extern "C" void h_field_inbound_block()
{
   Inbound in{ CASUAL_FIELD_BINARY};
   const char* value = nullptr;
   long count = -1;
   if( in.handle && casual_field_get_binary( in.handle, in.id, in.occurrence, &value, &count) == CASUAL_FIELD_SUCCESS)
   {
      v_assert( count >= 0 && value >= in.handle + header && value <= in.handle + in.size, "a block starts inside the payload");
      v_assert( count <= in.handle + in.size - value, "a block ends inside the payload");
   }
}

extern "C" void h_field_inbound_string()
{
   Inbound in{ CASUAL_FIELD_STRING};
   const char* value = nullptr;
   if( in.handle && casual_field_get_string( in.handle, in.id, in.occurrence, &value) == CASUAL_FIELD_SUCCESS)
   {
      v_assert( value >= in.handle + header && value < in.handle + in.size, "a string starts inside the payload");
      v_assert( std::memchr( value, 0, in.handle + in.size - value), "a string ends inside the payload");
   }
}

extern "C" void h_field_inbound_plain()
{
   static const long types[] = { CASUAL_FIELD_LONG, CASUAL_FIELD_SHORT};
   auto type = v_one_of( types, "type");
   Inbound in{ type};
   if( type == CASUAL_FIELD_LONG)
   {
      long value = 0;
      if( in.handle && casual_field_get_long( in.handle, in.id, in.occurrence, &value) == CASUAL_FIELD_SUCCESS)
         v_assert( in.size >= header + 8, "a long is inside the payload");
   }
   else
   {
      short value = 0;
      if( in.handle && casual_field_get_short( in.handle, in.id, in.occurrence, &value) == CASUAL_FIELD_SUCCESS)
         v_assert( in.size >= header + 2, "a short is inside the payload");
   }
}

extern "C" void h_field_get()
{
   Buffer buffer{ 2};
   if( v_pick( 0, 1, "query"))
      compare( buffer.handle, buffer);
   else
   {
      // wrong type
      auto id = v_any< long>( "id");
      v_assume( id / CASUAL_FIELD_TYPE_BASE != CASUAL_FIELD_LONG);
      long value = 42;
      v_cover( "type");
      v_assert( casual_field_get_long( buffer.handle, id, v_any< long>( "occurrence"), &value) == CASUAL_FIELD_INVALID_ARGUMENT, "a field of another type is refused");
      v_assert( value == 42, "nothing is read");
   }
}

namespace
{
   //! a value, and its encoding
   struct Value
   {
      Value( int first, int last, bool small = false)
      {
         type = types[ v_pick( first, last, "type")];
         auto plain = type_size( type);
         size = plain;
         if( ! plain)
         {
            size = small ? v_any< unsigned short>( "value size") & 0xfff : v_any< std::size_t>( "value size");
            v_assume( size <= std::size_t{ 1} << 30);
            if( type == CASUAL_FIELD_STRING)
               v_assume( size > 0);
         }
         data = static_cast< const unsigned char*>( v_alloc( size, "value"));
         encoded = data;
         if( plain)
         {
            for( std::size_t i = 0; i < plain; ++i)
               bytes[ i] = data[ plain - 1 - i];
            encoded = bytes;
         }
         if( type == CASUAL_FIELD_STRING)
         {
            v_assume( data[ size - 1] == 0);
            v_assume( std::strlen( reinterpret_cast< const char*>( data)) == size - 1);
         }
      }

      static constexpr long types[] = { CASUAL_FIELD_SHORT, CASUAL_FIELD_LONG, CASUAL_FIELD_CHAR, CASUAL_FIELD_FLOAT, CASUAL_FIELD_DOUBLE, CASUAL_FIELD_STRING, CASUAL_FIELD_BINARY};
      long type;
      std::size_t size;
      const unsigned char* data;
      const unsigned char* encoded;
      unsigned char bytes[ 8];
   };
}

extern "C" void h_field_add()
{
   Buffer buffer{ 1};
   Value value{ 0, 6};
   auto id = v_any< long>( "id");
   auto valid = v_pick( 0, 1, "valid");
   if( valid)
      v_assume( id / CASUAL_FIELD_TYPE_BASE == value.type);
   else
      v_assume( id / CASUAL_FIELD_TYPE_BASE < CASUAL_FIELD_SHORT || id / CASUAL_FIELD_TYPE_BASE > CASUAL_FIELD_BINARY);
   auto result = casual_field_add_value( &buffer.handle, id, value.data, value.size);
   if( valid)
   {
      v_assert( result == CASUAL_FIELD_SUCCESS, "the field is added");
      buffer.fields[ buffer.count] = Field{ id, buffer.size() + header, value.size, value.encoded};
      ++buffer.count;
   }
   else
   {
      v_cover( "refused");
      v_assert( result == CASUAL_FIELD_INVALID_ARGUMENT, "a field of unknown type is refused");
   }
   compare( buffer.handle, buffer);
}

static void set( Value value, Buffer buffer)
{
   auto id = v_any< long>( "id");
   v_assume( id / CASUAL_FIELD_TYPE_BASE == value.type);
   auto occurrence = v_any< long>( "occurrence");
   auto result = casual_field_set_value( &buffer.handle, id, occurrence, value.data, value.size);
   auto found = buffer.find( id, occurrence);
   if( found < 0)
   {
      v_cover( "refused");
      v_assert( result == CASUAL_FIELD_OUT_OF_BOUNDS, "an absent occurrence is reported");
   }
   else
   {
      v_assert( result == CASUAL_FIELD_SUCCESS, "the field is updated");
      auto shift = value.size - buffer.fields[ found].size;
      buffer.fields[ found].size = value.size;
      buffer.fields[ found].value = value.encoded;
      for( auto i = found + 1; i < buffer.count; ++i)
         buffer.fields[ i].offset += shift;
   }
   compare( buffer.handle, buffer);
}

extern "C" void h_field_set_plain() { set( Value{ 0, 4}, Buffer{ 2}); }
extern "C" void h_field_set_string() { set( Value{ 5, 5, true}, Buffer{ 2, 1, 1, true}); }
extern "C" void h_field_set_block() { set( Value{ 6, 6, true}, Buffer{ 2, 2, 2, true}); }

static void cut( Buffer buffer)
{
   auto id = v_any< long>( "id");
   auto occurrence = v_any< long>( "occurrence");
   auto result = casual_field_remove_occurrence( buffer.handle, id, occurrence);
   auto found = buffer.find( id, occurrence);
   if( id <= 0)
   {
      v_cover( "refused");
      v_assert( result == CASUAL_FIELD_INVALID_ARGUMENT, "an invalid id is refused");
   }
   else if( found < 0)
      v_assert( result == CASUAL_FIELD_OUT_OF_BOUNDS, "an absent occurrence is reported");
   else
   {
      v_assert( result == CASUAL_FIELD_SUCCESS, "the field is removed");
      auto shift = buffer.fields[ found].size + header;
      for( auto i = found + 1; i < buffer.count; ++i)
      {
         buffer.fields[ i - 1] = buffer.fields[ i];
         buffer.fields[ i - 1].offset -= shift;
      }
      --buffer.count;
   }
   compare( buffer.handle, buffer);
}

extern "C" void h_field_cut() { cut( Buffer{ 2, 1, 2, true}); }
extern "C" void h_field_cut_three() { cut( Buffer{ 3, 2, 2, true}); }

extern "C" void h_field_iterate()
{
   Buffer buffer{ 2, 2};
   long id = 0, index = 0;
   int visited = 0;
   bool seen[ 4] = {};
   for( auto result = casual_field_next( buffer.handle, &id, &index); ; result = casual_field_next( buffer.handle, &id, &index))
   {
      if( result != CASUAL_FIELD_SUCCESS)
      {
         v_assert( result == CASUAL_FIELD_OUT_OF_BOUNDS, "the end is reported");
         break;
      }
      auto found = buffer.find( id, index);
      v_assert( found >= 0, "only existing fields are visited");
      v_assert( ! seen[ found], "no field is visited twice");
      seen[ found] = true;
      ++visited;
   }
   v_cover( "all");
   v_assert( visited == buffer.count, "every field is visited");
   long occurrences = -1;
   v_assert( casual_field_occurrences_in_buffer( buffer.handle, &occurrences) == CASUAL_FIELD_SUCCESS, "occurrences are counted");
   v_assert( occurrences == buffer.count, "the number of occurrences is the number of fields");
}

extern "C" void h_field_copy()
{
   Buffer source{ 2};
   char* target = insert( nullptr, 0);
   if( v_pick( 0, 1, "operation"))
      v_assert( casual_field_copy_buffer( &target, source.handle) == CASUAL_FIELD_SUCCESS, "the buffer is copied");
   else
      v_assert( casual_field_copy_memory( &target, source.content, source.size()) == CASUAL_FIELD_SUCCESS, "the memory is copied");
   compare( target, source);
}
