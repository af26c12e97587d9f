// @property C07
// @tu middleware/common/source/transaction/global.cpp
// @entry h_global_text covers=all bounded unroll=140 : a global id in text form is the same id when it is read back
// @entry h_xid_hash covers=all bounded unroll=140 : equal global ids have equal hash, whatever form they have
// @entry h_global_read covers=read,wrong bounded unroll=140 : a global id is read from text exactly when it is the hexadecimal form of 1 to 64 bytes
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @tu middleware/common/source/uuid.cpp
// @config skip ^std::basic_regex<
// @config replace ^bool~std::regex_match< model_regex_match
// @config replace ^std::(basic_)?istream.*~std::operator>> model_read
// @assume std::regex_match against [a-f0-9]+ accepts exactly that, and a string is read from a stream as it is
#include "v.h"
#include "common/transaction/global.h"
#include "common/transcode.h"

#include "common/code/casual.h"
#include <istream>
namespace common = casual::common;
namespace transaction = casual::common::transaction;

namespace
{
   auto span( const unsigned char* data, std::size_t size)
   {
      auto first = reinterpret_cast< const std::byte*>( data);
      return transaction::global::id::range( first, first + size);
   }
}

namespace
{
   //! at most two symbolic bytes, at any place
   struct Sparse
   {
      Sparse()
      {
         static constexpr int sizes[] = { 0, 1, 2, 16, 31, 32};
         size = v_one_of( sizes, "size");
         for( int i = 0; i < 64; ++i)
            data[ i] = static_cast< unsigned char>( i * 37 + 11);
         if( size == 0)
            return;
         data[ v_pick< int>( 0, size - 1, "place")] = v_any< unsigned char>( "byte");
      }
      unsigned char data[ 64];
      int size;
   };
}

extern "C" void h_global_text()
{
   v_bound( "sizes 0, 1, 2, 16, 31 and 32, one arbitrary byte at any place");
   Sparse gtrid;
   auto text = common::transcode::hex::encode( span( gtrid.data, gtrid.size));
   v_assert( text.size() == static_cast< std::size_t>( gtrid.size) * 2, "two characters for each byte");
   transaction::global::ID id{ text};
   v_cover( "all");
   v_assert( id.range().size() == gtrid.size, "the size is kept");
   for( int i = 0; i < gtrid.size; ++i)
      v_assert( static_cast< unsigned char>( *( id.range().data() + i)) == gtrid.data[ i], "the bytes are kept");
}

extern "C" void h_xid_hash()
{
   v_bound( "sizes 0, 1, 2, 16, 31 and 32, one arbitrary byte at any place");
   Sparse gtrid;
   transaction::global::ID id{ span( gtrid.data, gtrid.size)};
   v_cover( "all");
   v_assert( transaction::global::hash{}( id) == transaction::global::hash{}( span( gtrid.data, gtrid.size)), "the hash does not depend on the form");
   v_assert( std::hash< transaction::global::ID>{}( id) == transaction::global::hash{}( id), "the hash does not depend on the form");
}

namespace
{
   std::string input;
}

extern "C" bool model_regex_match( const std::string& text, const void*, int)
{
   for( char c : text)
      if( ! ( ( c >= '0' && c <= '9') || ( c >= 'a' && c <= 'f')))
         return false;
   return ! text.empty();
}

extern "C" std::istream& model_read( std::istream& in, std::string& text)
{
   text = input;
   return in;
}

extern "C" void h_global_read()
{
   v_bound( "1 to 130 characters, one arbitrary character at any place");
   auto size = v_pick< int>( 1, 130, "size");
   constexpr char digits[] = "0123456789abcdef";
   for( int i = 0; i < size; ++i)
      input += digits[ ( i * 7 + 3) % 16];
   if( size > 128)
      return; // more than what a global id can be
   auto place = size - 1;
   auto c = v_any< char>( "character");
   input[ place] = c;

   bool hex = ( ( c >= '0') & ( c <= '9')) | ( ( c >= 'a') & ( c <= 'f'));

   transaction::global::ID id;
   alignas( std::istream) char memory[ sizeof( std::istream)];
   auto& in = *reinterpret_cast< std::istream*>( memory);
   try
   {
      in >> id;
      v_assert( hex & ( size % 2 == 0), "only the hexadecimal form of bytes is accepted");
      v_assert( id.range().size() == size / 2, "two characters for each byte");
      auto text = common::transcode::hex::encode( id.range());
      v_assert( text == input, "the id has the text it was read from");
      v_cover( "read");
   }
   catch( const std::system_error&)
   {
      v_assert( ! hex | ( size % 2 == 1), "the text form of every id is accepted");
      v_cover( "wrong");
   }
}
