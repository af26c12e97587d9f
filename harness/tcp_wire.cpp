// @property C11
// @tu middleware/common/source/communication/tcp.cpp
// @tu middleware/common/source/communication/tcp/message.cpp
// @tu middleware/common/source/communication/socket.cpp
// @tu middleware/common/source/network/byteorder.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/convert.cpp
// @tu middleware/common/source/code/system.cpp
// @tu middleware/common/source/code/serialize.cpp
// @config skip casual::common::stream::write<
// @assume recv and sendmsg transfer any part of what they are asked to, in order, or fail
// @entry h_tcp_header covers=all : what is put in the header is what is read from it, in network byte order
// @entry h_tcp_send covers=part,whole,block,header : a send continues exactly where the previous one stopped and is done exactly when everything is sent, from any state
// @entry h_tcp_receive covers=part,whole,block,header : a receive continues exactly where the previous one stopped and is done exactly when everything is received, from any state
// @entry h_tcp_boundary covers=all : after a whole message the next one starts afresh, and the one received is left as it is
// @entry h_tcp_failure covers=closed,failed : a connection that is closed or fails is never taken for a message
#include "v.h"
#include "v_os.h"
#include "common/communication/tcp.h"
#include "common/communication/tcp/message.h"
#include "common/communication/log.h"

#include <cerrno>
#include <sys/socket.h>
#include <fcntl.h>

namespace common = casual::common;
namespace tcp = casual::common::communication::tcp;
namespace message = tcp::message;

constexpr long header_size = 32;

namespace
{
   struct Kernel
   {
      // send: what is presented
      const char* first = nullptr;
      std::size_t first_size = 0;
      const char* second = nullptr;
      std::size_t second_size = 0;
      int sends = 0;

      // receive: the incoming stream
      char header[ header_size];
      const char* payload = nullptr;
      long size = 0;
      long position = 0;
      int receives = 0;
      bool in_place = true;

      // what the call answers
      long count = 0;
      int error = 0;
      bool closed = false;
      const char* expected = nullptr;
   } kernel;
}

extern "C"
{
   ssize_t sendmsg( int, const msghdr* message, int)
   {
      ++kernel.sends;
      kernel.first = static_cast< const char*>( message->msg_iov[ 0].iov_base);
      kernel.first_size = message->msg_iov[ 0].iov_len;
      if( message->msg_iovlen > 1)
      {
         kernel.second = static_cast< const char*>( message->msg_iov[ 1].iov_base);
         kernel.second_size = message->msg_iov[ 1].iov_len;
      }
      std::size_t total = kernel.first_size + kernel.second_size;
      if( kernel.error)
      {
         errno = kernel.error;
         return -1;
      }
      kernel.count = v_range< long>( total ? 1 : 0, 1L << 40, "count");
      v_assume( kernel.count <= static_cast< long>( total));
      return kernel.count;
   }

   ssize_t recv( int, void* buffer, size_t size, int)
   {
      ++kernel.receives;
      if( kernel.error)
      {
         errno = kernel.error;
         return -1;
      }
      if( kernel.closed || size == 0)
         return 0;
      long available = kernel.position < header_size ? header_size - kernel.position : header_size + kernel.size - kernel.position;
      long count = v_range< long>( 1, 1L << 40, "count");
      // the rest of the stream may not have arrived
      v_assume( count <= static_cast< long>( size));
      v_assert( static_cast< long>( size) <= available, "no more is asked for than what belongs to the message");
      if( kernel.position < header_size)
         std::memcpy( buffer, kernel.header + kernel.position, count);
      else
         std::memcpy( buffer, kernel.payload + ( kernel.position - header_size), count);
      kernel.position += count;
      kernel.count += count;
      return count;
   }

   int fcntl( int, int, ...) { return 0;}
   int close( int) { return 0;}
}

namespace
{
   constexpr long max_size = 1L << 30;

   message::Complete any_complete( long& size)
   {
      size = v_range< long>( 1, max_size, "size");
      v_size( size);
      casual::platform::binary::type payload( size);
      common::Uuid id;
      v_sym( id.get(), 16, "correlation");
      auto type = v_any< common::message::Type>( "type");
      v_assume( type != common::message::Type::absent_message);
      return { type, common::strong::correlation::id{ id}, std::move( payload)};
   }

   tcp::Connector connector() { return tcp::Connector{ common::communication::Socket{ common::strong::socket::id{ 5}}};}
}

extern "C" void h_tcp_header()
{
   long size = v_range< long>( 0, max_size, "size");
   v_size( size);
   common::Uuid id;
   v_sym( id.get(), 16, "correlation");
   auto type = v_any< common::message::Type>( "type");
   message::Complete complete{ type, common::strong::correlation::id{ id}, casual::platform::binary::type( size)};
   v_assert( complete.type() == type, "the type is what was set");
   v_assert( complete.size() == size, "the size is that of the payload");
   v_assert( complete.correlation() == common::strong::correlation::id{ id}, "the correlation is what was set");
   v_assert( message::header::size == header_size, "the header has a fixed size");
   // type, correlation and size in network byte order
   auto bytes = reinterpret_cast< const unsigned char*>( complete.header_data());
   unsigned long wire_type = 0, wire_size = 0;
   for( int i = 0; i < 8; ++i)
   {
      wire_type = ( wire_type << 8) | bytes[ i];
      wire_size = ( wire_size << 8) | bytes[ 24 + i];
   }
   v_assert( wire_type == static_cast< unsigned long>( std::to_underlying( type)), "the type comes first");
   v_assert( wire_size == static_cast< unsigned long>( size), "the size comes last");
   auto index = v_range< int>( 0, 15, "index");
   v_assert( bytes[ 8 + index] == id.get()[ index], "the correlation is in between");
   v_cover( "all");
}

extern "C" void h_tcp_send()
{
   long size;
   auto complete = any_complete( size);
   long offset = v_range< long>( 0, header_size + max_size, "offset");
   v_assume( offset < header_size + size);
   complete.offset = offset;
   auto device = connector();
   bool block = v_any< bool>( "block");
   kernel.error = block ? EAGAIN : 0;
   auto correlation = complete.correlation();
   auto header = complete.header_data();
   auto payload = reinterpret_cast< const char*>( complete.payload.data());

   auto result = tcp::policy::non::Blocking{}.send( device, complete);

   v_assert( kernel.sends == 1, "one attempt is made");
   if( offset < header_size)
   {
      v_assert( kernel.first == header + offset && kernel.first_size == static_cast< std::size_t>( header_size - offset), "the rest of the header is sent first");
      v_assert( kernel.second == payload && kernel.second_size == static_cast< std::size_t>( size), "the payload follows the header");
      v_cover( "header");
   }
   else
      v_assert( kernel.first == payload + ( offset - header_size) && kernel.first_size == static_cast< std::size_t>( header_size + size - offset) && kernel.second_size == 0, "the rest of the payload is sent");
   v_assert( complete.payload.data() == reinterpret_cast< const std::byte*>( payload) && static_cast< long>( complete.payload.size()) == size && complete.correlation() == correlation, "the message is what it was");
   if( block)
   {
      v_cover( "block");
      v_assert( complete.offset == offset && ! result, "nothing is sent when the connection is full");
      return;
   }
   v_assert( complete.offset == offset + kernel.count, "what is accepted is not sent again");
   bool whole = offset + kernel.count == header_size + size;
   v_assert( common::predicate::boolean( result) == whole || ! correlation, "the message is sent when all of it is accepted, not before");
   if( whole)
   {
      v_cover( "whole");
      v_assert( result == correlation, "the correlation of the message is returned");
   }
   else
      v_cover( "part");
}

namespace
{
   //! a message that is received up to `offset`, of the incoming stream
   void incoming( long offset)
   {
      common::Uuid id;
      v_sym( id.get(), 16, "correlation");
      auto type = v_any< common::message::Type>( "type");
      v_assume( type != common::message::Type::absent_message);
      kernel.size = v_range< long>( 1, max_size, "size");
      v_size( kernel.size);
      message::Complete complete{ type, common::strong::correlation::id{ id}, casual::platform::binary::type( kernel.size)};
      std::memcpy( kernel.header, complete.header_data(), header_size);
      kernel.payload = static_cast< const char*>( v_alloc( kernel.size, "payload"));
      kernel.position = offset;
   }
}

extern "C" void h_tcp_receive()
{
   long offset = v_range< long>( 0, header_size + max_size, "offset");
   incoming( offset);
   v_assume( offset < header_size + kernel.size);
   auto index = v_range< long>( 0, max_size, "index");
   v_assume( index < kernel.size);

   tcp::policy::cache_type cache;
   if( offset > 0)
   {
      auto& complete = cache.emplace_back();
      complete.offset = offset;
      if( offset < header_size)
         std::memcpy( complete.header_data(), kernel.header, offset);
      else
      {
         std::memcpy( complete.header_data(), kernel.header, header_size);
         complete.payload.resize( kernel.size);
         std::memcpy( complete.payload.data(), kernel.payload, offset - header_size);
      }
   }
   bool block = v_any< bool>( "block");
   kernel.error = block ? EAGAIN : 0;
   auto device = connector();

   auto result = tcp::policy::non::Blocking{}.receive( device, cache);

   if( block)
   {
      v_cover( "block");
      v_assert( ! result, "nothing is received");
      v_assert( offset > 0 ? cache.size() == 1 && cache[ 0].offset == offset : cache.empty(), "what is received so far is kept");
      return;
   }
   v_assert( cache.size() == 1, "there is one message");
   auto& complete = cache[ 0];
   v_assert( complete.offset == offset + kernel.count && complete.offset == kernel.position, "every byte is consumed once");
   bool whole = complete.offset == header_size + kernel.size;
   v_assert( common::predicate::boolean( result) == whole && complete.complete() == whole, "the message is received when all of it is, not before");
   if( complete.offset >= header_size)
   {
      v_cover( "header");
      v_assert( std::memcmp( complete.header_data(), kernel.header, header_size) == 0, "the header is what was sent");
      v_assert( static_cast< long>( complete.payload.size()) == kernel.size, "the payload has the size that was sent");
      if( index < complete.offset - header_size)
         v_assert( std::to_integer< char>( complete.payload[ index]) == kernel.payload[ index], "the payload is what was sent");
   }
   else
   {
      auto position = v_range< long>( 0, header_size - 1, "position");
      if( position < complete.offset)
         v_assert( complete.header_data()[ position] == kernel.header[ position], "the header is what was sent so far");
   }
   if( whole)
   {
      v_cover( "whole");
      v_assert( std::begin( result) == std::begin( cache) && result.size() == 1, "the message is returned");
   }
   else
      v_cover( "part");
}

extern "C" void h_tcp_boundary()
{
   // one message is received, but not consumed
   tcp::policy::cache_type cache;
   long size;
   auto& first = cache.emplace_back( any_complete( size));
   first.offset = header_size + size;
   auto correlation = first.correlation();
   auto type = first.type();
   auto payload = first.payload.data();
   v_assert( first.complete(), "the first is complete");
   incoming( 0);
   auto device = connector();

   auto result = tcp::policy::non::Blocking{}.receive( device, cache);

   v_assert( cache.size() == 2, "the next message is a message of its own");
   v_assert( cache[ 0].offset == header_size + size && cache[ 0].payload.data() == payload && static_cast< long>( cache[ 0].payload.size()) == size
      && cache[ 0].correlation() == correlation && cache[ 0].type() == type, "the first message is left as it is");
   v_assert( cache[ 1].offset == kernel.position, "the next message starts from the beginning");
   v_assert( common::predicate::boolean( result) == cache[ 1].complete(), "only a whole message is returned");
   v_cover( "all");
}

extern "C" void h_tcp_failure()
{
   long offset = v_range< long>( 0, header_size + max_size, "offset");
   incoming( offset);
   v_assume( offset < header_size + kernel.size);
   tcp::policy::cache_type cache;
   if( offset > 0)
   {
      auto& complete = cache.emplace_back();
      complete.offset = offset;
      std::memcpy( complete.header_data(), kernel.header, offset < header_size ? offset : header_size);
      if( offset >= header_size)
         complete.payload.resize( kernel.size);
   }
   kernel.closed = v_any< bool>( "closed");
   if( ! kernel.closed)
   {
      kernel.error = v_range< int>( 1, 133, "errno");
      v_assume( kernel.error != EAGAIN);
   }
   auto device = connector();
   bool raised = false;
   try
   {
      auto result = tcp::policy::non::Blocking{}.receive( device, cache);
   }
   catch( const std::system_error& error)
   {
      raised = true;
      if( kernel.closed)
         v_assert( error.code() == common::code::casual::communication_unavailable, "a closed connection is reported as such");
   }
   v_assert( raised, "the failure is reported");
   v_assert( offset > 0 ? cache.size() == 1 && cache[ 0].offset == offset : cache.empty(), "what is received so far is not changed");
   if( kernel.closed) v_cover( "closed"); else v_cover( "failed");
}
