// @property C11
// @tu middleware/common/source/communication/ipc.cpp
// @tu middleware/common/source/communication/ipc/message.cpp
// @tu middleware/common/source/communication/ipc/send.cpp
// @tu middleware/common/source/communication/select.cpp
// @tu middleware/common/source/communication/socket.cpp
// @tu middleware/common/source/exception/capture.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/convert.cpp
// @tu middleware/common/source/code/system.cpp
// @tu middleware/common/source/code/serialize.cpp
// @config skip casual::common::stream::write<
// @config emptystr casual::common::transcode::hex::encode<
// @assume a datagram is delivered whole, once and in the order it was sent, or the send fails
// @entry h_ipc_add covers=next,resent,gap,outside bounded : a part is added exactly where it belongs, a part that is resent is ignored, and a part that does not fit is refused
// @entry h_ipc_chunks covers=all bounded : a message is divided in consecutive parts that together are the message
// @entry h_ipc_transfer covers=all,resent bounded time=300 : a message that is sent is received whole and unchanged, also when the sender has to start over
// @entry h_ipc_interleaved covers=all,same bounded time=300 : messages from different senders do not mix, whatever the order their parts arrive in
// @entry h_ipc_partial covers=all bounded time=300 : a send that is interrupted continues where it was
// @entry h_ipc_coordinator covers=all,pending,lost bounded time=300 : pending messages reach each destination in the order they were sent, or the sender is told
#include "v.h"
#include "v_os.h"
#include "common/communication/ipc.h"
#include "common/communication/ipc/send.h"
#include "common/message/counter.h"
#include "common/environment.h"
#include "common/signal.h"

#include <cerrno>
#include <sys/socket.h>
#include <sys/un.h>

namespace common = casual::common;
namespace ipc = casual::common::communication::ipc;
namespace message = ipc::message;

constexpr long max_payload = message::transport::max_payload_size();
constexpr long header_size = message::transport::header_size();

namespace casual::common
{
   namespace message::counter::add
   {
      void sent( message::Type) noexcept {}
      void received( message::Type) noexcept {}
   }
   namespace environment::directory
   {
      const std::filesystem::path& ipc() { static const std::filesystem::path result{ "/i"}; return result;}
   }
   namespace signal
   {
      void dispatch() {}
   }
}

namespace
{
   struct Datagram
   {
      int descriptor = -1;
      std::string path;
      long size = 0;
      message::Transport transport;
   };

   struct Kernel
   {
      std::vector< Datagram> sent;
      //! what the next sends answer: 0 - accepted
      std::vector< int> answers;
      std::size_t calls = 0;
      const Datagram* next = nullptr;
      int sockets = 10;
   };
   Kernel& kernel() { static Kernel result; return result;}
}

extern "C"
{
   ssize_t sendto( int descriptor, const void* data, size_t size, int, const sockaddr* address, socklen_t)
   {
      auto call = kernel().calls++;
      if( call < kernel().answers.size() && kernel().answers[ call])
      {
         errno = kernel().answers[ call];
         return -1;
      }
      v_assert( size <= static_cast< std::size_t>( header_size + max_payload), "a datagram is at most the maximum size");
      auto& datagram = kernel().sent.emplace_back();
      datagram.descriptor = descriptor;
      datagram.path = reinterpret_cast< const sockaddr_un*>( address)->sun_path;
      datagram.size = static_cast< long>( size);
      std::memcpy( datagram.transport.data(), data, size);
      return size;
   }

   ssize_t recv( int, void* buffer, size_t size, int)
   {
      if( ! kernel().next)
      {
         errno = EAGAIN;
         return -1;
      }
      v_assert( static_cast< long>( size) >= header_size + max_payload, "any datagram can be received");
      std::memcpy( buffer, kernel().next->transport.data(), kernel().next->size);
      return kernel().next->size;
   }

   int socket( int, int, int) noexcept { return kernel().sockets++;}
   int fcntl( int, int, ...) { return 0;}
   int close( int) { return 0;}
}

namespace
{
   common::strong::correlation::id any_correlation()
   {
      common::Uuid id;
      v_sym( id.get(), 16, "correlation");
      return common::strong::correlation::id{ id};
   }
   common::message::Type any_type()
   {
      auto type = v_any< common::message::Type>( "type");
      v_assume( type != common::message::Type::absent_message);
      return type;
   }

   constexpr long some_sizes[] = { 1, 100, max_payload - 1, max_payload, max_payload + 1, 2 * max_payload - 1, 2 * max_payload, 2 * max_payload + 1, 3 * max_payload};

   //! a message with some content, and what it is expected to be
   struct Original
   {
      //! any size up to `last`
      Original( long last) : Original{ v_range< long>( 1, last, "size"), last} {}
      //! one of the sizes
      template< std::size_t count>
      Original( const long (&sizes)[ count]) : Original{ v_one_of( sizes, "size"), sizes[ count - 1]} {}

      Original( long size, long last) : size{ size}
      {
         v_size( size);
         data = static_cast< std::byte*>( v_alloc( size, "payload"));
         type = any_type();
         correlation = any_correlation();
         index = v_range< long>( 0, last, "index");
         v_assume( index < size);
      }
      message::Complete complete() const
      {
         casual::platform::binary::type payload( size);
         std::memcpy( payload.data(), data, size);
         return { type, correlation, std::move( payload)};
      }
      void check( const message::Complete& complete) const
      {
         v_assert( complete.type() == type && complete.correlation() == correlation, "the message has its identity");
         v_assert( static_cast< long>( complete.payload.size()) == size, "the message has its size");
         v_assert( std::memcmp( complete.payload.data(), data, size) == 0, "the message has its content");
      }
      long size;
      long index;
      std::byte* data;
      common::message::Type type;
      common::strong::correlation::id correlation;
   };

   ipc::Handle handle() { return ipc::Handle{ common::communication::Socket{ common::strong::socket::id{ 5}}, common::strong::ipc::id{ common::uuid::make()}};}

   ipc::Address address( int value)
   {
      common::Uuid id;
      std::memset( id.get(), value, 16);
      return ipc::Address{ common::strong::ipc::id{ id}};
   }
   common::strong::ipc::id destination( int value)
   {
      common::Uuid id;
      std::memset( id.get(), value, 16);
      return common::strong::ipc::id{ id};
   }

   auto receive( ipc::Handle& handle, ipc::policy::cache_type& cache, const Datagram& datagram)
   {
      kernel().next = &datagram;
      auto result = ipc::policy::non::blocking::receive( handle, cache);
      kernel().next = nullptr;
      return result;
   }
}

extern "C" void h_ipc_add()
{
   v_bound( "messages that are received up to at most one part");
   // what is received so far is one part
   message::Transport first{ any_type(), v_range< long>( 0, 1L << 30, "size"), any_correlation()};
   v_size( first.complete_size());
   v_sym( first.message.payload.data(), max_payload, "first");
   long size = first.complete_size();
   long count = v_range< long>( 0, max_payload, "count");
   v_assume( count <= size);
   first.message.header.offset = 0;
   first.message.header.count = count;
   message::Complete complete{ first};
   v_assert( static_cast< long>( complete.size()) == size && complete.offset() == count && complete.complete() == ( count == size), "the first part is received");

   message::Transport next{ complete.type(), size, complete.correlation()};
   next.message.header.offset = v_range< long>( 0, 1L << 40, "offset");
   next.message.header.count = v_range< long>( 0, max_payload, "next.count");
   v_sym( next.message.payload.data(), max_payload, "next");
   long offset = next.payload_offset();
   long more = next.payload_size();
   auto index = v_range< long>( 0, 1L << 30, "index");
   v_assume( index < size);
   bool raised = false;
   try
   {
      complete.add( next);
   }
   catch( const std::system_error&)
   {
      raised = true;
   }
   long now = count;
   v_assert( raised == ( offset > count || ( offset == count && offset + more > size)), "a part that does not fit is refused, and only that");
   if( offset == count && ! raised)
   {
      v_cover( "next");
      now = count + more;
      if( index >= count && index < now)
         v_assert( complete.payload[ index] == next.message.payload[ index - count], "the part is added where it belongs");
   }
   if( offset < count) v_cover( "resent");
   if( offset > count) v_cover( "gap");
   if( offset == count && raised) v_cover( "outside");
   v_assert( complete.offset() == now && complete.complete() == ( now == size) && static_cast< long>( complete.size()) == size, "the message is complete when all of it is received");
   if( index < count)
      v_assert( complete.payload[ index] == first.message.payload[ index], "what was received is left as it was");
}

extern "C" void h_ipc_chunks()
{
   v_bound( "the first three parts of a message");
   Original original{ 1L << 30};
   message::complete::Send send{ original.complete()};
   long offset = 0;
   for( int part = 0; part < 3; ++part)
   {
      auto chunk = send.front();
      long left = original.size - offset;
      v_assert( chunk.offset == offset && static_cast< long>( chunk.range.size()) == ( left < max_payload ? left : max_payload), "a part is as large as possible, and follows the previous");
      v_assert( common::predicate::boolean( chunk) == ( left > 0), "there are no more parts exactly when all of the message is sent");
      if( left > 0)
         v_assert( &*std::begin( chunk.range) == send.complete().payload.data() + offset, "a part is of the message");
      auto transport = send.transport();
      transport.assign( chunk.range, chunk.offset);
      v_assert( transport.type() == original.type && transport.complete_size() == original.size && transport.payload_offset() == offset
         && transport.payload_size() == static_cast< long>( chunk.range.size()) && common::strong::correlation::id{ transport.correlation()} == original.correlation, "a part tells where it belongs");
      v_assert( transport.last() == ( offset + transport.payload_size() == original.size), "the last part is known");
      if( original.index >= offset && original.index < offset + transport.payload_size())
         v_assert( transport.message.payload[ original.index - offset] == original.data[ original.index], "the content of the part is that of the message");
      offset += transport.payload_size();
      send.pop();
   }
   v_cover( "all");
}

extern "C" void h_ipc_transfer()
{
   v_bound( "messages of at most three parts, of the sizes around their ends, one restart");
   Original original{ some_sizes};
   auto complete = original.complete();
   int restart = v_pick( -1, 2, "restart");
   if( restart >= 0)
   {
      kernel().answers.resize( restart);
      kernel().answers.push_back( EAGAIN);
   }
   common::communication::Socket socket{ common::strong::socket::id{ 6}};
   auto to = address( 1);
   bool blocking = restart < 0 && v_any< bool>( "blocking");
   auto result = blocking ? ipc::policy::blocking::send( socket, to, complete) : ipc::policy::non::blocking::send( socket, to, complete);
   long parts = original.size / max_payload + ( original.size % max_payload != 0);
   if( restart >= 0 && restart < parts)
   {
      v_assert( ! result, "a message that is not sent is not reported as sent");
      kernel().answers.clear();
      result = ipc::policy::non::blocking::send( socket, to, complete);
      v_cover( "resent");
   }
   else
      restart = 0;
   v_assert( result == original.correlation, "the correlation is returned");
   v_assert( static_cast< long>( kernel().sent.size()) == parts + restart, "the message is sent with as few parts as possible");

   auto from = handle();
   ipc::policy::cache_type cache;
   auto sent = std::move( kernel().sent);
   for( std::size_t i = 0; i < sent.size(); ++i)
   {
      auto result = receive( from, cache, sent[ i]);
      v_assert( cache.size() == 1 && result && std::begin( result) == std::begin( cache), "the parts are one message");
      v_assert( cache[ 0].complete() == ( i + 1 == sent.size()), "the message is complete when all parts are received, not before");
   }
   original.check( cache[ 0]);
   v_cover( "all");
}

extern "C" void h_ipc_interleaved()
{
   v_bound( "two messages of one or two parts each");
   static constexpr long first[] = { max_payload, max_payload + 1};
   static constexpr long second[] = { max_payload + 1, 2 * max_payload};
   Original originals[ 2] = { { first}, { second}};
   // parts of messages with the same type and correlation are not mixed by any sender
   bool same = originals[ 0].type == originals[ 1].type && originals[ 0].correlation == originals[ 1].correlation;
   std::vector< Datagram> parts[ 2];
   common::communication::Socket socket{ common::strong::socket::id{ 6}};
   for( int i = 0; i < 2; ++i)
   {
      ipc::policy::blocking::send( socket, address( 1), originals[ i].complete());
      parts[ i] = std::move( kernel().sent);
      kernel().sent.clear();
   }
   auto from = handle();
   ipc::policy::cache_type cache;
   std::size_t at[ 2] = {};
   int place[ 2] = { -1, -1};
   while( at[ 0] < parts[ 0].size() || at[ 1] < parts[ 1].size())
   {
      int which = at[ 0] == parts[ 0].size() ? 1 : at[ 1] == parts[ 1].size() ? 0 : same ? 0 : v_pick( 0, 1, "which");
      if( place[ which] < 0)
         place[ which] = static_cast< int>( cache.size());
      auto result = receive( from, cache, parts[ which][ at[ which]++]);
      v_assert( result && &*std::begin( result) == &cache[ place[ which]], "a part is added to its message");
      v_assert( cache.size() == std::size_t( place[ 0] >= 0) + ( place[ 1] >= 0), "there is one message for each that is sent");
      for( int i = 0; i < 2; ++i)
         if( place[ i] >= 0)
            v_assert( cache[ place[ i]].complete() == ( at[ i] == parts[ i].size()), "a message is complete when its parts are received");
   }
   for( int i = 0; i < 2; ++i)
      originals[ i].check( cache[ place[ i]]);
   v_cover( same ? "same" : "all");
}

extern "C" void h_ipc_partial()
{
   v_bound( "messages of at most three parts, of the sizes around their ends, two interruptions");
   Original original{ some_sizes};
   message::complete::Send send{ original.complete()};
   long parts = original.size / max_payload + ( original.size % max_payload != 0);
   // the calls that are interrupted
   int first = v_pick( 0, 3, "first");
   int second = v_pick( 0, 2, "second");
   kernel().answers.resize( first);
   kernel().answers.push_back( EAGAIN);
   kernel().answers.resize( kernel().answers.size() + second);
   kernel().answers.push_back( EAGAIN);
   ipc::partial::Destination destination{ ::destination( 1)};
   bool done = false;
   for( int i = 0; i < 3 && ! done; ++i)
   {
      done = ipc::partial::send( destination, send);
      v_assert( done == ( static_cast< long>( kernel().sent.size()) == parts), "the message is sent when all of its parts are");
      v_assert( done || kernel().answers[ kernel().calls - 1] == EAGAIN, "the send goes on until it is interrupted");
   }
   v_assert( done, "the message is sent");
   v_assert( send.complete().size() == original.size, "the message is kept");

   auto from = handle();
   ipc::policy::cache_type cache;
   auto sent = std::move( kernel().sent);
   long offset = 0;
   for( auto& datagram : sent)
   {
      v_assert( datagram.transport.payload_offset() == offset, "every part is sent once, in order");
      offset += datagram.transport.payload_size();
      receive( from, cache, datagram);
   }
   v_assert( cache.size() == 1 && cache[ 0].complete(), "the parts are one message");
   original.check( cache[ 0]);
   v_cover( "all");
}

extern "C" void h_ipc_coordinator()
{
   v_bound( "two destinations, three messages of one part and four sends that block or fail");
   namespace select = common::communication::select;
   select::Directive directive;
   ipc::send::Coordinator coordinator{ directive};
   for( int i = 0; i < 4; ++i)
   {
      static constexpr int answers[] = { 0, EAGAIN, ENOENT};
      kernel().answers.push_back( v_one_of( answers, "answer"));
   }
   int told[ 3] = {};
   int to[ 3];

   auto number = []( const message::Complete& complete) { return static_cast< int>( complete.payload[ 0]);};
   auto sent = [ &]( int which)
   {
      int result = 0;
      for( auto& datagram : kernel().sent)
         if( static_cast< int>( datagram.transport.message.payload[ 0]) == which)
            ++result;
      return result;
   };
   int issued = 0;
   auto settle = [ &]()
   {
      int left = 0;
      int last[ 2] = { -1, -1};
      for( auto& datagram : kernel().sent)
      {
         int which = static_cast< int>( datagram.transport.message.payload[ 0]);
         v_assert( datagram.path == address( 1 + to[ which]).native().sun_path, "a message is sent to its destination");
         v_assert( which > last[ to[ which]], "messages are sent in order");
         last[ to[ which]] = which;
      }
      bool waits[ 2] = {};
      for( int i = 0; i < issued; ++i)
      {
         v_assert( sent( i) + told[ i] <= 1, "a message is sent at most once, or the sender is told");
         if( sent( i) + told[ i] == 0)
         {
            ++left;
            waits[ to[ i]] = true;
         }
      }
      v_assert( coordinator.pending() == left && coordinator.empty() == ( left == 0), "what is not sent is pending");
      v_assert( static_cast< int>( coordinator.destinations().size()) == waits[ 0] + waits[ 1]
         && directive.write.descriptors().size() == coordinator.destinations().size(), "the coordinator waits for the destinations that has pending messages");
   };

   for( int i = 0; i < 3; ++i)
   {
      to[ i] = i == 0 ? 0 : v_pick( 0, 1, "to");
      casual::platform::binary::type payload( 20);
      payload[ 0] = static_cast< std::byte>( i);
      common::Uuid id;
      std::memset( id.get(), 20 + i, 16);
      common::strong::correlation::id correlation{ id};
      message::Complete complete{ common::message::Type::service_call, correlation, std::move( payload)};
      ++issued;
      auto result = coordinator.send( destination( 1 + to[ i]), std::move( complete), [ &, i]( const common::strong::ipc::id& ipc, const message::Complete& complete)
      {
         v_assert( ipc == destination( 1 + to[ i]) && number( complete) == i && complete.size() == 20, "the sender is told which message was not sent");
         ++told[ i];
      });
      v_assert( result == correlation || ( ! result && told[ i] == 1), "the correlation is returned");
      settle();
   }
   if( ! coordinator.empty()) v_cover( "pending");
   for( int round = 0; round < 2 && ! coordinator.empty(); ++round)
   {
      if( v_any< bool>( "batch"))
      {
         bool done = coordinator.send();
         v_assert( done == coordinator.empty(), "tells if all is sent");
      }
      else
      {
         auto descriptor = *std::begin( directive.write.descriptors());
         v_assert( coordinator( descriptor, select::tag::write{}), "the descriptor is one of the coordinator's");
      }
      settle();
   }
   v_assert( ! coordinator( common::strong::file::descriptor::id{ 999}, select::tag::write{}), "other descriptors are not");
   if( told[ 0] || told[ 1]) v_cover( "lost");
   v_cover( "all");
}
