// @property C12
// @tu middleware/common/source/transaction/id.cpp
// @tu middleware/common/source/transaction/global.cpp
// @tu middleware/common/source/buffer/type.cpp
// @tu middleware/common/source/service/header.cpp
// @tu middleware/common/source/domain.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @config skip casual::common::stream::write<
// @config emptystr casual::common::transcode::hex::encode<
// @assume a remaining deadline that is sent to an older domain is positive
// @entry h_protocol_version covers=all : a message is sent to a domain exactly if it is documented for the version the domain speaks
// @entry h_protocol_call bounded covers=all : a service call means the same to, and from, a domain with an older protocol
// @entry h_protocol_reply bounded covers=all : a service reply means the same to, and from, a domain with an older protocol
// @entry h_protocol_conversation bounded covers=all : a conversation means the same to, and from, a domain with an older protocol
// @entry h_protocol_enqueue bounded covers=stored,failed : the reply of an enqueue means the same to, and from, a domain with an older protocol
// @entry h_protocol_dequeue bounded covers=message,nothing : the reply of a dequeue means the same to, and from, a domain with an older protocol
// @entry h_protocol_discovery bounded covers=all : what is discovered means the same to, and from, a domain with an older protocol
#include "archive.h"
#include "gateway/message/protocol.h"
#include "gateway/message/protocol/transform.h"

namespace protocol = casual::gateway::message::protocol;
namespace transform = casual::gateway::message::protocol::transform;
namespace call = casual::common::message::service::call;
namespace conversation = casual::common::message::conversation;
namespace group = casual::queue::ipc::message::group;
namespace discovery = casual::domain::message::discovery;

namespace
{
   template< typename M>
   void compatible()
   {
      auto version = v_any< long>( "version");
      v_assume( version >= 1000);
      v_assume( version <= 1004);
      auto documented = ( version >= Wire< M>::first) & ( version <= Wire< M>::last);
      v_assert( protocol::compatible< M>( static_cast< protocol::Version>( version)) == documented, "a message is used exactly for the documented versions");
      v_assert( protocol::compatible( M{}, static_cast< protocol::Version>( version)) == documented, "a message is used exactly for the documented versions");
   }

   template< typename... Ms>
   void all_compatible() { ( compatible< Ms>(), ...);}

   template< typename M>
   M arbitrary()
   {
      v_bound( "strings and binaries of at most 40 bytes, at most 2 elements in a sequence");
      shape::start( v_pick< int>( 0, 2, "shape"));
      M result;
      fill( result);
      return result;
   }

   template< typename A, typename B>
   void identity( A& a, B& b)
   {
      v_assert( same( a.correlation, b.correlation), "the correlation is kept");
      v_assert( same( a.execution, b.execution), "the execution is kept");
   }

   //! common for call and connect
   template< typename New, typename Old>
   void request( New& current, Old& old)
   {
      identity( current, old);
      v_assert( same( current.service.name, old.service.name), "the service is kept");
      v_assert( same( current.parent.service, old.parent), "the parent is kept");
      v_assert( same( current.trid, old.trid), "the transaction is kept");
      v_assert( same( current.buffer, old.buffer), "the buffer is kept");
      auto timeout = old.service.timeout.duration.count();
      if( timeout > 0)
         v_assert( current.deadline.remaining && current.deadline.remaining->count() == timeout, "the deadline is kept");
      else
         v_assert( ! current.deadline.remaining, "no deadline is no deadline");
   }
}

extern "C" void h_protocol_version()
{
   namespace gateway = casual::gateway::message::domain;
   namespace resource = casual::common::message::transaction::resource;
   all_compatible< call::callee::Request, call::v1_2::callee::Request, call::Reply, call::v1_2::Reply,
      conversation::connect::callee::Request, conversation::connect::v1_2::callee::Request, conversation::connect::Reply, conversation::callee::Send, conversation::Disconnect,
      group::enqueue::Request, group::enqueue::Reply, group::enqueue::v1_2::Reply, group::dequeue::Request, group::dequeue::Reply, group::dequeue::v1_2::Reply,
      discovery::Request, discovery::Reply, discovery::v1_3::Reply, discovery::topology::implicit::Update,
      gateway::connect::Request, gateway::connect::Reply, gateway::disconnect::Request, gateway::disconnect::Reply,
      resource::prepare::Request, resource::prepare::Reply, resource::commit::Request, resource::commit::Reply, resource::rollback::Request, resource::rollback::Reply>();
   v_cover( "all");
}

extern "C" void h_protocol_call()
{
   auto current = arbitrary< call::callee::Request>();
   if( current.deadline.remaining)
      v_assume( current.deadline.remaining->count() > 0);

   auto copy = current;
   auto old = transform::to< call::v1_2::callee::Request>( std::move( copy));
   request( current, old);
   v_assert( same( current.flags, old.flags), "the flags are kept");

   // a request from an older domain
   auto other = arbitrary< call::v1_2::callee::Request>();
   auto expected = other;
   auto received = transform::from( std::move( other));
   request( received, expected);
   v_assert( same( received.flags, expected.flags), "the flags are kept");
   v_cover( "all");
}

extern "C" void h_protocol_reply()
{
   auto check = []( call::Reply& current, call::v1_2::Reply& old)
   {
      identity( current, old);
      v_assert( same( current.code, old.code), "the outcome is kept");
      v_assert( same( current.transaction_state, old.transaction.state), "the transaction state is kept");
      v_assert( same( current.buffer, old.buffer), "the buffer is kept");
   };

   auto current = arbitrary< call::Reply>();
   auto copy = current;
   auto old = transform::to< call::v1_2::Reply>( std::move( copy));
   check( current, old);

   auto other = arbitrary< call::v1_2::Reply>();
   auto expected = other;
   auto received = transform::from( std::move( other));
   check( received, expected);
   v_cover( "all");
}

extern "C" void h_protocol_conversation()
{
   namespace connect = conversation::connect;
   auto current = arbitrary< connect::callee::Request>();
   if( current.deadline.remaining)
      v_assume( current.deadline.remaining->count() > 0);

   auto copy = current;
   auto old = transform::to< connect::v1_2::callee::Request>( std::move( copy));
   request( current, old);
   v_assert( same( current.duplex, old.duplex), "the duplex is kept");

   auto other = arbitrary< connect::v1_2::callee::Request>();
   auto expected = other;
   auto received = transform::from( std::move( other));
   request( received, expected);
   v_assert( same( received.duplex, expected.duplex), "the duplex is kept");
   v_cover( "all");
}

extern "C" void h_protocol_enqueue()
{
   auto current = arbitrary< group::enqueue::Reply>();
   auto copy = current;
   auto old = transform::to< group::enqueue::v1_2::Reply>( std::move( copy));
   identity( current, old);
   v_assert( same( current.id, old.id), "the id is kept");

   // an older domain has only the id to tell that it failed
   group::enqueue::v1_2::Reply other;
   fill( other);
   v_sym( &other.id.get(), 16, "id");
   auto stored = static_cast< bool>( other.id);
   auto expected = other;
   auto received = transform::from( std::move( other));
   identity( received, expected);
   v_assert( same( received.id, expected.id), "the id is kept");
   v_assert( ( received.code == common::code::queue::ok) == stored, "an enqueue is ok exactly when there is an id");
   if( stored)
      v_cover( "stored");
   else
      v_cover( "failed");
}

extern "C" void h_protocol_dequeue()
{
   auto current = arbitrary< group::dequeue::Reply>();
   auto copy = current;
   auto old = transform::to< group::dequeue::v1_2::Reply>( std::move( copy));
   identity( current, old);
   v_assert( old.message.size() == ( current.message ? 1u : 0u), "a message is a message");
   if( current.message)
      v_assert( same( *current.message, old.message.front()), "the message is kept");

   auto other = arbitrary< group::dequeue::v1_2::Reply>();
   if( other.message.size() > 1)
      other.message.resize( 1);
   auto expected = other;
   auto received = transform::from( std::move( other));
   identity( received, expected);
   v_assert( received.message.has_value() == ! expected.message.empty(), "a message is a message");
   v_assert( ( received.code == common::code::queue::ok) == received.message.has_value(), "a dequeue is ok exactly when there is a message");
   if( received.message)
   {
      v_assert( same( *received.message, expected.message.front()), "the message is kept");
      v_cover( "message");
   }
   else
      v_cover( "nothing");
}

extern "C" void h_protocol_discovery()
{
   auto check = []( discovery::Reply& current, discovery::v1_3::Reply& old)
   {
      identity( current, old);
      v_assert( same( current.domain, old.domain), "the domain is kept");
      v_assert( same( current.content.services, old.content.services), "the services are kept");
      v_assert( current.content.queues.size() == old.content.queues.size(), "the queues are kept");
      for( std::size_t index = 0; index < old.content.queues.size(); ++index)
      {
         v_assert( same( current.content.queues[ index].name, old.content.queues[ index].name), "the name is kept");
         v_assert( same( current.content.queues[ index].retry.count, old.content.queues[ index].retries), "the retries are kept");
      }
   };

   auto current = arbitrary< discovery::Reply>();
   auto copy = current;
   auto old = transform::to< discovery::v1_3::Reply>( std::move( copy));
   check( current, old);

   auto other = arbitrary< discovery::v1_3::Reply>();
   auto expected = other;
   auto received = transform::from( std::move( other));
   check( received, expected);
   for( auto& queue : received.content.queues)
      v_assert( queue.enable.enqueue & queue.enable.dequeue, "a queue in an older domain is enabled");
   v_cover( "all");
}
