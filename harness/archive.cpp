// @property C06
// @tu middleware/common/source/communication/ipc/message.cpp
// @tu middleware/common/source/communication/tcp/message.cpp
// @tu middleware/common/source/transaction/id.cpp
// @tu middleware/common/source/transaction/global.cpp
// @tu middleware/common/source/buffer/type.cpp
// @tu middleware/common/source/service/header.cpp
// @tu middleware/common/source/network/byteorder.cpp
// @tu middleware/common/source/domain.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @config skip casual::common::stream::write<
// @config emptystr casual::common::transcode::hex::encode<
// @entry h_archive_service bounded covers=all : every field of a service message that is sent to another process is received
// @entry h_archive_call bounded covers=all : every field of a service call or reply is received, and the callee gets what the caller sends
// @entry h_archive_conversation bounded covers=all : every field of a conversation message is received
// @entry h_archive_transaction bounded covers=all : every field of a transaction message is received
// @entry h_archive_resource bounded covers=all : every field of a resource message is received
// @entry h_archive_queue bounded covers=all : every field of a queue message is received
// @entry h_archive_domain bounded covers=all : every field of a message from another domain is received
// @entry h_archive_network_call bounded covers=all : what is sent to another domain about calls is what the protocol documents, and is received
// @entry h_archive_network_transaction bounded covers=all : what is sent to another domain about transactions is what the protocol documents, and is received
// @entry h_archive_network_queue bounded covers=all : what is sent to another domain about queues is what the protocol documents, and is received
// @entry h_archive_network_domain bounded covers=all : what is sent to another domain about domains is what the protocol documents, and is received
#include "archive.h"

namespace
{
   using Native = common::communication::ipc::message::Complete;
   using Network = common::communication::tcp::message::Complete;

   template< typename M>
   struct Exchange
   {
      static void native( int variant)
      {
         shape::start( variant);
         M sent;
         fill( sent);

         auto complete = common::serialize::native::complete< Native>( sent);
         v_assert( complete.type() == M::type(), "the type is the type of the message");

         auto received = common::serialize::native::complete< M>( complete);
         fields( sent, received, Checker{});
      }

      static void network( int variant)
      {
         shape::start( variant);
         M sent;
         fill( sent);

         auto complete = common::serialize::native::complete< Network>( sent);
         v_assert( static_cast< long>( complete.type()) == Wire< M>::type, "the type is the documented one");
         v_assert( complete.correlation() == sent.correlation, "the correlation is the one of the message");

         Encoder expected;
         Wire< M>::visit( sent, sent, expected);
         v_assert( same( complete.payload, expected.output), "what is sent is what is documented");

         auto received = common::serialize::native::complete< M>( complete);
         v_assert( received.correlation == sent.correlation, "the correlation is received");
         Wire< M>::visit( sent, received, Arrived{});
      }
   };

   //! every one of the messages, with every shape
   template< typename... Ms>
   void native()
   {
      v_bound( "strings and binaries of at most 40 bytes, at most 2 elements in a sequence");
      using function = void (*)( int);
      constexpr function functions[] = { &Exchange< Ms>::native...};
      auto index = v_pick< int>( 0, sizeof...( Ms) - 1, "message");
      functions[ index]( v_pick< int>( 0, 2, "shape"));
      v_cover( "all");
   }

   template< typename... Ms>
   void network()
   {
      v_bound( "strings and binaries of at most 40 bytes, at most 2 elements in a sequence");
      using function = void (*)( int);
      constexpr function functions[] = { &Exchange< Ms>::network...};
      auto index = v_pick< int>( 0, sizeof...( Ms) - 1, "message");
      functions[ index]( v_pick< int>( 0, 2, "shape"));
      v_cover( "all");
   }

   message::service::call::base_request& base( message::service::call::callee::Request& value) { return value;}
   message::conversation::connect::base_request& base( message::conversation::connect::callee::Request& value) { return value;}

   //! the caller sends only a reference to the buffer
   template< typename Caller, typename Callee>
   void payload()
   {
      shape::start( v_pick< int>( 0, 2, "shape"));
      Callee expected;
      fill( expected);

      // the memory that is sent is larger than what is transported
      auto payload = expected.buffer;
      payload.data.resize( payload.data.size() + 3);

      Caller sent{ common::buffer::payload::Send{ payload, static_cast< long>( expected.buffer.data.size()), 0}};
      static_cast< std::remove_reference_t< decltype( base( expected))>&>( sent) = base( expected);

      auto complete = common::serialize::native::complete< Native>( sent);
      auto received = common::serialize::native::complete< Callee>( complete);
      fields( expected, received, Checker{});
   }
}

extern "C" void h_archive_service()
{
   namespace service = message::service;
   native< service::Advertise, service::concurrent::Advertise, service::lookup::Request, service::lookup::Reply,
      service::lookup::discard::Request, service::lookup::discard::Reply, service::call::ACK>();
}

extern "C" void h_archive_call()
{
   namespace call = message::service::call;
   if( v_pick< int>( 0, 1, "kind") == 0)
      native< call::callee::Request, call::Reply>();
   else
      payload< call::caller::Request, call::callee::Request>();
}

extern "C" void h_archive_conversation()
{
   namespace conversation = message::conversation;
   if( v_pick< int>( 0, 1, "kind") == 0)
      native< conversation::connect::callee::Request, conversation::connect::Reply, conversation::callee::Send, conversation::Disconnect>();
   else
      payload< conversation::connect::caller::Request, conversation::connect::callee::Request>();
}

extern "C" void h_archive_transaction()
{
   namespace transaction = message::transaction;
   native< transaction::commit::Request, transaction::commit::Reply, transaction::rollback::Request, transaction::rollback::Reply,
      transaction::configuration::alias::Request, transaction::configuration::alias::Reply,
      transaction::inbound::branch::Request, transaction::inbound::branch::Reply, transaction::active::Request, transaction::active::Reply>();
}

extern "C" void h_archive_resource()
{
   namespace resource = message::transaction::resource;
   native< resource::prepare::Request, resource::prepare::Reply, resource::commit::Request, resource::commit::Reply,
      resource::rollback::Request, resource::rollback::Reply, resource::involved::Request, resource::involved::Reply,
      resource::configuration::Request, resource::configuration::Reply, resource::Ready, resource::external::Instance, resource::external::Involved>();
}

extern "C" void h_archive_queue()
{
   namespace ipc = casual::queue::ipc::message;
   native< ipc::Advertise, ipc::lookup::Request, ipc::lookup::Reply, ipc::lookup::discard::Reply,
      ipc::group::enqueue::Request, ipc::group::enqueue::Reply,
      ipc::group::dequeue::Request, ipc::group::dequeue::Reply,
      ipc::group::dequeue::forget::Request, ipc::group::dequeue::forget::Reply>();
}

extern "C" void h_archive_domain()
{
   namespace discovery = casual::domain::message::discovery;
   namespace gateway = casual::gateway::message::domain;
   native< discovery::Request, discovery::Reply, discovery::topology::implicit::Update, gateway::Connected>();
}

extern "C" void h_archive_network_call()
{
   namespace call = message::service::call;
   namespace conversation = message::conversation;
   network< call::callee::Request, call::Reply, call::v1_2::callee::Request, call::v1_2::Reply,
      conversation::connect::callee::Request, conversation::connect::v1_2::callee::Request, conversation::connect::Reply,
      conversation::callee::Send, conversation::Disconnect>();
}

extern "C" void h_archive_network_transaction()
{
   namespace resource = message::transaction::resource;
   network< resource::prepare::Request, resource::prepare::Reply, resource::commit::Request, resource::commit::Reply,
      resource::rollback::Request, resource::rollback::Reply>();
}

extern "C" void h_archive_network_queue()
{
   namespace group = casual::queue::ipc::message::group;
   network< group::enqueue::Request, group::enqueue::Reply, group::enqueue::v1_2::Reply,
      group::dequeue::Request, group::dequeue::Reply, group::dequeue::v1_2::Reply>();
}

extern "C" void h_archive_network_domain()
{
   namespace discovery = casual::domain::message::discovery;
   namespace gateway = casual::gateway::message::domain;
   network< discovery::Request, discovery::Reply, discovery::v1_3::Reply, discovery::topology::implicit::Update,
      gateway::connect::Request, gateway::connect::Reply, gateway::disconnect::Request, gateway::disconnect::Reply>();
}
