// @property C17
// @tu middleware/common/source/server/handle/service.cpp
// @tu middleware/common/source/server/handle/policy.cpp
// @tu middleware/common/source/server/handle/conversation.cpp
// @tu middleware/common/source/server/context.cpp
// @tu middleware/common/source/server/service.cpp
// @tu middleware/common/source/server/argument.cpp
// @tu middleware/common/source/service/call/context.cpp
// @tu middleware/common/source/service/call/state.cpp
// @tu middleware/common/source/service/conversation/context.cpp
// @tu middleware/common/source/service/lookup.cpp
// @tu middleware/common/source/transaction/context.cpp
// @tu middleware/common/source/code/convert.cpp
// @tu middleware/common/source/code/tx.cpp
// @tu middleware/common/source/code/xa.cpp
// @tu middleware/common/source/code/xatmi.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @tu middleware/common/source/communication/device.cpp
// @tu middleware/common/source/communication/ipc/message.cpp
// @tu middleware/common/source/communication/socket.cpp
// @tu middleware/common/source/exception/capture.cpp
// @tu middleware/common/source/exception/guard.cpp
// @tu middleware/common/source/service/header.cpp
// @tu middleware/common/source/transaction/id.cpp
// @tu middleware/common/source/transaction/global.cpp
// @tu middleware/common/source/transaction/resource.cpp
// @tu middleware/common/source/transaction/transaction.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/assert.cpp
// @tu middleware/common/source/buffer/type.cpp
// @tu middleware/common/source/buffer/pool.cpp
// @tu middleware/common/source/buffer/x_octet.cpp
// @assume the service manager and the transaction manager answer every request once
// @entry h_server_call covers=success,fail,throws,unknown,no_reply bounded time=300 : every request is answered once with the outcome of the service and of its transaction, and the instance is given back once
// @entry h_server_result covers=null,empty,data bounded time=200 : whatever a service returns is what the caller gets
// @entry h_server_resource covers=start,end,decide bounded time=300 : when a resource fails, the caller is told and nothing is committed
// @entry h_server_forward covers=forwarded,refused,absent,lost,doomed bounded time=300 : a request that is forwarded is answered by the one that it is forwarded to, or is answered with an error
// @entry h_server_conversation covers=success,fail,throws,unknown,lost bounded time=300 : a conversation is accepted, and ended once with the outcome of the service and of its transaction
// @entry h_server_leaves covers=begun,pending,rollback bounded time=300 : what a service leaves behind is taken care of, and the caller is told
// @entry h_server_lost covers=all bounded time=300 : a caller that is gone does not hinder the server
// @entry h_server_twice covers=all bounded time=300 : a request is not affected by the ones before
// @entry h_server_xatmi covers=returned,not,forwarded bounded time=300 : the service is given what the caller sent, and what it returns is what the caller gets
// @entry h_server_advertise covers=known,new,refused bounded time=300 : services are advertised and unadvertised as asked for
#define V_RECEIVE
#include "v_world.h"
#include "common/server/handle/call.h"
#include "common/server/handle/conversation.h"
#include "common/server/context.h"
#include "common/server/service.h"
#include "common/transaction/context.h"
#include "common/environment/expand.h"
#include "common/instance.h"
#include "common/buffer/pool.h"
#include "common/message/transaction.h"
#include "common/message/service.h"
#include "common/message/conversation.h"
#include "common/service/header.h"
#include "rm.h"

#include <random>

namespace common = casual::common;
namespace message = casual::common::message;
namespace service = casual::common::service;
namespace server = casual::common::server;
namespace transaction = casual::common::transaction;
using Code = common::code::xatmi;
using State = message::service::transaction::State;
using Type = service::transaction::Type;
using tx = common::code::tx;
using Request = message::service::call::callee::Request;
using Reply = message::service::call::Reply;
using Connect = message::conversation::connect::callee::Request;
using End = message::conversation::callee::Send;
using ACK = message::service::call::ACK;

namespace casual::common
{
   namespace environment
   {
      std::string expand( std::string value) { return value;}
   }
   namespace instance
   {
      std::string alias() { return "a";}
   }

   namespace execution::context
   {
      void clear() { current() = {};}
      namespace span
      {
         strong::execution::span::id reset() { return {};}
      }
      namespace service
      {
         void set( const std::string& value) { current().service = value;}
         void clear() { current().service.clear();}
      }
      namespace parent
      {
         namespace service
         {
            void set( const std::string& value) { current().parent.service = value;}
         }
         namespace span
         {
            void set( strong::execution::span::id value) { current().parent.span = value;}
         }
      }
   }
}

namespace model
{
   //! the transaction manager tells the resource
   void decide( const common::transaction::ID& trid, rm::Outcome outcome)
   {
      if( auto work = rm::get( 1).find( trid.xid))
      {
         v_assert( work->association == rm::Association::none, "a decision is made when the work has ended");
         if( work->outcome == rm::Outcome::open)
            work->outcome = outcome;
      }
   }

   using Lookup = message::service::lookup::reply::State;
   Lookup& lookup() { static Lookup result = Lookup::idle; return result;}
   std::vector< world::Complete>& inbox() { static std::vector< world::Complete> result; return result;}
   const common::process::Handle caller = world::process( 1);
   const common::process::Handle target = world::process( 2);

   void request( const world::Complete& complete)
   {
      if( complete.type() == message::service::lookup::Request::type())
      {
         message::service::lookup::Reply reply{ target};
         reply.correlation = complete.correlation();
         reply.state = lookup();
         reply.service.name = "t";
         reply.deadline.remaining = casual::platform::time::unit{ 7};
         inbox().push_back( world::complete( reply));
      }
      else if( complete.type() == message::transaction::resource::involved::Request::type())
      {
         auto request = world::as< message::transaction::resource::involved::Request>( complete);
         if( request.reply)
            inbox().push_back( world::complete( message::reverse::type( request)));
      }
      else if( complete.type() == message::transaction::commit::Request::type())
      {
         auto request = world::as< message::transaction::commit::Request>( complete);
         decide( request.trid, rm::Outcome::committed);
         auto reply = message::reverse::type( request);
         reply.trid = request.trid;
         reply.stage = message::transaction::commit::reply::Stage::commit;
         inbox().push_back( world::complete( reply));
      }
      else if( complete.type() == message::transaction::rollback::Request::type())
      {
         auto request = world::as< message::transaction::rollback::Request>( complete);
         decide( request.trid, rm::Outcome::rolled);
         auto reply = message::reverse::type( request);
         reply.trid = request.trid;
         inbox().push_back( world::complete( reply));
      }
      else if( complete.type() == message::transaction::configuration::alias::Request::type())
      {
         auto request = world::as< message::transaction::configuration::alias::Request>( complete);
         auto reply = message::reverse::type( request);
         reply.resources.push_back( { .id = common::strong::resource::id{ 1}, .name = "r", .key = "k"});
         inbox().push_back( world::complete( reply));
      }
   }
}

namespace casual::common
{
   namespace communication::ipc
   {
      namespace native::detail::outbound
      {
         const Socket& socket()
         {
            static const Socket result;
            return result;
         }
      }
      namespace outbound
      {
         Connector::Connector( strong::ipc::id ipc) : m_destination{ ipc} {}
      }
   }
   namespace signal
   {
      void dispatch() {}
   }
}

namespace casual::common::communication::ipc::policy
{
   namespace blocking
   {
      strong::correlation::id send( const Socket&, const Address&, const message::Complete& complete)
      {
         auto type = complete.type();
         auto direct = type == Request::type() || type == Reply::type() || type == Connect::type() || type == End::type() || type == casual::common::message::conversation::connect::Reply::type();
         if( direct && algorithm::find( world::lost(), world::address()))
            code::raise::error( code::casual::communication_unavailable);
         auto correlation = complete.correlation();
         model::request( complete);
         world::sent().push_back( { direct ? world::address() : strong::ipc::id{}, std::move( const_cast< message::Complete&>( complete))});
         return correlation;
      }

      cache_range_type receive( ipc::Handle&, cache_type& cache)
      {
         v_assert( ! model::inbox().empty(), "nothing is waited for that does not come");
         if( model::inbox().empty())
            v_end();
         cache.push_back( std::move( model::inbox().front()));
         model::inbox().erase( std::begin( model::inbox()));
         return cache_range_type{ std::end( cache) - 1, std::end( cache)};
      }
   }

   namespace non::blocking
   {
      cache_range_type receive( ipc::Handle&, cache_type&) { return {};}
   }
}

namespace
{
   transaction::Context& tx_context() { return transaction::Context::instance();}

   common::buffer::Payload payload( unsigned char tag)
   {
      common::buffer::Payload result{ std::string{ "X_OCTET/"}};
      result.data.push_back( static_cast< std::byte>( tag));
      return result;
   }

   bool same( const common::buffer::Payload& payload, unsigned char tag)
   {
      return payload.type == "X_OCTET/" && payload.data.size() == 1 && payload.data[ 0] == static_cast< std::byte>( tag);
   }

   //! one resource
   void configure()
   {
      static xa_switch_t fixed = rm::xa_switch( false);
      std::vector< transaction::resource::Link> links;
      links.emplace_back( "k", "r", &fixed);
      tx_context().configure( std::move( links));
      world::sent().clear();
   }

   enum class Act { success, fail, throws, forward, begins, rolled, associates};

   //! what the service does
   Act act = Act::success;
   //! what it has seen
   int invoked = 0;
   bool in_transaction = false;
   bool header = false;
   XID xid;
   service::invoke::Parameter seen;

   //! what the service returns
   long user_code = 21;
   std::optional< common::buffer::Payload> returned;

   //! a call within the transaction did not go well
   void spoil()
   {
      tx_context().current().associate( world::correlation( 77));
      Reply reply;
      reply.correlation = world::correlation( 77);
      reply.transaction_state = State::rollback;
      tx_context().update( reply);
   }

   enum class Doomed { no, rolled, pending};
   Doomed doomed = Doomed::no;

   service::invoke::Result work( service::invoke::Parameter&& parameter)
   {
      ++invoked;
      in_transaction = static_cast< bool>( tx_context().current());
      header = service::header::fields().contains( "k");
      xid = tx_context().current().trid.xid;
      seen = std::move( parameter);
      service::invoke::Result result{ returned ? *returned : payload( 20)};
      result.code = user_code;
      switch( act)
      {
         case Act::throws: throw std::runtime_error{ "x"};
         case Act::forward:
         {
            if( doomed == Doomed::rolled)
               spoil();
            if( doomed == Doomed::pending)
               tx_context().current().associate( world::correlation( 78));
            service::invoke::Forward forward;
            forward.parameter.service.name = "t";
            forward.parameter.payload = payload( 30);
            throw forward;
         }
         case Act::fail: result.transaction = service::invoke::Result::Transaction::rollback; break;
         case Act::begins: tx_context().begin(); break;
         case Act::rolled: spoil(); break;
         case Act::associates: tx_context().current().associate( world::correlation( 78)); break;
         default: break;
      }
      return result;
   }

   void advertise( Type type)
   {
      auto& state = server::context().state();
      state.physical_services.push_back( server::Service{ "s", work, type, service::visibility::Type::discoverable, ""});
      state.services.emplace( "s", state.physical_services.back());
   }

   transaction::ID foreign() { return transaction::id::create( model::caller);}

   template< typename M>
   M prepare( bool joined, unsigned char correlation = 5)
   {
      M request;
      request.process = model::caller;
      request.correlation = world::correlation( correlation);
      request.service.name = "s";
      request.buffer = payload( 10);
      if( joined)
         request.trid = foreign();
      request.parent.service = "p";
      request.pending = casual::platform::time::unit{ 3};
      request.header.add( service::header::Field{ std::string{ "k:v"}});
      return request;
   }

   bool owned( Type type, bool joined)
   {
      return type == Type::atomic || ( ! joined && ( type == Type::automatic || type == Type::branch));
   }

   bool takes_part( Type type, bool joined)
   {
      return joined && ( type == Type::automatic || type == Type::branch || type == Type::join);
   }

   void call( Request request)
   {
      server::handle::policy::call::Default policy;
      try
      {
         using Flag = message::service::call::request::Flag;
         server::handle::service::call( policy, service::call::context(), request, ! common::flag::contains( request.flags, Flag::no_reply));
      }
      catch( ...)
      {}
   }

   template< typename M>
   std::vector< M> sent( common::strong::ipc::id destination)
   {
      std::vector< M> result;
      for( auto& value : world::sent())
         if( value.complete.type() == M::type())
         {
            v_assert( value.destination == destination, "a message is sent to the one it is for");
            result.push_back( world::as< M>( value.complete));
         }
      return result;
   }

   //! the instance is given back, once, after all that it has done
   ACK acknowledged( common::strong::correlation::id correlation)
   {
      auto values = sent< ACK>( {});
      v_assert( values.size() == 1, "the instance is given back once");
      if( values.size() != 1)
         v_end();
      v_assert( values[ 0].correlation == correlation && values[ 0].metric.process == common::process::handle(), "it is the instance that is given back, for the request");
      v_assert( ! world::sent().empty() && world::sent().back().complete.type() == ACK::type(), "the instance is given back when all is done");
      v_assert( values[ 0].metric.pending == casual::platform::time::unit{ 3}, "the service manager gets its metric back");
      v_assert( values[ 0].metric.service == "s", "the metric is for the service");
      return std::move( values[ 0]);
   }

   //! nothing is left behind
   void clean()
   {
      v_assert( tx_context().empty(), "no transaction is left");
      v_assert( ! service::conversation::context().pending(), "no conversation is left");
      for( auto& work : rm::get( 1).work)
         v_assert( work.association == rm::Association::none, "no work goes on");
   }

   //! what the resource has been told about the transaction of the service
   rm::Outcome outcome()
   {
      if( auto work = rm::get( 1).find( xid))
         return work->outcome;
      return rm::Outcome::open;
   }

   Type any_type() { return v_one_of( { Type::automatic, Type::join, Type::atomic, Type::none, Type::branch}, "type");}
}

extern "C" void h_server_call()
{
   v_bound( "one resource");
   auto type = any_type();
   auto joined = v_pick< int>( 0, 1, "transaction") == 1;
   advertise( type);
   configure();
   auto request = prepare< Request>( joined);
   auto trid = request.trid;
   auto no_reply = v_pick< int>( 0, 1, "no reply") == 1;
   if( no_reply)
      request.flags |= message::service::call::request::Flag::no_reply;
   auto unknown = v_pick< int>( 0, 3, "unknown") == 0;
   if( unknown)
      request.service.name = "u";
   else
      act = v_one_of( { Act::success, Act::fail, Act::throws}, "act");

   auto copy = request;
   if( unknown)
      copy.service.name = "u";
   call( std::move( copy));

   auto replies = sent< Reply>( model::caller.ipc);
   v_assert( replies.size() == ( no_reply ? 0u : 1u), "a request that wants a reply is answered once");
   v_cover( no_reply ? "no_reply" : "success");

   if( unknown)
   {
      v_assert( invoked == 0, "no other service is invoked");
      v_assert( sent< ACK>( {}).size() == 1 && sent< ACK>( {})[ 0].correlation == request.correlation, "the instance is given back once");
      clean();
      if( ! no_reply)
         v_assert( replies[ 0].correlation == request.correlation && replies[ 0].code.result == Code::service_error, "the caller is told that the service could not be invoked");
      v_cover( "unknown");
      return;
   }
   v_assert( invoked == 1, "the service is invoked once");
   v_assert( same( seen.payload, 10) && seen.service.name == "s" && seen.parent.service == "p", "the service gets what the caller sent");
   v_assert( header, "the header follows the call");
   v_assert( in_transaction == ( owned( type, joined) || takes_part( type, joined)), "the service is in a transaction as it is configured");
   v_assert( common::flag::contains( seen.flags, service::invoke::Parameter::Flag::in_transaction) == in_transaction, "the service is told if it is in a transaction");
   v_assert( common::flag::contains( seen.flags, service::invoke::Parameter::Flag::no_reply) == no_reply, "the service is told if there is no reply");
   if( takes_part( type, joined))
      v_assert( ( xid == trid.xid) == ( type != Type::branch) && common::transaction::id::range::global( xid).size() == common::transaction::id::range::global( trid).size()
         && common::algorithm::equal( common::transaction::id::range::global( xid), common::transaction::id::range::global( trid)), "the service takes part in the transaction of the caller");
   else if( in_transaction && joined)
      v_assert( ! common::algorithm::equal( common::transaction::id::range::global( xid), common::transaction::id::range::global( trid)), "the transaction is the service's own");

   auto ack = acknowledged( request.correlation);
   clean();
   v_assert( sent< message::transaction::commit::Request>( {}).empty() && sent< message::transaction::rollback::Request>( {}).empty(), "one resource is decided at once");

   if( owned( type, joined))
      v_assert( outcome() == ( act == Act::success ? rm::Outcome::committed : rm::Outcome::rolled), "the work of the service is committed exactly if it went well");
   else
      v_assert( outcome() == rm::Outcome::open, "the transaction of the caller is not decided by the service");

   v_cover( act == Act::fail ? "fail" : act == Act::throws ? "throws" : "success");
   auto expected = act == Act::success ? Code::ok : act == Act::fail ? Code::service_fail : Code::service_error;
   v_assert( ack.metric.code.result == expected, "the metric has the outcome");
   if( no_reply)
      return;

   auto& reply = replies[ 0];
   v_assert( reply.correlation == request.correlation, "the reply is for the request");
   v_assert( reply.code.result == expected, "the caller is told the outcome of the service");
   if( act != Act::throws)
      v_assert( reply.code.user == 21 && same( reply.buffer, 20), "the caller gets what the service returned");
   if( takes_part( type, joined))
      v_assert( ( reply.transaction_state == State::ok) == ( act == Act::success), "the caller is told if its transaction can not be committed");
}

extern "C" void h_server_resource()
{
   v_bound( "one resource");
   auto type = v_one_of( { Type::automatic, Type::join, Type::atomic, Type::branch}, "type");
   auto joined = v_pick< int>( 0, 1, "transaction") == 1;
   advertise( type);
   configure();
   auto fails = v_pick< int>( 1, 3, "fails");
   rm::fails() = fails;
   rm::how() = fails == 1 ? XAER_RMERR : v_one_of( { XAER_RMERR, XA_RBROLLBACK}, "how");
   rm::lenient() = true;
   act = v_one_of( { Act::success, Act::fail}, "act");
   auto request = prepare< Request>( joined);
   call( request);

   auto replies = sent< Reply>( model::caller.ipc);
   v_assert( replies.size() == 1, "a request is answered once");
   acknowledged( request.correlation);
   v_assert( tx_context().empty(), "no transaction is left");
   v_assert( rm::get( 1).active() == 0 || fails == 2, "no work goes on");
   if( rm::calls() < fails)
      return;
   auto& reply = replies[ 0];
   if( fails == 1)
   {
      v_assert( invoked == 0, "the service is not invoked outside of its transaction");
      v_assert( reply.code.result == Code::service_error, "the caller is told");
      v_cover( "start");
      return;
   }
   v_assert( reply.code.result == ( act == Act::fail ? Code::service_fail : Code::service_error), "the caller is told");
   if( act == Act::success || takes_part( type, joined))
      v_assert( reply.transaction_state != State::ok, "the caller is told that the work can not be committed");
   v_assert( outcome() != rm::Outcome::committed, "nothing is committed");
   v_cover( fails == 2 ? "end" : "decide");
}

extern "C" void h_server_forward()
{
   v_bound( "one resource");
   auto type = any_type();
   auto joined = v_pick< int>( 0, 1, "transaction") == 1;
   advertise( type);
   configure();
   act = Act::forward;
   if( takes_part( type, joined))
      doomed = v_one_of( { Doomed::no, Doomed::rolled, Doomed::pending}, "doomed");
   auto how = doomed == Doomed::no ? v_pick< int>( 0, 2, "how") : 0;
   if( how == 1)
      model::lookup() = model::Lookup::absent;
   if( how == 2)
      world::lost().push_back( model::target.ipc);
   auto request = prepare< Request>( joined);
   call( request);

   acknowledged( request.correlation);
   clean();
   v_assert( outcome() != rm::Outcome::committed, "nothing is committed by the one that forwards");
   auto replies = sent< Reply>( model::caller.ipc);
   auto forwarded = sent< Request>( model::target.ipc);
   v_assert( replies.size() + forwarded.size() == 1, "a request is either forwarded or answered");
   if( owned( type, joined) || how > 0 || doomed != Doomed::no)
   {
      v_assert( replies.size() == 1 && replies[ 0].code.result == Code::service_error && replies[ 0].correlation == request.correlation, "a request that is not forwarded is answered with an error");
      if( takes_part( type, joined))
         v_assert( replies[ 0].transaction_state != State::ok, "the caller is told that its transaction can not be committed");
      v_cover( doomed != Doomed::no ? "doomed" : owned( type, joined) ? "refused" : how == 1 ? "absent" : "lost");
      return;
   }
   v_assert( forwarded.size() == 1, "the request is forwarded");
   if( forwarded.empty())
      v_end();
   auto& forward = forwarded[ 0];
   v_assert( forward.process == model::caller && forward.correlation == request.correlation && forward.flags == request.flags, "it is the caller that gets the reply");
   v_assert( forward.service.name == "t" && same( forward.buffer, 30), "the service gets what is forwarded to it");
   v_assert( forward.trid == request.trid, "the transaction of the caller is forwarded");
   v_assert( forward.header.contains( "k"), "the header follows the call");
   v_cover( "forwarded");
}

extern "C" void h_server_conversation()
{
   v_bound( "one resource");
   auto type = any_type();
   auto joined = v_pick< int>( 0, 1, "transaction") == 1;
   advertise( type);
   configure();
   auto request = prepare< Connect>( joined);
   using Duplex = message::conversation::duplex::Type;
   request.duplex = v_one_of( { Duplex::send, Duplex::receive}, "duplex");
   auto trid = request.trid;
   auto unknown = v_pick< int>( 0, 3, "unknown") == 0;
   auto lost = false;
   if( unknown)
      request.service.name = "u";
   else
   {
      act = v_one_of( { Act::success, Act::fail, Act::throws}, "act");
      lost = v_pick< int>( 0, 3, "lost") == 0;
      if( lost)
         world::lost().push_back( model::caller.ipc);
   }
   auto copy = request;
   try
   {
      server::handle::Conversation{}( copy);
   }
   catch( ...)
   {}
   v_assert( sent< ACK>( {}).size() == 1 && sent< ACK>( {})[ 0].correlation == request.correlation, "the instance is given back once");
   clean();
   if( lost)
   {
      v_assert( invoked == 0, "a service is not invoked for a conversation that is not connected");
      v_assert( outcome() != rm::Outcome::committed, "nothing is committed");
      v_cover( "lost");
      return;
   }
   auto connected = sent< message::conversation::connect::Reply>( model::caller.ipc);
   auto ends = sent< End>( model::caller.ipc);
   v_assert( ends.size() == 1 && ends[ 0].correlation == request.correlation, "the conversation is ended once");
   if( ends.empty())
      v_end();
   auto& end = ends[ 0];
   if( unknown)
   {
      v_assert( invoked == 0 && connected.empty() && end.code.result == Code::service_error, "the caller is told that the service could not be invoked");
      v_cover( "unknown");
      return;
   }
   acknowledged( request.correlation);
   v_assert( invoked == 1 && connected.size() == 1 && connected[ 0].correlation == request.correlation && connected[ 0].process == common::process::handle(), "the conversation is accepted once");
   using Flag = service::invoke::Parameter::Flag;
   v_assert( common::flag::contains( seen.flags, Flag::conversation) && common::flag::contains( seen.flags, Flag::send_only) == ( request.duplex == Duplex::send) && common::flag::contains( seen.flags, Flag::receive_only) == ( request.duplex == Duplex::receive), "the service is told who is in control");
   v_assert( seen.descriptor.valid() && same( seen.payload, 10), "the service gets what the caller sent");
   v_assert( in_transaction == ( owned( type, joined) || takes_part( type, joined)), "the service is in a transaction as it is configured");

   if( owned( type, joined))
      v_assert( outcome() == ( act == Act::success ? rm::Outcome::committed : rm::Outcome::rolled), "the work of the service is committed exactly if it went well");
   else
      v_assert( outcome() == rm::Outcome::open, "the transaction of the caller is not decided by the service");
   auto expected = act == Act::success ? Code::ok : act == Act::fail ? Code::service_fail : Code::service_error;
   v_assert( end.code.result == expected, "the caller is told the outcome of the service");
   if( act != Act::throws)
      v_assert( end.code.user == 21 && same( end.buffer, 20), "the caller gets what the service returned");
   if( takes_part( type, joined))
      v_assert( ( end.transaction_state == State::ok) == ( act == Act::success), "the caller is told if its transaction can not be committed");
   v_cover( act == Act::fail ? "fail" : act == Act::throws ? "throws" : "success");
}

extern "C" void h_server_leaves()
{
   v_bound( "one resource");
   auto type = any_type();
   auto joined = v_pick< int>( 0, 1, "transaction") == 1;
   advertise( type);
   configure();
   act = v_one_of( { Act::begins, Act::rolled, Act::associates}, "act");
   auto inside = owned( type, joined) || takes_part( type, joined);
   if( act == Act::begins && inside)
      return;
   if( act != Act::begins && ! inside)
      return;
   auto request = prepare< Request>( joined);
   call( request);
   acknowledged( request.correlation);
   clean();
   auto replies = sent< Reply>( model::caller.ipc);
   v_assert( replies.size() == 1 && replies[ 0].correlation == request.correlation, "a request is answered once");
   if( act == Act::begins)
   {
      v_cover( "begun");
      v_assert( ! rm::get( 1).work.empty() && rm::get( 1).work.back().outcome != rm::Outcome::open, "a transaction that the service started is decided");
      return;
   }
   v_cover( act == Act::rolled ? "rollback" : "pending");
   v_assert( outcome() != rm::Outcome::committed, "work that can not be committed is not");
   v_assert( replies[ 0].transaction_state != State::ok && replies[ 0].code.result == Code::service_error, "the caller is told that the work can not be committed");
}

extern "C" void h_server_lost()
{
   v_bound( "one resource");
   auto type = any_type();
   auto joined = v_pick< int>( 0, 1, "transaction") == 1;
   advertise( type);
   configure();
   act = v_one_of( { Act::success, Act::fail, Act::throws}, "act");
   world::lost().push_back( model::caller.ipc);
   auto request = prepare< Request>( joined);
   call( request);
   acknowledged( request.correlation);
   clean();
   v_cover( "all");
}

extern "C" void h_server_twice()
{
   v_bound( "two requests, one resource");
   auto type = v_one_of( { Type::automatic, Type::join}, "type");
   advertise( type);
   configure();
   act = v_one_of( { Act::success, Act::fail, Act::throws}, "act");
   {
      auto request = prepare< Request>( v_pick< int>( 0, 1, "transaction") == 1, 6);
      request.deadline.remaining = casual::platform::time::unit{ 100};
      call( request);
   }
   world::sent().clear();
   act = Act::success;
   auto joined = v_pick< int>( 0, 1, "transaction") == 1;
   auto request = prepare< Request>( joined);
   request.header = {};
   call( request);
   auto replies = sent< Reply>( model::caller.ipc);
   v_assert( replies.size() == 1 && replies[ 0].correlation == request.correlation && replies[ 0].code.result == Code::ok && replies[ 0].transaction_state == State::ok && same( replies[ 0].buffer, 20), "a request is not affected by the one before");
   v_assert( ! header, "the header is the one of the request");
   v_assert( in_transaction == ( joined || type == Type::automatic), "the transaction is the one of the request");
   acknowledged( request.correlation);
   clean();
   v_cover( "all");
}

namespace
{
   enum class How { none, nothing, throws, forward, jump, normal};
   How how = How::none;
   void user( TPSVCINFO* information)
   {
      ++invoked;
      v_assert( information && information->data, "the service gets what the caller sent");
      v_assert( information->len == 1 && information->data[ 0] == 10, "the service gets what the caller sent");
      v_assert( information->name[ 0] == 's' && information->name[ 1] == '\0', "the service is told its name");
      v_assert( common::buffer::pool::holder().type( common::buffer::handle::type{ information->data}) == "X_OCTET/", "the service gets the type of the buffer");
      if( how == How::nothing)
         return;
      if( how == How::throws)
         throw std::runtime_error{ "x"};
      auto buffer = information->data;
      if( v_pick< int>( 0, 1, "buffer") == 1)
      {
         // a buffer of its own
         buffer = common::buffer::pool::holder().allocate( "X_OCTET/", 4).raw();
      }
      buffer[ 0] = 20;
      if( how == How::forward)
         server::context().forward( "t", buffer, 1);
      auto fails = v_pick< int>( 0, 1, "fail") == 1;
      act = fails ? Act::fail : Act::success;
      auto value = fails ? common::flag::xatmi::Return::fail : common::flag::xatmi::Return::success;
      if( how == How::jump)
         server::context().jump_return( value, 21, buffer, 1);
      server::context().normal_return( value, 21, buffer, 1);
   }
}

extern "C" void h_server_xatmi()
{
   v_bound( "one resource, two requests");
   configure();
   auto& state = server::context().state();
   state.physical_services.push_back( server::xatmi::service( "s", user, Type::automatic, service::visibility::Type::discoverable, ""));
   state.services.emplace( "s", state.physical_services.back());
   // the second is not affected by the first
   auto first = v_one_of( { How::none, How::normal, How::jump}, "first");
   if( first != How::none)
   {
      how = first;
      call( prepare< Request>( false, 6));
      world::sent().clear();
      invoked = 0;
   }
   how = v_one_of( { How::nothing, How::throws, How::forward, How::jump, How::normal}, "how");
   auto joined = v_pick< int>( 0, 1, "transaction") == 1;
   auto request = prepare< Request>( joined);
   call( request);
   acknowledged( request.correlation);
   clean();
   v_assert( invoked == 1, "the service is invoked once");
   auto replies = sent< Reply>( model::caller.ipc);
   auto forwarded = sent< Request>( model::target.ipc);
   v_assert( replies.size() + forwarded.size() == 1, "a request is either forwarded or answered");
   if( how == How::forward && joined)
   {
      v_assert( forwarded.size() == 1 && same( forwarded[ 0].buffer, 20), "the service gets what is forwarded to it");
      v_cover( "forwarded");
      return;
   }
   v_assert( replies.size() == 1 && replies[ 0].correlation == request.correlation, "a request is answered once");
   if( replies.empty())
      v_end();
   if( how == How::nothing || how == How::throws || how == How::forward)
   {
      v_assert( replies[ 0].code.result == Code::service_error && ( ! joined || replies[ 0].transaction_state != State::ok), "a service that does not return is an error");
      v_cover( "not");
      return;
   }
   v_assert( replies[ 0].code.result == ( act == Act::fail ? Code::service_fail : Code::ok) && replies[ 0].code.user == 21, "the caller is told the outcome of the service");
   v_assert( ! joined || ( replies[ 0].transaction_state == State::ok) == ( act == Act::success), "the caller is told if the work is rolled back");
   v_assert( same( replies[ 0].buffer, 20), "the caller gets what the service returned");
   v_cover( "returned");
}

extern "C" void h_server_advertise()
{
   v_bound( "two services");
   auto& context = server::context();
   using message::service::Advertise;
   auto code = [ &]( auto action)
   {
      try
      {
         action();
         return 0;
      }
      catch( const std::system_error& error)
      {
         return error.code().value();
      }
   };
   static auto other = []( TPSVCINFO*){ ++invoked;};
   auto first = static_cast< void(*)( TPSVCINFO*)>( user);
   auto second = static_cast< void(*)( TPSVCINFO*)>( other);

   v_assert( code( [ &](){ context.advertise( "a", first);}) == 0, "a service is advertised");
   auto adds = sent< Advertise>( {});
   v_assert( adds.size() == 1 && adds[ 0].services.add.size() == 1 && adds[ 0].services.add[ 0].name == "a" && adds[ 0].process == common::process::handle(), "the service manager is told about the service");
   v_assert( context.state().services.size() == 1, "the service is known");

   // the same name again
   auto same_function = v_pick< int>( 0, 1, "same") == 1;
   auto result = code( [ &](){ context.advertise( "a", same_function ? first : second);});
   v_assert( result == ( same_function ? 0 : static_cast< int>( Code::service_advertised)), "a name is for one service");
   v_assert( sent< Advertise>( {}).size() == 1 && context.state().services.size() == 1, "nothing changes");
   v_cover( same_function ? "known" : "refused");

   // another name
   v_assert( code( [ &](){ context.advertise( "b", v_pick< int>( 0, 1, "function") == 1 ? first : second);}) == 0, "a service is advertised");
   adds = sent< Advertise>( {});
   v_assert( adds.size() == 2 && adds[ 1].services.add.size() == 1 && adds[ 1].services.add[ 0].name == "b" && context.state().services.size() == 2, "the service manager is told about the service");
   v_cover( "new");

   v_assert( code( [ &](){ context.unadvertise( "a");}) == 0, "a service is unadvertised");
   adds = sent< Advertise>( {});
   v_assert( adds.size() == 3 && adds[ 2].services.add.empty() && adds[ 2].services.remove.size() == 1 && adds[ 2].services.remove[ 0] == "a", "the service manager is told that the service is gone");
   v_assert( context.state().services.size() == 1 && context.state().services.count( "b") == 1, "the other service is kept");
   v_assert( code( [ &](){ context.unadvertise( "a");}) == static_cast< int>( Code::no_entry), "a service that is gone is not known");
   v_assert( sent< Advertise>( {}).size() == 3, "nothing changes");
}

extern "C" void h_server_result()
{
   v_bound( "a payload of at most 2 bytes");
   advertise( Type::none);
   auto what = v_pick< int>( 0, 3, "what");
   if( what == 0)
   {
      returned = common::buffer::Payload{ nullptr};
      v_cover( "null");
   }
   else
   {
      returned = common::buffer::Payload{ std::string{ v_pick< int>( 0, 1, "type") ? "X_OCTET/" : "CSTRING/"}};
      for( int index = 1; index < what; ++index)
         returned->data.push_back( static_cast< std::byte>( v_any< unsigned char>( "byte")));
      v_cover( what == 1 ? "empty" : "data");
   }
   user_code = v_any< long>( "code");
   act = v_one_of( { Act::success, Act::fail}, "act");
   auto request = prepare< Request>( false);
   call( request);
   auto replies = sent< Reply>( model::caller.ipc);
   v_assert( replies.size() == 1 && replies[ 0].correlation == request.correlation, "a request is answered once");
   auto& reply = replies[ 0];
   v_assert( reply.code.result == ( act == Act::success ? Code::ok : Code::service_fail), "the caller is told the outcome of the service");
   v_assert( reply.code.user == user_code, "the caller gets the code that the service returned");
   v_assert( reply.buffer.type == returned->type, "the caller gets the type that the service returned");
   v_assert( reply.buffer.data.size() == returned->data.size(), "the caller gets the data that the service returned");
   for( std::size_t index = 0; index < reply.buffer.data.size() && index < returned->data.size(); ++index)
      v_assert( reply.buffer.data[ index] == returned->data[ index], "the caller gets the data that the service returned");
   acknowledged( request.correlation);
   clean();
}
