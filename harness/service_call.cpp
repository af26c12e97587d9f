// @property C15
// @tu middleware/common/source/service/call/context.cpp
// @tu middleware/common/source/service/call/state.cpp
// @tu middleware/common/source/service/lookup.cpp
// @tu middleware/common/source/transaction/context.cpp
// @tu middleware/common/source/code/convert.cpp
// @tu middleware/common/source/code/tx.cpp
// @tu middleware/common/source/code/xa.cpp
// @tu middleware/common/source/code/xatmi.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @tu middleware/common/source/communication/device.cpp
// @tu middleware/common/source/communication/ipc/message.cpp
// @tu middleware/common/source/communication/socket.cpp
// @tu middleware/common/source/exception/capture.cpp
// @tu middleware/common/source/exception/guard.cpp
// @tu middleware/common/source/service/header.cpp
// @tu middleware/common/source/transaction/id.cpp
// @tu middleware/common/source/transaction/global.cpp
// @tu middleware/common/source/transaction/resource.cpp
// @tu middleware/common/source/transaction/transaction.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/assert.cpp
// @tu middleware/common/source/buffer/type.cpp
// @assume the service manager answers every lookup once
// @assume a server answers a call that wants a reply once; the service manager could have answered for it before (a timeout)
// @entry h_call_history covers=delivered,nothing,refused,canceled,failed bounded time=300 : any history of calls, replies (in any order) and cancels: the application gets the reply of the call that the descriptor is for, once
// @entry h_call_history_2 covers=delivered,nothing,refused,canceled,failed bounded time=300 : the same, for histories that start with a cancel, or do not wait
// @entry h_call_flags covers=joined,alone,no_reply,refused bounded time=200 : a call takes part in the transaction of the caller exactly if it is asked to, and is what the caller asked for
// @entry h_call_fails covers=absent,timeout,lost bounded time=200 : a call that could not be made leaves nothing behind
// @entry h_call_transaction covers=kept,canceled,committed bounded time=200 : a call that takes part in a transaction is not canceled, and the transaction waits for its reply
// @entry h_call_late covers=all bounded time=200 : a reply that comes too late is not taken for another
// @entry h_call_many covers=all bounded time=200 : every outstanding call has a descriptor of its own, however many
// @entry h_call_sync covers=ok,fail,error,absent,lost bounded time=200 : a synchronous call gets its own reply, and the caller's work is suspended meanwhile
// @entry h_call_deadline covers=transaction,own,none bounded time=200 : the deadline of the caller follows the call
// @entry h_call_lookup covers=consumed,discarded,replied,moved bounded time=200 : a lookup is consumed or given back, once
#define V_RECEIVE
#include "v_world.h"
#include "common/service/call/context.h"
#include "common/service/lookup.h"
#include "common/transaction/context.h"
#include "common/environment/expand.h"
#include "common/instance.h"
#include "common/message/transaction.h"
#include "common/message/service.h"
#include "common/service/header.h"
#include "casual/xa.h"

namespace common = casual::common;
namespace message = casual::common::message;
namespace service = casual::common::service;
namespace call = casual::common::service::call;
namespace transaction = casual::common::transaction;
using Code = common::code::xatmi;
using tx = common::code::tx;

namespace casual::common
{
   namespace environment
   {
      std::string expand( std::string value) { return value;}
   }
   namespace instance
   {
      std::string alias() { return "a";}
   }
}

//! what happens when a call is made
void ( *v_on_call)() = nullptr;

namespace model
{
   using Lookup = message::service::lookup::reply::State;

   //! how the service manager answers
   Lookup& lookup() { static Lookup result = Lookup::idle; return result;}
   std::vector< world::Complete>& inbox() { static std::vector< world::Complete> result; return result;}

   //! a reply that will come
   struct Outstanding
   {
      common::strong::correlation::id correlation;
      Code code = Code::ok;
      unsigned char tag = 0;
      //! it could also be that it never comes
      bool optional = false;
   };
   std::vector< Outstanding>& outstanding() { static std::vector< Outstanding> result; return result;}

   //! lookups that the service manager has not answered, or has reserved an instance for
   std::vector< common::strong::correlation::id>& pending() { static std::vector< common::strong::correlation::id> result; return result;}
   std::vector< common::strong::correlation::id>& reserved() { static std::vector< common::strong::correlation::id> result; return result;}

   bool remove( std::vector< common::strong::correlation::id>& values, const common::strong::correlation::id& correlation)
   {
      for( auto current = std::begin( values); current != std::end( values); ++current)
         if( *current == correlation)
         {
            values.erase( current);
            return true;
         }
      return false;
   }

   void reply( const common::strong::correlation::id& correlation)
   {
      v_assert( remove( pending(), correlation), "a lookup is answered once");
      message::service::lookup::Reply reply{ world::process( 2)};
      reply.correlation = correlation;
      reply.state = lookup();
      reply.service.name = "s";
      reply.deadline.remaining = casual::platform::time::unit{ 7};
      reply.pending = casual::platform::time::unit{ 5};
      if( reply.state == Lookup::idle)
         reserved().push_back( correlation);
      inbox().push_back( world::complete( reply));
   }

   void deliver( std::size_t index)
   {
      auto value = outstanding()[ index];
      outstanding().erase( std::begin( outstanding()) + index);
      message::service::call::Reply reply;
      reply.correlation = value.correlation;
      reply.code.result = value.code;
      reply.code.user = value.tag;
      reply.buffer = common::buffer::Payload{ std::string{ "X_OCTET/"}};
      reply.buffer.data.push_back( static_cast< std::byte>( value.tag));
      inbox().push_back( world::complete( reply));
   }

   void request( const world::Complete& complete)
   {
      if( complete.type() == message::service::lookup::Request::type())
         pending().push_back( complete.correlation());
      else if( complete.type() == message::service::lookup::discard::Request::type())
      {
         auto request = world::as< message::service::lookup::discard::Request>( complete);
         auto reply = message::reverse::type( request);
         reply.correlation = complete.correlation();
         if( remove( pending(), complete.correlation()))
            reply.state = decltype( reply.state)::discarded;
         else
         {
            v_assert( remove( reserved(), complete.correlation()), "a lookup that is given back is the caller's to give back");
            reply.state = decltype( reply.state)::replied;
         }
         inbox().push_back( world::complete( reply));
      }
      else if( complete.type() == message::service::call::caller::Request::type())
      {
         auto request = world::as< message::service::call::callee::Request>( complete);
         v_assert( remove( reserved(), complete.correlation()), "a call is made to an instance that is reserved for it");
         v_assert( world::address() == world::ipc( 2), "a call is made to the instance that is reserved for it");
         if( ! common::flag::contains( request.flags, message::service::call::request::Flag::no_reply))
            outstanding().push_back( { complete.correlation(), Code::ok, request.buffer.data.empty() ? static_cast< unsigned char>( 0) : static_cast< unsigned char>( request.buffer.data[ 0])});
      }
      else if( complete.type() == message::transaction::commit::Request::type())
      {
         auto request = world::as< message::transaction::commit::Request>( complete);
         auto reply = message::reverse::type( request);
         reply.trid = request.trid;
         reply.stage = message::transaction::commit::reply::Stage::commit;
         inbox().push_back( world::complete( reply));
      }
      else if( complete.type() == message::transaction::configuration::alias::Request::type())
      {
         auto request = world::as< message::transaction::configuration::alias::Request>( complete);
         auto reply = message::reverse::type( request);
         reply.resources.push_back( { .id = common::strong::resource::id{ 1}, .name = "r", .key = "k"});
         inbox().push_back( world::complete( reply));
      }
   }
}

namespace casual::common
{
   namespace communication::ipc
   {
      namespace native::detail::outbound
      {
         const Socket& socket()
         {
            static const Socket result;
            return result;
         }
      }
      namespace outbound
      {
         Connector::Connector( strong::ipc::id ipc) : m_destination{ ipc} {}
      }
   }
   namespace signal
   {
      void dispatch() {}
   }
}

namespace casual::common::communication::ipc::policy
{
   namespace blocking
   {
      strong::correlation::id send( const Socket&, const Address&, const message::Complete& complete)
      {
         auto call = complete.type() == casual::common::message::service::call::caller::Request::type();
         if( call && algorithm::find( world::lost(), world::address()))
         {
            model::remove( model::reserved(), complete.correlation());
            code::raise::error( code::casual::communication_unavailable);
         }
         auto correlation = complete.correlation();
         model::request( complete);
         if( call && v_on_call)
            v_on_call();
         world::sent().push_back( { call ? world::address() : strong::ipc::id{}, std::move( const_cast< message::Complete&>( complete))});
         return correlation;
      }

      cache_range_type receive( ipc::Handle&, cache_type& cache)
      {
         if( model::inbox().empty())
         {
            // lookups, and then replies in any order
            if( ! model::pending().empty())
               model::reply( model::pending()[ 0]);
            else
            {
               v_assert( ! model::outstanding().empty(), "nothing is waited for that does not come");
               if( model::outstanding().empty())
                  v_end();
               model::deliver( v_pick< std::size_t>( 0, model::outstanding().size() - 1, "comes"));
            }
         }
         cache.push_back( std::move( model::inbox().front()));
         model::inbox().erase( std::begin( model::inbox()));
         return cache_range_type{ std::end( cache) - 1, std::end( cache)};
      }
   }

   namespace non::blocking
   {
      cache_range_type receive( ipc::Handle&, cache_type& cache)
      {
         if( model::inbox().empty() && ! model::outstanding().empty() && v_pick< int>( 0, 1, "here") == 1)
            model::deliver( v_pick< std::size_t>( 0, model::outstanding().size() - 1, "comes"));
         if( model::inbox().empty())
            return {};
         cache.push_back( std::move( model::inbox().front()));
         model::inbox().erase( std::begin( model::inbox()));
         return cache_range_type{ std::end( cache) - 1, std::end( cache)};
      }
   }
}

namespace
{
   using AFlag = call::async::Flag;
   using RFlag = call::reply::Flag;
   using SFlag = call::sync::Flag;

   call::Context& context() { return call::Context::instance();}

   common::buffer::Payload payload( unsigned char tag)
   {
      common::buffer::Payload result{ std::string{ "X_OCTET/"}};
      result.data.push_back( static_cast< std::byte>( tag));
      return result;
   }

   unsigned char tag( const common::buffer::Payload& payload)
   {
      return payload.data.size() == 1 ? static_cast< unsigned char>( payload.data[ 0]) : 0;
   }

   struct Called
   {
      int descriptor = 0;
      int error = 0;
   };

   Called acall( unsigned char value, AFlag flags)
   {
      auto buffer = payload( value);
      try
      {
         return { static_cast< int>( context().async( "s", common::buffer::payload::Send{ buffer}, flags))};
      }
      catch( const std::system_error& error)
      {
         return { -1, error.code().value()};
      }
   }

   struct Replied
   {
      //! code of the error raised
      int error = 0;
      bool fail = false;
      int descriptor = -1;
      unsigned char value = 0;
      long user = 0;
   };

   Replied getreply( int descriptor, RFlag flags)
   {
      try
      {
         auto result = context().reply( descriptor, flags);
         return { 0, false, static_cast< int>( result.descriptor), tag( result.buffer), result.user};
      }
      catch( const call::Fail& fail)
      {
         return { 0, true, static_cast< int>( fail.result.descriptor), tag( fail.result.buffer), fail.result.user};
      }
      catch( const std::system_error& error)
      {
         return { error.code().value()};
      }
   }

   int cancel( int descriptor)
   {
      try
      {
         context().cancel( descriptor);
         return 0;
      }
      catch( const std::system_error& error)
      {
         return error.code().value();
      }
   }

   constexpr int code( Code value) { return static_cast< int>( value);}

   // resource that keeps track of what it works for
   namespace rm
   {
      bool& active() { static bool result = false; return result;}
      extern "C"
      {
         int v_xa_open( const char*, int, long) { return 0;}
         int v_xa_start( XID*, int, long) { v_assert( ! active(), "work is started once"); active() = true; return 0;}
         int v_xa_end( XID*, int, long) { v_assert( active(), "work is ended once"); active() = false; return 0;}
         int v_xa_decide( XID*, int, long) { return 0;}
         int v_xa_recover( XID*, long, int, long) { return 0;}
         int v_xa_complete( int*, int*, int, long) { return 0;}
      }
   }

   //! in a transaction, with a resource
   transaction::Context& begin()
   {
      static xa_switch_t fixed{ "fixed", 0, 0, rm::v_xa_open, rm::v_xa_open, rm::v_xa_start, rm::v_xa_end, rm::v_xa_decide, rm::v_xa_decide, rm::v_xa_decide, rm::v_xa_recover, rm::v_xa_decide, rm::v_xa_complete};
      auto& context = transaction::Context::instance();
      std::vector< transaction::resource::Link> links;
      links.emplace_back( "k", "r", &fixed);
      context.configure( std::move( links));
      v_assert( context.begin() == tx::ok, "a transaction is started");
      world::sent().clear();
      return context;
   }

   std::size_t calls() { return world::count< message::service::call::caller::Request>( world::ipc( 2));}

   message::service::call::callee::Request last()
   {
      for( auto current = std::rbegin( world::sent()); current != std::rend( world::sent()); ++current)
         if( current->complete.type() == message::service::call::caller::Request::type())
            return world::as< message::service::call::callee::Request>( current->complete);
      v_assert( false, "the call is made");
      v_end();
   }

   struct History
   {
      struct Call
      {
         unsigned char value = 0;
         Code code = Code::ok;
         bool live = false;
      };
      // by descriptor
      Call live[ 8];
      int made = 0;

      void make()
      {
         auto value = static_cast< unsigned char>( 100 + ++made);
         auto called = acall( value, AFlag::no_flags);
         v_assert( called.error == 0 && called.descriptor > 0 && called.descriptor < 8, "the call is made");
         if( called.descriptor <= 0 || called.descriptor >= 8)
            v_end();
         v_assert( ! live[ called.descriptor].live, "every outstanding call has a descriptor of its own");
         v_assert( model::outstanding().size() > 0 && model::outstanding().back().tag == value, "the service is given what the caller gave");
         // what the server will say
         auto code = made == 1 ? v_one_of( { Code::ok, Code::service_fail, Code::service_error}, "code") : Code::ok;
         model::outstanding().back().code = code;
         live[ called.descriptor] = { value, code, true};
      }

      int count() const
      {
         int result = 0;
         for( auto& call : live)
            if( call.live)
               ++result;
         return result;
      }

      void check( int descriptor, const Replied& replied, RFlag flags)
      {
         auto any = common::flag::contains( flags, RFlag::any);
         if( ! any && ! live[ descriptor].live)
         {
            v_assert( replied.error == code( Code::descriptor), "a descriptor without a call is refused");
            v_cover( "refused");
            return;
         }

         if( replied.error == code( Code::no_message))
         {
            v_assert( common::flag::contains( flags, RFlag::no_block), "the caller waits, unless told otherwise");
            v_cover( "nothing");
            return;
         }

         if( replied.error != 0)
         {
            v_assert( replied.error == code( Code::service_error), "the caller is told how it went");
            auto found = false;
            for( int index = 0; index < 8; ++index)
            {
               // the call that is not outstanding any more
               if( live[ index].live && live[ index].code == Code::service_error && ( any || index == descriptor) && ! found && ! active( index))
               {
                  live[ index].live = false;
                  found = true;
               }
            }
            v_assert( found, "the caller is told how its call went");
            v_cover( "failed");
            return;
         }

         v_assert( any || replied.descriptor == descriptor, "the reply is the one asked for");
         v_assert( 0 < replied.descriptor && replied.descriptor < 8, "the descriptor is known");
         if( replied.descriptor <= 0 || replied.descriptor >= 8)
            v_end();
         auto& call = live[ replied.descriptor];
         v_assert( call.live, "the reply is for a call that is outstanding");
         v_assert( call.value == replied.value && call.value == replied.user, "the reply is the one of the call");
         v_assert( call.code == ( replied.fail ? Code::service_fail : Code::ok), "the caller is told how it went");
         call.live = false;
         v_cover( "delivered");
      }

      //! if the descriptor still stands for a call
      static bool active( int descriptor)
      {
         // (nothing is waiting for it: the answer to 'cancel' would be what changes it)
         return getreply_probe( descriptor);
      }

      static bool getreply_probe( int descriptor)
      {
         // nothing comes while probing
         auto outstanding = std::exchange( model::outstanding(), {});
         auto inbox = std::exchange( model::inbox(), {});
         auto result = getreply( descriptor, RFlag::no_block);
         model::outstanding() = std::move( outstanding);
         model::inbox() = std::move( inbox);
         return result.error != code( Code::descriptor);
      }
   };
}

namespace
{
void history_of_calls( int first, int last)
{
   v_bound( "2 calls, 3 calls, replies or cancels");
   History history;
   constexpr int count = 2;
   for( int index = 0; index < count; ++index)
      history.make();

   for( int step = 0; step < 3; ++step)
   {
      auto descriptor = v_pick< int>( 1, count, "descriptor");
      switch( step == 0 ? v_pick< int>( first, last, "what") : v_pick< int>( 0, 4, "what"))
      {
         case 0:
         {
            history.check( descriptor, getreply( descriptor, RFlag::no_flags), RFlag::no_flags);
            break;
         }
         case 1:
         {
            v_assume( descriptor == 1 && history.count() > 0);
            history.check( descriptor, getreply( descriptor, RFlag::any), RFlag::any);
            break;
         }
         case 2:
         {
            history.check( descriptor, getreply( descriptor, RFlag::no_block), RFlag::no_block);
            break;
         }
         case 3:
         {
            auto live = history.live[ descriptor].live;
            auto error = cancel( descriptor);
            v_assert( error == ( live ? 0 : code( Code::descriptor)), "a call that is outstanding is canceled, and no other");
            if( live)
               v_cover( "canceled");
            history.live[ descriptor].live = false;
            break;
         }
         case 4:
         {
            v_assume( descriptor == 1 && step == 1);
            history.make();
            break;
         }
      }
      v_assert( context().pending() == ( history.count() > 0), "the application knows if there are outstanding calls");
   }
}
}

// the first step is
extern "C" void h_call_history() { history_of_calls( 0, 1);}
extern "C" void h_call_history_2() { history_of_calls( 2, 4);}

extern "C" void h_call_flags()
{
   v_bound( "one call");
   auto inside = v_pick< int>( 0, 1, "transaction") == 1;
   auto no_reply = v_pick< int>( 0, 1, "no reply") == 1;
   auto no_transaction = v_pick< int>( 0, 1, "no transaction") == 1;
   if( inside)
      begin();

   auto flags = AFlag::no_flags;
   if( no_reply)
      flags |= AFlag::no_reply;
   if( no_transaction)
      flags |= AFlag::no_transaction;

   auto trid = transaction::Context::instance().current().trid;
   auto called = acall( 77, flags);

   if( inside && no_reply && ! no_transaction)
   {
      v_assert( called.error == code( Code::argument), "a call in a transaction has a reply");
      v_assert( calls() == 0 && model::reserved().empty() && model::pending().empty(), "no call is made");
      v_assert( ! context().pending(), "nothing is left behind");
      v_cover( "refused");
      return;
   }
   v_assert( called.error == 0 && calls() == 1, "the call is made");

   auto lookups = world::all< message::service::lookup::Request>();
   v_assert( lookups.size() == 1 && lookups[ 0].requested == "s", "the service is looked up");
   v_assert( lookups.size() == 1 && lookups[ 0].no_reply() == no_reply, "the service manager knows if an instance is to be reserved");

   auto request = last();
   v_assert( request.service.name == "s" && tag( request.buffer) == 77, "the service is given what the caller gave");
   v_assert( request.process == common::process::handle(), "the reply comes to the caller");
   v_assert( request.deadline.remaining && *request.deadline.remaining == casual::platform::time::unit{ 7}, "the deadline follows the call");
   v_assert( request.pending == casual::platform::time::unit{ 5}, "the time the call waited follows the call");
   v_assert( common::flag::contains( request.flags, message::service::call::request::Flag::no_reply) == no_reply, "the service knows if a reply is expected");

   if( no_reply)
   {
      v_assert( called.descriptor == 0 && ! context().pending(), "a call without a reply has no descriptor");
      v_assert( ! request.trid, "a call without a reply does not take part in a transaction");
      v_cover( "no_reply");
      return;
   }
   v_assert( called.descriptor > 0 && context().pending(), "the call has a descriptor");
   v_assert( context().pending(), "there is an outstanding call");

   auto joined = inside && ! no_transaction;
   v_assert( joined ? request.trid == trid && ! transaction::id::null( request.trid) : transaction::id::null( request.trid), "a call takes part in the transaction of the caller exactly if it is asked to");
   v_assert( transaction::Context::instance().associated( request.correlation) == joined, "the transaction waits for calls that take part in it");
   v_cover( joined ? "joined" : "alone");
}

extern "C" void h_call_fails()
{
   v_bound( "one call that fails");
   auto inside = v_pick< int>( 0, 1, "transaction") == 1;
   if( inside)
      begin();
   auto flags = AFlag::no_flags;
   auto no_reply = v_pick< int>( 0, 1, "no reply") == 1;
   if( no_reply)
      flags |= AFlag::no_reply | AFlag::no_transaction;

   // a call that is outstanding is not affected
   auto other = v_pick< int>( 0, 1, "other") == 1;
   Called first;
   if( other)
      first = acall( 70, AFlag::no_transaction);

   auto how = v_pick< int>( 0, 2, "how");
   if( how == 0)
      model::lookup() = model::Lookup::absent;
   else if( how == 1)
      model::lookup() = model::Lookup::timeout;
   else
      world::lost().push_back( world::ipc( 2));

   auto called = acall( 71, flags);
   if( how == 0)
   {
      v_assert( called.error == code( Code::no_entry), "the caller is told that there is no such service");
      v_cover( "absent");
   }
   else if( how == 1)
   {
      v_assert( called.error == code( Code::timeout), "the caller is told that it took too long");
      v_cover( "timeout");
   }
   else
   {
      v_assert( called.error != 0, "the caller is told that the call was not made");
      v_cover( "lost");
   }

   v_assert( model::reserved().empty() && model::pending().empty(), "no instance is reserved for a call that is not made");
   v_assert( context().pending() == other, "nothing is left behind");
   for( int descriptor = 1; descriptor < 4; ++descriptor)
      v_assert( cancel( descriptor) == ( other && descriptor == first.descriptor ? 0 : code( Code::descriptor)), "a call that was not made has no descriptor");

   if( inside)
      v_assert( transaction::Context::instance().commit() == tx::ok, "a call that was not made does not hinder the transaction");
}

extern "C" void h_call_transaction()
{
   v_bound( "2 calls");
   auto& transaction = begin();
   Called made[ 2];
   bool takes[ 2];
   for( int index = 0; index < 2; ++index)
   {
      takes[ index] = v_pick< int>( 0, 1, "takes part") == 1;
      made[ index] = acall( static_cast< unsigned char>( 70 + index), takes[ index] ? AFlag::no_flags : AFlag::no_transaction);
      v_assert( made[ index].descriptor > 0, "the call is made");
   }

   // the application might have left the transaction, and be in another
   XID xid{};
   auto left = v_pick< int>( 0, 2, "left");
   if( left)
      v_assert( transaction.suspend( &xid) == tx::ok, "the transaction is suspended");
   if( left == 2)
      v_assert( transaction.begin() == tx::ok, "another transaction is started");

   for( int index = 0; index < 2; ++index)
   {
      if( v_pick< int>( 0, 1, "cancel") == 0)
         continue;
      auto error = cancel( made[ index].descriptor);
      if( takes[ index])
      {
         v_assert( error == code( Code::transaction), "a call that takes part in a transaction is not canceled");
         v_cover( "kept");
      }
      else
      {
         v_assert( error == 0, "a call is canceled");
         v_cover( "canceled");
      }
   }

   if( left == 2)
      v_assert( transaction.rollback() == tx::ok, "the other transaction is rolled back");
   if( left)
      v_assert( transaction.resume( &xid) == tx::ok, "the transaction is resumed");

   auto waits = takes[ 0] || takes[ 1];
   if( waits)
      v_assert( transaction.commit() == tx::protocol, "the transaction waits for the replies of its calls");

   for( int index = 0; index < 2; ++index)
   {
      if( ! takes[ index])
         continue;
      auto replied = getreply( made[ index].descriptor, RFlag::no_flags);
      v_assert( replied.error == 0 && replied.value == 70 + index, "the reply is the one of the call");
   }
   v_assert( transaction.commit() == tx::ok, "the transaction is committed when the replies have come");
   v_cover( "committed");
}

extern "C" void h_call_late()
{
   v_bound( "2 calls");
   auto first = acall( 70, AFlag::no_flags);
   v_assert( first.descriptor > 0, "the call is made");
   auto correlation = model::outstanding().back().correlation;

   // the service manager answers
   model::outstanding().back().code = Code::timeout;
   auto replied = getreply( first.descriptor, RFlag::no_flags);
   v_assert( replied.error == code( Code::timeout), "the caller is told that it took too long");
   v_assert( ! context().pending(), "the call is over");

   // and now the server does
   model::outstanding().push_back( { correlation, Code::ok, 70, true});
   if( v_pick< int>( 0, 1, "now") == 1)
   {
      model::deliver( 0);
      v_assert( getreply( first.descriptor, RFlag::no_block).error == code( Code::descriptor), "the call is over");
   }

   auto second = acall( 71, AFlag::no_flags);
   v_assert( second.descriptor > 0, "the call is made");
   auto flags = RFlag::no_flags;
   if( v_pick< int>( 0, 1, "any") == 1)
      flags |= RFlag::any;
   auto next = getreply( second.descriptor, flags);
   v_assert( next.error == 0 && next.descriptor == second.descriptor && next.value == 71, "a reply that comes too late is not taken for another");
   v_assert( ! context().pending(), "the call is over");
   v_cover( "all");
}

extern "C" void h_call_many()
{
   v_bound( "12 calls");
   int descriptors[ 12];
   for( int index = 0; index < 12; ++index)
   {
      auto called = acall( static_cast< unsigned char>( 100 + index), AFlag::no_flags);
      v_assert( called.error == 0 && called.descriptor > 0, "the call is made");
      for( int other = 0; other < index; ++other)
         v_assert( descriptors[ other] != called.descriptor, "every outstanding call has a descriptor of its own");
      descriptors[ index] = called.descriptor;
   }

   // one is done, and another is made
   auto done = v_pick< int>( 0, 11, "done");
   {
      while( model::outstanding().size() > 0)
         model::deliver( 0);
      auto replied = getreply( descriptors[ done], RFlag::no_flags);
      v_assert( replied.error == 0 && replied.value == 100 + done && replied.descriptor == descriptors[ done], "the reply is the one of the call");
      auto called = acall( 200, AFlag::no_flags);
      for( int other = 0; other < 12; ++other)
         v_assert( other == done || descriptors[ other] != called.descriptor, "every outstanding call has a descriptor of its own");
      descriptors[ done] = called.descriptor;
   }
   // and one more
   auto more = acall( 201, AFlag::no_flags);
   v_assert( more.error == 0 && more.descriptor > 0, "the call is made");
   for( auto descriptor : descriptors)
      v_assert( descriptor != more.descriptor, "every outstanding call has a descriptor of its own");
   while( model::outstanding().size() > 0)
      model::deliver( 0);
   {
      auto replied = getreply( more.descriptor, RFlag::no_flags);
      v_assert( replied.error == 0 && replied.value == 201, "the reply is the one of the call");
   }
   for( int index = 11; index >= 0; --index)
   {
      auto replied = getreply( descriptors[ index], RFlag::no_flags);
      v_assert( replied.error == 0 && replied.value == ( index == done ? 200 : 100 + index), "the reply is the one of the call");
   }
   v_assert( ! context().pending(), "all calls are over");
   v_cover( "all");
}

namespace
{
   //! what is to be the outcome of the next call
   struct Sync
   {
      int error = 0;
      bool fail = false;
      unsigned char value = 0;
      long user = 0;
   };

   Sync sync( unsigned char value, SFlag flags)
   {
      auto buffer = payload( value);
      try
      {
         auto result = context().sync( "s", common::buffer::payload::Send{ buffer}, flags);
         return { 0, false, tag( result.buffer), result.user};
      }
      catch( const call::Fail& fail)
      {
         return { 0, true, tag( fail.result.buffer), fail.result.user};
      }
      catch( const std::system_error& error)
      {
         return { error.code().value()};
      }
   }
}

extern "C" void h_call_sync()
{
   v_bound( "one synchronous call, one outstanding");
   auto inside = v_pick< int>( 0, 1, "transaction") == 1;
   auto no_transaction = v_pick< int>( 0, 1, "no transaction") == 1;
   auto other = v_pick< int>( 0, 1, "other") == 1;
   if( inside)
   {
      begin();
      v_assert( rm::active(), "work is done in the transaction");
   }
   Called first;
   if( other)
   {
      first = acall( 70, AFlag::no_transaction);
      model::deliver( 0);
   }

   auto flags = SFlag::no_flags;
   if( no_transaction)
      flags |= SFlag::no_transaction;

   auto how = v_pick< int>( 0, 4, "how");
   if( how == 3)
      model::lookup() = model::Lookup::absent;
   if( how == 4)
      world::lost().push_back( world::ipc( 2));

   struct Observer
   {
      static void set( int how)
      {
         if( how == 1)
            model::outstanding().back().code = Code::service_fail;
         if( how == 2)
            model::outstanding().back().code = Code::service_error;
      }
   };
   static int s_how;
   static bool s_suspended;
   s_how = how;
   s_suspended = inside && ! no_transaction;
   v_on_call = []()
   {
      Observer::set( s_how);
      v_assert( ! s_suspended || ! rm::active(), "the caller's work is suspended while the service does its");
      v_assert( s_suspended || rm::active() == transaction::Context::instance().current().trid.operator bool(), "the caller's work goes on when the service does not take part");
   };

   auto result = sync( 71, flags);
   v_on_call = nullptr;

   v_assert( ! inside || rm::active(), "the caller's work goes on");
   v_assert( context().pending() == other, "the call is over");
   v_assert( model::reserved().empty() && model::pending().empty(), "no instance is reserved");

   switch( how)
   {
      case 0:
      case 1:
         v_assert( result.error == 0 && result.fail == ( how == 1) && result.value == 71 && result.user == 71, "the reply is the one of the call");
         v_cover( how == 0 ? "ok" : "fail");
         break;
      case 2:
         v_assert( result.error == code( Code::service_error), "the caller is told how it went");
         v_cover( "error");
         break;
      case 3:
         v_assert( result.error == code( Code::no_entry), "the caller is told that there is no such service");
         v_cover( "absent");
         break;
      default:
         v_assert( result.error != 0, "the caller is told that the call was not made");
         v_cover( "lost");
   }

   if( inside && ! no_transaction)
   {
      auto involved = world::all< message::transaction::resource::involved::Request>();
      v_assert( involved.size() == 1 && involved[ 0].involved.size() == 1 && ! involved[ 0].reply, "the transaction manager knows what takes part before the service does");
   }
   if( inside)
      v_assert( transaction::Context::instance().commit() == tx::ok, "nothing hinders the transaction");
   if( other)
   {
      auto replied = getreply( first.descriptor, RFlag::no_flags);
      v_assert( replied.error == 0 && replied.value == 70, "the reply is the one of the call");
   }
}

extern "C" void h_call_deadline()
{
   v_bound( "one call");
   auto& tx_context = transaction::Context::instance();
   auto own = v_one_of( { 0, 10, 30}, "own");
   auto way = v_pick< int>( 0, 2, "transaction");
   auto no_transaction = v_pick< int>( 0, 1, "no transaction") == 1;

   auto now = casual::platform::time::clock::type::now();
   if( own)
      context().deadline( now, casual::platform::time::unit{ std::chrono::seconds{ own}});
   else
      context().deadline( now, std::nullopt);
   v_assert( context().deadline().has_value() == ( own > 0), "the deadline is as it was set");

   if( way == 2)
      v_assert( tx_context.set_transaction_timeout( casual::platform::time::unit{ std::chrono::seconds{ 20}}) == tx::ok, "timeout is set");
   if( way > 0)
      begin();

   auto called = acall( 71, no_transaction ? AFlag::no_transaction : AFlag::no_flags);
   v_assert( called.descriptor > 0, "the call is made");
   auto lookups = world::all< message::service::lookup::Request>();
   v_assert( lookups.size() == 1, "the service is looked up");
   if( lookups.size() != 1)
      return;

   auto deadline = lookups[ 0].deadline;
   auto limited = way == 2 && ! no_transaction;
   v_assert( deadline.has_value() == ( own || limited), "a call has a deadline exactly if the caller, or the transaction, has");
   if( ! deadline)
   {
      v_cover( "none");
      return;
   }
   if( limited)
   {
      v_assert( *deadline <= *tx_context.current().deadline, "the deadline of the transaction follows the call");
      v_assert( own || *deadline == *tx_context.current().deadline, "the deadline of the transaction follows the call");
      v_cover( "transaction");
   }
   if( own && ! ( limited && own == 30))
   {
      v_assert( *deadline == now + std::chrono::seconds{ own}, "the deadline of the caller follows the call");
      v_cover( "own");
   }
}

extern "C" void h_call_lookup()
{
   v_bound( "one or two lookups");
   auto moved = v_pick< int>( 0, 1, "moved") == 1;
   auto arrived = v_pick< int>( 0, 1, "arrived") == 1;
   auto consume = v_pick< int>( 0, 1, "consume") == 1;
   {
      service::Lookup lookup{ "s"};
      v_assert( model::pending().size() == 1 && model::pending()[ 0] == lookup.correlation(), "the service is looked up");
      if( arrived)
         model::reply( model::pending()[ 0]);

      if( moved)
      {
         auto correlation = lookup.correlation();
         service::Lookup other{ std::move( lookup)};
         v_assert( other.correlation() == correlation && ! lookup.correlation(), "the lookup is moved");
         lookup = std::move( other);
         v_assert( lookup.correlation() == correlation && ! other.correlation(), "the lookup is moved");
         v_cover( "moved");
      }

      if( consume)
      {
         auto correlation = lookup.correlation();
         message::service::lookup::Reply reply;
         if( v_pick< int>( 0, 1, "blocking") == 1)
            reply = service::lookup::reply( std::move( lookup));
         else
         {
            auto result = service::lookup::non::blocking::reply( lookup);
            v_assert( result.has_value() == arrived, "a reply that has come is received");
            if( ! result)
               v_end();
            reply = std::move( *result);
         }
         v_assert( reply.correlation == correlation && reply.process == world::process( 2), "the reply is the one of the lookup");
         v_assert( ! lookup.correlation(), "the lookup is consumed");
         auto again = false;
         try
         {
            service::lookup::reply( std::move( lookup));
         }
         catch( const std::system_error&)
         {
            again = true;
         }
         v_assert( again, "a lookup is consumed once");
         // it is the caller's to use
         v_assert( model::remove( model::reserved(), correlation), "an instance is reserved for the caller");
         v_cover( "consumed");
      }
   }
   v_assert( model::pending().empty() && model::reserved().empty(), "a lookup that is not consumed is given back");
   v_assert( world::count< message::service::lookup::discard::Request>( {}) == ( consume ? 0 : 1), "it is given back once");
   if( ! consume)
   {
      v_cover( arrived ? "replied" : "discarded");

      // the reply does not come when something else is waited for
      service::Lookup lookup{ "s"};
      auto correlation = lookup.correlation();
      auto reply = service::lookup::reply( std::move( lookup));
      v_assert( reply.correlation == correlation, "the reply is the one of the lookup");
   }
}
