// @property C16
// @tu middleware/common/source/service/conversation/context.cpp
// @tu middleware/common/source/service/lookup.cpp
// @tu middleware/common/source/transaction/context.cpp
// @tu middleware/common/source/code/convert.cpp
// @tu middleware/common/source/code/tx.cpp
// @tu middleware/common/source/code/xa.cpp
// @tu middleware/common/source/code/xatmi.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @tu middleware/common/source/communication/device.cpp
// @tu middleware/common/source/communication/ipc/message.cpp
// @tu middleware/common/source/communication/socket.cpp
// @tu middleware/common/source/exception/capture.cpp
// @tu middleware/common/source/exception/guard.cpp
// @tu middleware/common/source/service/header.cpp
// @tu middleware/common/source/transaction/id.cpp
// @tu middleware/common/source/transaction/global.cpp
// @tu middleware/common/source/transaction/resource.cpp
// @tu middleware/common/source/transaction/transaction.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/assert.cpp
// @tu middleware/common/source/buffer/type.cpp
// @assume the service manager answers every lookup once
// @assume messages of a conversation arrive in the order they are sent
// @entry h_conversation_initiator covers=sent,received,control,nothing,protocol,success,fail,error,disconnected,gone bounded time=300 : any history of send, receive and disconnect, with two conversations and a peer that does anything it may
// @entry h_conversation_initiator_long covers=sent,received,control,nothing,protocol,success,fail,error,disconnected,gone bounded time=300 : the same, for one conversation and longer
// @entry h_conversation_callee covers=sent,received,control,nothing,protocol,disconnect,refused bounded time=300 : the same, for the service
// @entry h_conversation_end covers=null,empty,data bounded time=200 : whatever the service returns is what the application gets
// @entry h_conversation_connect covers=joined,alone,sends,receives,argument,absent,lost,dies bounded time=200 : a conversation is connected as asked for, or leaves nothing behind
// @entry h_conversation_transaction covers=commit,rollback,waits bounded time=200 : a transaction waits for its conversations, and is not committed if one of them did not end well
#define V_RECEIVE
#include "v_world.h"
#include "common/service/conversation/context.h"
#include "common/message/conversation.h"
#include "common/service/lookup.h"
#include "common/transaction/context.h"
#include "common/environment/expand.h"
#include "common/instance.h"
#include "common/message/transaction.h"
#include "common/message/service.h"
#include "common/service/header.h"
#include "casual/xa.h"

namespace common = casual::common;
namespace message = casual::common::message;
namespace service = casual::common::service;
namespace conversation = casual::common::service::conversation;
namespace transaction = casual::common::transaction;
using Code = common::code::xatmi;
using tx = common::code::tx;

namespace casual::common
{
   namespace environment
   {
      std::string expand( std::string value) { return value;}
   }
   namespace instance
   {
      std::string alias() { return "a";}
   }
}


namespace model
{
   using Lookup = message::service::lookup::reply::State;
   using Duplex = message::conversation::duplex::Type;
   using Duration = casual::platform::time::unit;

   //! the service dies before it has accepted the conversation
   bool& dies() { static bool result = false; return result;}
   Lookup& lookup() { static Lookup result = Lookup::idle; return result;}
   std::vector< world::Complete>& inbox() { static std::vector< world::Complete> result; return result;}

   //! the other side of a conversation
   struct Peer
   {
      common::strong::correlation::id correlation;
      //! it is the one in control
      bool control = false;
      bool over = false;
      //! it is the service
      bool service = true;
      int sent = 0;
      std::vector< unsigned char> received;
   };
   std::vector< Peer>& peers() { static std::vector< Peer> result; return result;}

   //! what a peer may do of its own
   enum class Do { data, give, success, fail, error, die, disconnect};
   //! what it has done, in order
   struct Done
   {
      common::strong::correlation::id correlation;
      Do what = Do::data;
      unsigned char value = 0;
   };
   std::vector< Done>& done() { static std::vector< Done> result; return result;}

   Peer* find( const common::strong::correlation::id& correlation)
   {
      for( auto& peer : peers())
         if( peer.correlation == correlation)
            return &peer;
      return nullptr;
   }

   void act( Peer& peer, Do what)
   {
      auto value = static_cast< unsigned char>( 10 * ( 1 + ( &peer - peers().data())) + ++peer.sent);
      done().push_back( { peer.correlation, what, value});
      if( what == Do::die)
      {
         message::service::call::Reply reply;
         reply.correlation = peer.correlation;
         reply.code.result = Code::service_error;
         inbox().push_back( world::complete( reply));
         peer.over = true;
         return;
      }
      if( what == Do::disconnect)
      {
         message::conversation::Disconnect message;
         message.correlation = peer.correlation;
         inbox().push_back( world::complete( message));
         peer.over = true;
         return;
      }
      message::conversation::callee::Send message;
      message.correlation = peer.correlation;
      message.buffer = common::buffer::Payload{ std::string{ "X_OCTET/"}};
      message.buffer.data.push_back( static_cast< std::byte>( value));
      message.duplex = Duplex::receive;
      switch( what)
      {
         case Do::give:
            message.duplex = Duplex::send;
            peer.control = false;
            break;
         case Do::success:
            message.code.result = Code::ok;
            break;
         case Do::fail:
            message.code.result = Code::service_fail;
            message.transaction_state = decltype( message.transaction_state)::rollback;
            break;
         case Do::error:
            message.code.result = Code::service_error;
            message.transaction_state = decltype( message.transaction_state)::error;
            break;
         default: break;
      }
      if( what != Do::data && what != Do::give)
      {
         message.code.user = value;
         peer.over = true;
      }
      inbox().push_back( world::complete( message));
   }

   //! the peer does something it may do
   void act( Peer& peer)
   {
      if( peer.service)
         act( peer, peer.control ? v_one_of( { Do::data, Do::give, Do::success, Do::fail, Do::error, Do::die}, "does") : v_one_of( { Do::fail, Do::error, Do::die}, "does"));
      else
         act( peer, peer.control ? v_one_of( { Do::data, Do::give, Do::disconnect}, "does") : Do::disconnect);
   }

   void request( const world::Complete& complete)
   {
      if( complete.type() == message::service::lookup::Request::type())
      {
         message::service::lookup::Reply reply{ world::process( 2)};
         reply.correlation = complete.correlation();
         reply.state = lookup();
         reply.service.name = "s";
         reply.deadline.remaining = Duration{ 7};
         reply.pending = Duration{ 5};
         inbox().push_back( world::complete( reply));
      }
      else if( complete.type() == message::conversation::connect::caller::Request::type())
      {
         auto request = world::as< message::conversation::connect::callee::Request>( complete);
         peers().push_back( { complete.correlation(), request.duplex == Duplex::send});
         if( dies())
         {
            act( peers().back(), Do::die);
            return;
         }
         auto reply = message::reverse::type( request, world::process( 2));
         inbox().push_back( world::complete( reply));
      }
      else if( complete.type() == message::conversation::caller::Send::type())
      {
         auto message = world::as< message::conversation::callee::Send>( complete);
         auto peer = find( complete.correlation());
         v_assert( peer && world::address() == world::ipc( 2), "what is sent goes to the other side of the conversation");
         v_assert( peer && ! peer->control, "only the one in control sends");
         if( peer)
         {
            peer->control = message.duplex == Duplex::send;
            v_assert( peer->control || message.duplex == Duplex::receive, "control is given, or not");
            peer->received.push_back( message.buffer.data.size() == 1 ? static_cast< unsigned char>( message.buffer.data[ 0]) : static_cast< unsigned char>( 0));
         }
      }
      else if( complete.type() == message::conversation::Disconnect::type())
      {
         auto peer = find( complete.correlation());
         v_assert( peer && peer->service && world::address() == world::ipc( 2), "a disconnect is for the other side of the conversation");
         if( peer)
            peer->over = true;
      }
      else if( complete.type() == message::transaction::commit::Request::type())
      {
         auto request = world::as< message::transaction::commit::Request>( complete);
         auto reply = message::reverse::type( request);
         reply.trid = request.trid;
         reply.stage = message::transaction::commit::reply::Stage::commit;
         inbox().push_back( world::complete( reply));
      }
      else if( complete.type() == message::transaction::rollback::Request::type())
      {
         auto request = world::as< message::transaction::rollback::Request>( complete);
         auto reply = message::reverse::type( request);
         reply.trid = request.trid;
         inbox().push_back( world::complete( reply));
      }
      else if( complete.type() == message::service::call::ACK::type())
      {
         auto message = world::as< message::service::call::ACK>( complete);
         v_assert( message.metric.process != common::process::handle(), "the service manager is not told that the caller is idle");
      }
   }
}

namespace casual::common
{
   namespace communication::ipc
   {
      namespace native::detail::outbound
      {
         const Socket& socket()
         {
            static const Socket result;
            return result;
         }
      }
      namespace outbound
      {
         Connector::Connector( strong::ipc::id ipc) : m_destination{ ipc} {}
      }
   }
   namespace signal
   {
      void dispatch() {}
   }
}

namespace casual::common::communication::ipc::policy
{
   namespace local
   {
      cache_range_type front( cache_type& cache)
      {
         cache.push_back( std::move( model::inbox().front()));
         model::inbox().erase( std::begin( model::inbox()));
         return cache_range_type{ std::end( cache) - 1, std::end( cache)};
      }

      std::vector< model::Peer*> active()
      {
         std::vector< model::Peer*> result;
         for( auto& peer : model::peers())
            if( ! peer.over && peer.sent < 2)
               result.push_back( &peer);
         if( ! result.empty())
            return result;
         // bound: both has done what they do without being answered
         for( auto& peer : model::peers())
            if( ! peer.over)
               v_end();
         return result;
      }
   }

   namespace blocking
   {
      strong::correlation::id send( const Socket&, const Address&, const message::Complete& complete)
      {
         if( complete.type() == casual::common::message::conversation::connect::caller::Request::type() && algorithm::find( world::lost(), world::address()))
            code::raise::error( code::casual::communication_unavailable);
         auto correlation = complete.correlation();
         model::request( complete);
         world::sent().push_back( { world::address(), std::move( const_cast< message::Complete&>( complete))});
         return correlation;
      }

      cache_range_type receive( ipc::Handle&, cache_type& cache)
      {
         if( model::inbox().empty())
         {
            auto active = local::active();
            v_assert( ! active.empty(), "nothing is waited for that does not come");
            if( active.empty())
               v_end();
            model::act( *active[ v_pick< std::size_t>( 0, active.size() - 1, "who")]);
         }
         return local::front( cache);
      }
   }

   namespace non::blocking
   {
      cache_range_type receive( ipc::Handle&, cache_type& cache)
      {
         if( model::inbox().empty())
            return {};
         return local::front( cache);
      }
   }
}

namespace
{
   using Descriptor = common::strong::conversation::descriptor::id;
   using Duplex = message::conversation::duplex::Type;
   using CFlag = conversation::connect::Flag;
   using SFlag = conversation::send::Flag;
   using RFlag = conversation::receive::Flag;
   using Event = conversation::Event;
   using model::Do;

   conversation::Context& context() { return conversation::Context::instance();}

   constexpr int code( Code value) { return static_cast< int>( value);}

   common::buffer::Payload payload( unsigned char tag)
   {
      common::buffer::Payload result{ std::string{ "X_OCTET/"}};
      result.data.push_back( static_cast< std::byte>( tag));
      return result;
   }

   struct Outcome
   {
      int error = 0;
      Event event{};
      long user = 0;
      unsigned char value = 0;
   };

   template< typename A>
   Outcome attempt( A action)
   {
      try
      {
         return action();
      }
      catch( const Event& event)
      {
         return { 0, event};
      }
      catch( const std::system_error& error)
      {
         return { error.code().value()};
      }
   }

   Outcome send( int descriptor, unsigned char value, bool give)
   {
      return attempt( [ &]()
      {
         auto buffer = payload( value);
         auto result = context().send( Descriptor{ descriptor}, common::buffer::payload::Send{ buffer}, give ? SFlag::receive_only : SFlag{});
         return Outcome{ 0, result.event, result.user};
      });
   }

   Outcome receive( int descriptor, bool block)
   {
      return attempt( [ &]()
      {
         auto result = context().receive( Descriptor{ descriptor}, block ? RFlag{} : RFlag::no_block);
         return Outcome{ 0, result.event, result.user, result.buffer.data.size() == 1 ? static_cast< unsigned char>( result.buffer.data[ 0]) : static_cast< unsigned char>( 0)};
      });
   }

   Outcome disconnect( int descriptor)
   {
      return attempt( [ &]()
      {
         context().disconnect( Descriptor{ descriptor});
         return Outcome{};
      });
   }

   Outcome connect( CFlag flags, int& descriptor, unsigned char value = 5)
   {
      return attempt( [ &]()
      {
         auto buffer = payload( value);
         descriptor = static_cast< int>( context().connect( "s", common::buffer::payload::Send{ buffer}, flags).value());
         return Outcome{};
      });
   }

   //! what the application knows of a conversation
   struct Known
   {
      int descriptor = -1;
      common::strong::correlation::id correlation;
      bool live = false;
      bool control = false;
      //! it is the initiator
      bool initiator = true;
      //! what has been seen of what the peer has done
      std::size_t seen = 0;
      int sent = 0;

      //! the next the peer has done, or nullptr
      const model::Done* next()
      {
         std::size_t index = 0;
         for( auto& done : model::done())
            if( done.correlation == correlation)
               if( index++ == seen)
                  return &done;
         return nullptr;
      }

      model::Peer& peer() { return *model::find( correlation);}
   };

   Event event( Do what)
   {
      switch( what)
      {
         case Do::success: return Event::service_success;
         case Do::fail: return Event::service_fail;
         case Do::disconnect: return Event::disconnect;
         default: return Event::service_error;
      }
   }

   void step_send( Known& known)
   {
      auto give = v_pick< int>( 0, 1, "give") == 1;
      auto value = static_cast< unsigned char>( 100 + known.descriptor * 10 + known.sent);
      auto before = known.live ? known.peer().received.size() : 0;
      auto outcome = send( known.descriptor, value, give);
      if( ! known.live)
      {
         v_assert( outcome.error == code( Code::descriptor), "a conversation that is over is not known");
         v_cover( "gone");
         return;
      }
      if( ! known.control)
      {
         v_assert( outcome.error == code( Code::protocol), "only the one in control sends");
         v_assert( known.peer().received.size() == before, "nothing is sent");
         v_cover( "protocol");
         return;
      }
      v_assert( outcome.error == 0, "the one in control sends");

      if( auto next = known.next())
      {
         // it is over, and has been told so
         v_assert( outcome.event == event( next->what), "the application is told how the conversation ended");
         v_assert( next->what != Do::fail || outcome.user == next->value, "the application is told what the service returned");
         v_assert( known.peer().received.size() == before, "nothing is sent when the conversation is over");
         known.live = false;
         v_cover( next->what == Do::disconnect ? "disconnect" : next->what == Do::fail ? "fail" : "error");
         return;
      }
      v_assert( common::flag::empty( outcome.event), "nothing has happened");
      v_assert( known.peer().received.size() == before + 1 && known.peer().received.back() == value, "what is sent is what the application gave");
      v_assert( known.peer().control == give, "control is given exactly if asked for");
      known.control = ! give;
      ++known.sent;
      v_cover( "sent");
   }

   void step_receive( Known& known)
   {
      auto block = v_pick< int>( 0, 1, "block") == 1;
      if( known.live && ! known.control && ! block && ! known.peer().over && v_pick< int>( 0, 1, "comes") == 1)
         model::act( known.peer());
      auto outcome = receive( known.descriptor, block);
      if( ! known.live)
      {
         v_assert( outcome.error == code( Code::descriptor), "a conversation that is over is not known");
         v_cover( "gone");
         return;
      }
      if( known.control)
      {
         v_assert( outcome.error == code( Code::protocol), "the one in control does not receive");
         v_cover( "protocol");
         return;
      }
      auto next = known.next();
      if( outcome.error != 0)
      {
         v_assert( outcome.error == code( Code::no_message) && ! block && ! next, "the application is told that there is nothing only when there is nothing");
         v_cover( "nothing");
         return;
      }
      v_assert( next != nullptr, "what is received is what the other side did");
      if( ! next)
         v_end();

      // an end could be seen before what was sent before it
      if( next->what == Do::data || next->what == Do::give)
      {
         auto early = false;
         for( auto& done : model::done())
            if( done.correlation == known.correlation && done.what == Do::disconnect && outcome.event == Event::disconnect)
               early = true;
         if( early)
         {
            known.live = false;
            v_cover( "disconnect");
            return;
         }
         v_assert( outcome.value == next->value, "what is received is what the other side sent, in order");
         if( next->what == Do::give)
         {
            v_assert( outcome.event == Event::send_only, "the application is told that it is in control");
            known.control = true;
            v_cover( "control");
         }
         else
         {
            v_assert( common::flag::empty( outcome.event), "nothing but data has come");
            v_cover( "received");
         }
         ++known.seen;
         return;
      }
      v_assert( outcome.event == event( next->what), "the application is told how the conversation ended");
      if( next->what == Do::success || next->what == Do::fail)
         v_assert( outcome.user == next->value && outcome.value == next->value, "the application is told what the service returned");
      known.live = false;
      switch( next->what)
      {
         case Do::success: v_cover( "success"); break;
         case Do::fail: v_cover( "fail"); break;
         case Do::disconnect: v_cover( "disconnect"); break;
         default: v_cover( "error");
      }
   }

   void step_disconnect( Known& known)
   {
      auto before = world::count< message::conversation::Disconnect>( world::ipc( 2));
      auto outcome = disconnect( known.descriptor);
      auto after = world::count< message::conversation::Disconnect>( world::ipc( 2));
      if( ! known.live)
      {
         v_assert( outcome.error == code( Code::descriptor) && after == before, "a conversation that is over is not known");
         v_cover( "gone");
         return;
      }
      if( ! known.initiator)
      {
         v_assert( outcome.error == code( Code::descriptor) && after == before, "only the initiator disconnects");
         v_cover( "refused");
         return;
      }
      v_assert( outcome.error == 0 && after == before + 1, "the other side is told that the conversation is over");
      known.live = false;
      v_cover( "disconnected");
   }

   void history( std::vector< Known>& known, int steps)
   {
      for( int step = 0; step < steps; ++step)
      {
         auto& one = known[ step == 0 ? 0 : v_pick< std::size_t>( 0, known.size() - 1, "conversation")];
         // the peer could do something at any time
         if( one.live && ! one.peer().over && step > 0 && one.control && v_pick< int>( 0, 1, "acts") == 1)
            model::act( one.peer());

         switch( v_pick< int>( 0, 2, "what"))
         {
            case 0: step_send( one); break;
            case 1: step_receive( one); break;
            case 2: step_disconnect( one); break;
         }

         auto live = false;
         for( auto& value : known)
            live = live || value.live;
         v_assert( context().pending() == live, "the application knows if there are conversations");
      }
   }

   Known opened( CFlag flags)
   {
      Known result;
      auto outcome = connect( flags, result.descriptor);
      v_assert( outcome.error == 0 && result.descriptor >= 0, "the conversation is connected");
      result.correlation = model::peers().back().correlation;
      result.live = true;
      result.control = common::flag::contains( flags, CFlag::send_only);
      v_assert( model::peers().back().control == ! result.control, "one of them is in control");
      return result;
   }

   //! a conversation that is connected
   Known connected( int id, bool control, bool initiator)
   {
      model::peers().push_back( { world::correlation( id), ! control, false, initiator});
      Known result;
      result.descriptor = static_cast< int>( context().descriptors().reserve( world::correlation( id), world::process( 2), control ? Duplex::send : Duplex::receive, initiator).value());
      result.correlation = world::correlation( id);
      result.live = true;
      result.control = control;
      result.initiator = initiator;
      return result;
   }

   // resource that votes for everything
   namespace rm
   {
      extern "C"
      {
         int v_xa_open( const char*, int, long) { return 0;}
         int v_xa_work( XID*, int, long) { return 0;}
         int v_xa_recover( XID*, long, int, long) { return 0;}
         int v_xa_complete( int*, int*, int, long) { return 0;}
      }
   }
}

extern "C" void h_conversation_initiator()
{
   v_bound( "2 conversations, 2 steps, the other side does 2 at most");
   std::vector< Known> known;
   known.push_back( connected( 8, v_pick< int>( 0, 1, "control") == 1, true));
   known.push_back( connected( 9, false, true));
   v_assert( known[ 0].descriptor != known[ 1].descriptor, "every conversation has a descriptor of its own");
   history( known, 2);
}

extern "C" void h_conversation_initiator_long()
{
   v_bound( "1 conversation, 3 steps, the other side does 2 at most");
   std::vector< Known> known{ connected( 8, v_pick< int>( 0, 1, "control") == 1, true)};
   history( known, 3);
}

extern "C" void h_conversation_end()
{
   v_bound( "a payload of at most 2 bytes");
   auto control = v_pick< int>( 0, 1, "control") == 1;
   auto known = connected( 8, control, true);
   message::conversation::callee::Send message;
   message.correlation = known.correlation;
   message.duplex = v_pick< int>( 0, 1, "duplex") ? Duplex::terminated : Duplex::receive;
   message.code.result = control || v_pick< int>( 0, 1, "fails") ? Code::service_fail : Code::ok;
   auto user = v_any< int>( "user");
   message.code.user = user;
   auto what = v_pick< int>( 0, 3, "what");
   if( what == 0)
   {
      message.buffer = common::buffer::Payload{ nullptr};
      v_cover( "null");
   }
   else
   {
      message.buffer = common::buffer::Payload{ std::string{ v_pick< int>( 0, 1, "type") ? "X_OCTET/" : "CSTRING/"}};
      for( int index = 1; index < what; ++index)
         message.buffer.data.push_back( static_cast< std::byte>( v_any< unsigned char>( "byte")));
      v_cover( what == 1 ? "empty" : "data");
   }
   model::inbox().push_back( world::complete( message));
   auto expected = message.code.result == Code::ok ? Event::service_success : Event::service_fail;
   if( control)
   {
      // the application sends, and is told
      auto outcome = send( known.descriptor, 1, false);
      v_assert( outcome.event == expected && outcome.user == user, "the application is told how the conversation ended");
   }
   else
   {
      auto result = context().receive( Descriptor{ known.descriptor}, RFlag{});
      v_assert( result.event == expected, "the application is told how the conversation ended");
      v_assert( result.user == user, "the application gets the code that the service returned");
      v_assert( result.buffer.type == message.buffer.type && result.buffer.data.size() == message.buffer.data.size(), "the application gets what the service returned");
      for( std::size_t index = 0; index < result.buffer.data.size() && index < message.buffer.data.size(); ++index)
         v_assert( result.buffer.data[ index] == message.buffer.data[ index], "the application gets what the service returned");
   }
   v_assert( ! context().pending(), "the conversation is over");
}

extern "C" void h_conversation_callee()
{
   v_bound( "1 conversation, 3 steps");
   std::vector< Known> known{ connected( 9, v_pick< int>( 0, 1, "control") == 1, false)};
   history( known, 3);
}

namespace
{
   transaction::Context& begin()
   {
      auto& context = transaction::Context::instance();
      v_assert( context.begin() == tx::ok, "a transaction is started");
      world::sent().clear();
      return context;
   }
}

extern "C" void h_conversation_connect()
{
   v_bound( "one conversation");
   auto inside = v_pick< int>( 0, 1, "transaction") == 1;
   auto no_transaction = v_pick< int>( 0, 1, "no transaction") == 1;
   auto sends = v_pick< int>( 0, 1, "sends") == 1;
   auto receives = v_pick< int>( 0, 1, "receives") == 1;
   if( inside)
      begin();
   auto trid = transaction::Context::instance().current().trid;

   auto flags = CFlag{};
   if( no_transaction)
      flags |= CFlag::no_transaction;
   if( sends)
      flags |= CFlag::send_only;
   if( receives)
      flags |= CFlag::receive_only;

   auto how = v_pick< int>( 0, 3, "how");
   model::dies() = how == 3;
   if( how == 1)
      model::lookup() = model::Lookup::absent;
   if( how == 2)
      world::lost().push_back( world::ipc( 2));

   int descriptor = -1;
   auto outcome = connect( flags, descriptor);
   if( sends == receives)
   {
      v_assert( outcome.error == code( Code::argument), "a conversation is connected to send or to receive");
      v_assert( world::sent().empty() && ! context().pending(), "nothing is done");
      v_cover( "argument");
      return;
   }
   if( how > 0)
   {
      v_assert( how == 1 ? outcome.error == code( Code::no_entry) : outcome.error != 0, "the application is told that the conversation is not connected");
      v_assert( ! context().pending(), "nothing is left behind");
      v_cover( how == 1 ? "absent" : how == 2 ? "lost" : "dies");
      if( inside && ! no_transaction && how == 3)
      {
         v_assert( transaction::Context::instance().commit() != tx::ok && world::count< message::transaction::commit::Request>( {}) == 0, "work of a service that has died is not committed");
         v_assert( ! transaction::Context::instance().current() || transaction::Context::instance().rollback() == tx::ok, "the transaction is rolled back");
      }
      else if( inside)
         v_assert( transaction::Context::instance().commit() == tx::ok, "a conversation that is not connected does not hinder the transaction");
      return;
   }
   v_assert( outcome.error == 0 && context().pending(), "the conversation is connected");
   world::Complete* complete{};
   for( auto& sent : world::sent())
      if( sent.complete.type() == message::conversation::connect::caller::Request::type())
      {
         v_assert( ! complete && sent.destination == world::ipc( 2), "the conversation is connected once, to the instance that is reserved");
         complete = &sent.complete;
      }
   if( ! complete)
      v_end();
   auto request = world::as< message::conversation::connect::callee::Request>( *complete);
   v_assert( request.process == common::process::handle(), "the other side knows who it is");
   v_assert( request.service.name == "s" && request.buffer.data.size() == 1 && request.buffer.data[ 0] == std::byte{ 5}, "the service is given what the application gave");
   v_assert( request.deadline.remaining && *request.deadline.remaining == model::Duration{ 7}, "the deadline follows the conversation");
   v_assert( request.duplex == ( sends ? Duplex::receive : Duplex::send), "one of them is in control");
   v_cover( sends ? "sends" : "receives");
   auto joined = inside && ! no_transaction;
   v_assert( joined ? request.trid == trid && ! transaction::id::null( request.trid) : transaction::id::null( request.trid), "a conversation takes part in the transaction exactly if it is asked to");
   v_assert( transaction::Context::instance().associated( request.correlation) == joined, "the transaction waits for its conversations");
   v_cover( joined ? "joined" : "alone");
}

extern "C" void h_conversation_transaction()
{
   v_bound( "one conversation");
   auto& tx_context = begin();
   auto no_transaction = v_pick< int>( 0, 1, "no transaction") == 1;
   auto receives = v_pick< int>( 0, 1, "receives") == 1;
   auto flags = receives ? CFlag::receive_only : CFlag::send_only;
   if( no_transaction)
      flags |= CFlag::no_transaction;
   auto known = opened( flags);

   if( ! no_transaction)
   {
      v_assert( tx_context.commit() == tx::protocol, "the transaction waits for the conversation");
      v_cover( "waits");
   }

   auto good = false;
   if( v_pick< int>( 0, 3, "disconnect") == 0)
   {
      auto outcome = disconnect( known.descriptor);
      v_assert( outcome.error == 0, "the application disconnects");
   }
   else
   {
      auto what = receives ? v_one_of( { Do::success, Do::fail, Do::error, Do::die}, "does") : v_one_of( { Do::fail, Do::error, Do::die}, "does");
      model::act( known.peer(), what);
      auto outcome = receives ? receive( known.descriptor, true) : send( known.descriptor, 1, false);
      v_assert( outcome.error == 0 && outcome.event == event( what), "the application is told how the conversation ended");
      good = what == Do::success;
   }
   v_assert( ! context().pending(), "the conversation is over");

   if( good || no_transaction)
   {
      v_assert( tx_context.commit() == tx::ok, "the transaction is committed when the conversation has ended well");
      v_cover( "commit");
   }
   else
   {
      v_assert( tx_context.commit() != tx::ok && world::count< message::transaction::commit::Request>( {}) == 0, "the transaction is not committed when the conversation has not ended well");
      v_assert( ! tx_context.current() || tx_context.rollback() == tx::ok, "the transaction is rolled back");
      v_cover( "rollback");
   }
}
