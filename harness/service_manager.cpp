// @property C13
// @tu middleware/service/source/manager/handle.cpp
// @tu middleware/service/source/manager/state.cpp
// @tu middleware/common/source/communication/ipc/message.cpp
// @tu middleware/common/source/communication/socket.cpp
// @tu middleware/common/source/server/argument.cpp
// @tu middleware/common/source/server/context.cpp
// @tu middleware/common/source/transaction/id.cpp
// @tu middleware/common/source/transaction/global.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/metric.cpp
// @tu middleware/common/source/assert.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/xatmi.cpp
// @tu middleware/common/source/code/serialize.cpp
// @tu middleware/common/source/service/type.cpp
// @tu middleware/common/source/buffer/type.cpp
// @tu middleware/common/source/exception/capture.cpp
// @tu middleware/common/source/exception/guard.cpp
// @assume a message that is sent is delivered once, or the sender is told that the destination is gone
// @assume the random choice is any number in the range that is asked for
// @config replace ^std::uniform_int_distribution<long>::operator\(\)<.*>\(.*, std::uniform_int_distribution<long>::param_type.*\)$ model_random_param
// @entry h_sm_history covers=idle,waited,absent,died,discarded bounded time=300 : any history of lookups, acknowledgements, discards, exits and new instances
// @entry h_sm_history_waiting covers=idle,waited,absent,discarded bounded time=300 : any history where someone waits for a busy instance, and callers disappear and services are unadvertised
// @entry h_sm_history_deep covers=idle,waited,absent,died,discarded bounded tier=thorough time=600 : any longer history of lookups, acknowledgements, discards, exits and new instances
// @entry h_sm_history_waiting_deep covers=idle,waited,absent,discarded bounded tier=thorough time=600 : any longer history where someone waits for a busy instance, and callers disappear and services are unadvertised
// @entry h_sm_deadline covers=next,none,postponed bounded time=120 : the next deadline is always known
// @entry h_sm_timeout covers=timeout,waiting,fatal bounded time=200 : a caller gets a timeout when its deadline is passed, once, and the instance is not used until it is done
// @entry h_sm_concurrent covers=sequential,concurrent,absent bounded time=200 : a local instance is used if there is one, otherwise one with the best priority
// @entry h_sm_associated covers=associated bounded time=120 : a transaction stays with the instance it has been associated with
// @entry h_sm_discovery covers=absent,idle,discovered bounded time=200 : what is not known is asked for, and the caller gets an answer
// @entry h_sm_shutdown covers=idle,busy,acked,exited,discarded,timeout bounded time=300 : a process that is to be shut down is not used any more, and the one that ordered it is told when the process is done
// @entry h_sm_line covers=all bounded time=200 : however many there are in line they are served in order, whoever leaves the line
// @entry h_sm_route_gone covers=other,absent bounded time=200 : a service with routes that one instance does not offer any more is found at the others
// @entry h_sm_route covers=route,origin bounded time=120 : a service with routes is found by its routes
#include "v_world.h"
#include "service/manager/handle.h"
#include "service/manager/state.h"
#include "service/manager/admin/server.h"
#include "service/manager/transform.h"
#include "service/manager/configuration.h"
#include "service/common.h"
#include "domain/discovery/api.h"
#include "common/signal/timer.h"
#include "common/instance.h"
#include "common/algorithm/random.h"

namespace common = casual::common;
namespace manager = casual::service::manager;
namespace message = casual::common::message::service;


namespace casual
{
   namespace service::manager::admin
   {
      common::server::Arguments services( manager::State&) { return {};}
   }

   namespace service::manager::configuration
   {
      void conform( manager::State&, casual::configuration::model::service::Model, casual::configuration::model::service::Model) {}
   }

   namespace service::manager::transform
   {
      casual::configuration::model::service::Model configuration( const manager::State&) { return {};}
   }
}

namespace world
{
   //! what is asked for in other domains
   struct Discovery { std::vector< std::string> services; common::strong::correlation::id correlation;};
   inline std::vector< Discovery>& discoveries() { static std::vector< Discovery> result; return result;}
   //! is there someone to ask?
   inline bool& neighbours() { static bool result = false; return result;}
   inline std::vector< casual::platform::time::unit>& timers() { static std::vector< casual::platform::time::unit> result; return result;}
}

namespace casual::domain::discovery
{
   common::strong::correlation::id request( Send&, std::vector< std::string> services, std::vector< std::string>, common::strong::correlation::id correlation)
   {
      if( ! world::neighbours())
         return {};
      world::discoveries().push_back( { std::move( services), correlation});
      return correlation;
   }
}

namespace casual::common
{
   // the forward cache
   Process::Process() = default;
   Process::~Process() = default;
   void Process::clear() {}
}

namespace casual::common::communication::select::directive
{
   void Set::add( strong::file::descriptor::id) noexcept {}
   void Set::remove( strong::file::descriptor::id) noexcept {}
}

namespace casual::common::instance
{
   std::string alias() { return "casual-service-manager";}
}

namespace casual::common::signal::timer
{
   unit::type set( unit::type offset) { if( offset) world::timers().push_back( *offset); return {};}
}

namespace
{
   using State = message::lookup::reply::State;

   long model_random( long first, long last) { return v_pick< long>( first, last, "random");}

   constexpr int instance_base = 10;
   constexpr int caller_base = 100;

   //! the service manager, and what is known about it from the outside: what it has been told, and what it has answered
   struct SM
   {
      struct Instance
      {
         bool alive = true;
         std::vector< std::string> services;
         int reserved = -1;
      };

      struct Request
      {
         enum struct Is { waiting, idle, absent, discarded, timeout, lost} is = Is::waiting;
         std::string service;
         int instance = -1;
         bool gone = false;
         int errors = 0;
      };

      SM() : handler{ manager::handle::create( state)} {}

      template< typename M>
      void dispatch( const M& message)
      {
         {
            auto complete = world::complete( message);
            handler( complete);
         }
         check();
      }

      common::process::Handle process( int instance) const { return world::process( instance_base + instance);}
      common::process::Handle caller( int request) const { return world::process( caller_base + request);}
      common::strong::correlation::id correlation( int request) const { return world::correlation( static_cast< unsigned char>( caller_base + request));}

      int advertise( std::vector< std::string> services)
      {
         instances.push_back( { true, services});
         auto index = static_cast< int>( instances.size()) - 1;
         message::Advertise message{ process( index)};
         message.alias = "a";
         for( auto& name : services)
            message.services.add.emplace_back().name = name;
         dispatch( message);
         return index;
      }

      int lookup( std::string service, message::lookup::request::Context context = {})
      {
         requests.emplace_back().service = service;
         auto index = static_cast< int>( requests.size()) - 1;
         message::lookup::Request message{ caller( index)};
         message.correlation = correlation( index);
         message.requested = service;
         message.context = context;
         dispatch( message);
         return index;
      }

      //! an instance updates its services
      void update( int instance, bool offer)
      {
         message::Advertise message{ process( instance)};
         message.alias = "a";
         if( offer)
            message.services.add.emplace_back().name = "s";
         else
            message.services.remove.push_back( "s");
         auto& services = instances[ instance].services;
         std::erase( services, "s");
         if( offer)
            services.push_back( "s");
         dispatch( message);
      }

      //! the reserved instance is done
      void ack( int instance)
      {
         message::call::ACK message;
         message.correlation = correlation( instances[ instance].reserved);
         message.metric.process = process( instance);
         message.metric.service = requests[ instances[ instance].reserved].service;
         instances[ instance].reserved = -1;
         dispatch( message);
      }

      //! the process exits
      void exit( int instance)
      {
         instances[ instance].alive = false;
         dying = instances[ instance].reserved;
         instances[ instance].reserved = -1;
         common::message::event::process::Exit event{};
         event.state.pid = process( instance).pid;
         dispatch( event);
         if( dying >= 0)
         {
            v_cover( "died");
            v_assert( requests[ dying].errors == 1, "a caller is told when the instance it waits for dies");
         }
         dying = -1;
      }

      //! the caller does not want the service any more
      void discard( int request)
      {
         auto& current = requests[ request];
         auto waiting = current.is == Request::Is::waiting;
         if( waiting)
            current.is = Request::Is::discarded;
         else if( current.instance >= 0 && instances[ current.instance].reserved == request)
            instances[ current.instance].reserved = -1;

         message::lookup::discard::Request message{ caller( request)};
         message.correlation = correlation( request);
         message.requested = current.service;
         dispatch( message);
         auto replies = world::all< message::lookup::discard::Reply>();
         v_assert( replies.size() == ++discards && replies.back().correlation == correlation( request), "a discard is answered once");
         v_assert( ( replies.back().state == decltype( replies.back().state)::discarded) == waiting, "the caller is told if the request was still waiting");
         v_cover( "discarded");
      }

      //! the caller is gone, no one has noticed
      void gone( int request)
      {
         requests[ request].gone = true;
         world::lost().push_back( caller( request).ipc);
      }

      bool offers( const Instance& instance, const std::string& service) const
      {
         if( ! instance.alive)
            return false;
         for( auto& name : instance.services)
            if( name == service)
               return true;
         return false;
      }

      int index( common::strong::correlation::id correlation) const
      {
         for( std::size_t i = 0; i < requests.size(); ++i)
            if( this->correlation( static_cast< int>( i)) == correlation)
               return static_cast< int>( i);
         v_assert( false, "an answer to something that is not asked");
         return -1;
      }

      //! every answer since last is right
      void check()
      {
         for( ; consumed < world::sent().size(); ++consumed)
         {
            auto& sent = world::sent()[ consumed];
            if( sent.complete.type() == message::lookup::Reply::type())
            {
               auto reply = world::as< message::lookup::Reply>( sent.complete);
               auto index = this->index( reply.correlation);
               auto& request = requests[ index];
               v_assert( sent.destination == caller( index).ipc, "the answer is sent to the one that asked");
               v_assert( request.is == Request::Is::waiting, "a request is answered once");
               if( reply.state == State::absent)
               {
                  v_cover( "absent");
                  request.is = Request::Is::absent;
                  for( auto& instance : instances)
                     v_assert( ! offers( instance, request.service), "a service is absent only if no one has it");
                  continue;
               }
               if( reply.state == State::timeout)
               {
                  v_assert( timed, "nothing times out");
                  request.is = Request::Is::timeout;
                  continue;
               }
               v_cover( "idle");
               v_assert( reply.service.name == request.service, "the answer is for the service that was requested");
               request.is = Request::Is::idle;
               for( std::size_t i = 0; i < instances.size(); ++i)
                  if( process( static_cast< int>( i)) == reply.process)
                     request.instance = static_cast< int>( i);
               v_assert( request.instance >= 0, "the answer refers to an instance");
               auto& instance = instances[ request.instance];
               v_assert( offers( instance, request.service), "the instance is alive and has the service");
               v_assert( instance.reserved == -1, "an instance is reserved by one caller at a time");
               instance.reserved = index;
               // fifo
               for( int earlier = 0; earlier < index; ++earlier)
                  if( ! requests[ earlier].gone && requests[ earlier].service == request.service)
                     v_assert( requests[ earlier].is != Request::Is::waiting, "the one that has waited the longest is served first");
               if( reply.pending > decltype( reply.pending)::zero())
                  v_cover( "waited");
            }
            else if( sent.complete.type() == message::call::Reply::type())
            {
               auto reply = world::as< message::call::Reply>( sent.complete);
               auto index = this->index( reply.correlation);
               v_assert( sent.destination == caller( index).ipc, "the error is sent to the one that called");
               if( timed)
               {
                  v_assert( requests[ index].instance >= 0 && instances[ requests[ index].instance].reserved == index, "only the one that waits for an answer gets a timeout");
                  v_assert( reply.code.result == common::code::xatmi::timeout, "the caller gets the timeout as the outcome");
               }
               else
               {
                  v_assert( index == dying, "only the caller of the instance that dies gets an error");
                  v_assert( reply.code.result == common::code::xatmi::service_error, "the caller gets the error as the outcome");
               }
               ++requests[ index].errors;
            }
         }

         for( auto& request : requests)
         {
            if( request.is != Request::Is::waiting || request.gone)
               continue;
            bool available = false;
            for( auto& instance : instances)
            {
               if( ! offers( instance, request.service))
                  continue;
               available = true;
               v_assert( instance.reserved != -1, "no one waits for an instance that is idle");
            }
            v_assert( available || fatal, "no one waits for a service that no one has");
         }
      }

      manager::State state;
      manager::handle::dispatch_type handler;
      std::vector< Instance> instances;
      std::vector< Request> requests;
      std::size_t consumed = 0;
      std::size_t discards = 0;
      int dying = -1;
      //! deadlines are passed
      bool timed = false;
      //! there is an instance that is to be killed
      bool fatal = false;
   };

   struct Possible
   {
      int instances = 2;
      int requests = 3;
      bool exit = true;
      bool gone = false;
      bool update = false;
   };

   //! one event that is possible in the current situation
   void step( SM& sm, Possible possible)
   {
      std::vector< std::pair< int, int>> events;
      if( static_cast< int>( sm.requests.size()) < possible.requests)
      {
         events.emplace_back( 0, 0);
         events.emplace_back( 0, 1);
      }
      if( static_cast< int>( sm.instances.size()) < possible.instances)
         events.emplace_back( 1, 0);
      for( int i = 0; i < static_cast< int>( sm.instances.size()); ++i)
      {
         if( sm.instances[ i].reserved >= 0)
            events.emplace_back( 2, i);
         if( sm.instances[ i].alive && possible.exit)
            events.emplace_back( 3, i);
         if( sm.instances[ i].alive && possible.update)
            events.emplace_back( 6, i);
      }
      for( int i = 0; i < static_cast< int>( sm.requests.size()); ++i)
      {
         auto& request = sm.requests[ i];
         if( request.gone)
            continue;
         if( request.is == SM::Request::Is::waiting || ( request.instance >= 0 && sm.instances[ request.instance].reserved == i))
            events.emplace_back( 4, i);
         if( possible.gone && request.is == SM::Request::Is::waiting)
            events.emplace_back( 5, i);
      }
      auto [ event, index] = events[ v_pick< int>( 0, static_cast< int>( events.size()) - 1, "event")];
      switch( event)
      {
         case 0: sm.lookup( index ? "s" : "t"); break;
         case 1: sm.advertise( { "s"}); break;
         case 2: sm.ack( index); break;
         case 3: sm.exit( index); break;
         case 4: sm.discard( index); break;
         case 5: sm.gone( index); break;
         case 6: sm.update( index, ! sm.offers( sm.instances[ index], "s")); break;
      }
   }
}

extern "C" long model_random_param( std::uniform_int_distribution< long>*, std::mt19937&, const std::uniform_int_distribution< long>::param_type& range)
{
   return model_random( range.a(), range.b());
}

namespace casual::common::algorithm::random
{
   std::mt19937& generator() noexcept
   {
      // never used, the numbers are chosen by the model
      alignas( std::mt19937) static unsigned char storage[ sizeof( std::mt19937)];
      return reinterpret_cast< std::mt19937&>( storage);
   }
}

extern "C" void h_sm_history()
{
   v_bound( "4 events, 2 services, 2 instances and 3 requests");
   SM sm;
   sm.advertise( { "s", "t"});
   for( int i = 0; i < 4; ++i)
      step( sm, {});
}

extern "C" void h_sm_history_deep()
{
   v_bound( "5 events, 2 services, 2 instances and 3 requests");
   SM sm;
   sm.advertise( { "s", "t"});
   for( int i = 0; i < 5; ++i)
      step( sm, {});
}

extern "C" void h_sm_history_waiting()
{
   v_bound( "3 events after an instance is reserved and a request waits for it, 2 services, 2 instances and 3 requests");
   SM sm;
   sm.advertise( { "s", "t"});
   sm.lookup( "t");
   sm.lookup( "s");
   for( int i = 0; i < 3; ++i)
      step( sm, { .exit = false, .gone = true, .update = true});
}

extern "C" void h_sm_history_waiting_deep()
{
   v_bound( "4 events after an instance is reserved and a request waits for it, 2 services, 2 instances and 3 requests");
   SM sm;
   sm.advertise( { "s", "t"});
   sm.lookup( "t");
   sm.lookup( "s");
   for( int i = 0; i < 4; ++i)
      step( sm, { .exit = false, .gone = true, .update = true});
}

namespace
{
   using Deadline = manager::state::service::pending::Deadline;
   using time_point = casual::platform::time::point::type;

   time_point when( long value) { return time_point{ std::chrono::nanoseconds{ value}};}
}

extern "C" void h_sm_deadline()
{
   v_bound( "3 deadlines");
   Deadline deadline;
   std::vector< std::pair< long, int>> model;
   auto earliest = [ &]()
   {
      long result = -1;
      for( auto& [ value, id] : model)
         if( result < 0 || value < result)
            result = value;
      return result;
   };
   for( int i = 0; i < 3; ++i)
   {
      auto value = v_any< long>( "when");
      v_assume( value >= 0 && value < 1000);
      auto before = earliest();
      auto next = deadline.add( { .when = when( value), .correlation = world::correlation( static_cast< unsigned char>( i + 1))});
      model.emplace_back( value, i + 1);
      v_assert( next.has_value() == ( before < 0 || value < before), "the next deadline is given when it is changed");
      v_assert( ! next || *next == when( value), "the next deadline is the one that is added");
      v_assert( deadline.find_entry( world::correlation( static_cast< unsigned char>( i + 1)))->when == when( value), "an entry that is added is found");
   }
   auto count = v_pick< int>( 1, 3, "count");
   for( int i = 0; i < count; ++i)
   {
      auto id = v_pick< int>( 1, 3, "id");
      auto next = deadline.remove( world::correlation( static_cast< unsigned char>( id)));
      std::erase_if( model, [ id]( auto& pair){ return pair.second == id;});
      v_assert( deadline.find_entry( world::correlation( static_cast< unsigned char>( id))) == nullptr, "an entry that is removed is not found");
      if( next)
      {
         v_cover( "postponed");
         v_assert( *next == when( earliest()), "the next deadline is the earliest one that is left");
      }
   }
   auto now = v_any< long>( "now");
   v_assume( now >= 0 && now < 1000);
   auto expired = deadline.expired( when( now));
   for( auto& entry : expired.entries)
      v_assert( entry.when < when( now), "what expires is passed");
   long count_passed = 0;
   for( auto& [ value, id] : model)
      if( value < now)
         ++count_passed;
   v_assert( static_cast< long>( expired.entries.size()) == count_passed, "everything that has passed expires");
   std::erase_if( model, [ now]( std::pair< long, int>& pair){ return pair.first < now;});
   v_assert( expired.deadline.has_value() == ! model.empty(), "there is a next deadline if something is left");
   if( expired.deadline)
   {
      v_cover( "next");
      v_assert( *expired.deadline == when( earliest()), "the next deadline is the earliest one that is left");
   }
   else
      v_cover( "none");
}

extern "C" void h_sm_timeout()
{
   v_bound( "an instance, 2 requests");
   using Contract = common::service::execution::timeout::contract::Type;
   SM sm;
   auto contract = v_pick< int>( 0, 2, "contract");
   sm.state.timeout.duration = std::chrono::seconds{ 1};
   if( contract)
      sm.state.timeout.contract = contract == 1 ? Contract::linger : Contract::kill;
   auto fatal = contract == 2;
   sm.advertise( { "s"});
   sm.lookup( "s");
   auto first = world::now();
   v_assert( world::timers().size() == 1, "the timer is set");
   world::now() += 500'000'000;
   sm.lookup( "s");

   auto both = v_pick< int>( 0, 1, "both") == 1;
   world::now() = first + ( both ? 2'000'000'000 : 1'100'000'000);
   sm.timed = true;
   auto timers = world::timers().size();
   manager::handle::timeout( sm.state);
   sm.check();
   v_cover( "timeout");
   v_assert( sm.requests[ 0].errors == 1, "the caller gets a timeout");
   v_assert( ( sm.requests[ 1].is == SM::Request::Is::timeout) == both, "a request that waits gets a timeout when its deadline is passed");
   v_assert( world::events().size() == 1, "the one that is responsible for the process is told");
   auto event = world::as< common::message::event::process::Assassination>( world::events().back());
   v_assert( event.target == sm.process( 0).pid, "the process that does not answer is the target");
   if( ! both)
   {
      v_cover( "waiting");
      v_assert( world::timers().size() == timers + 1, "the timer is set for the next one");
      v_assert( world::timers().back() > std::chrono::milliseconds{ 300} && world::timers().back() < std::chrono::milliseconds{ 500}, "the timer is set to the next deadline");
   }
   auto sent = world::sent().size();
   manager::handle::timeout( sm.state);
   v_assert( world::sent().size() == sent, "a deadline expires once");

   // what happens to the instance
   if( v_pick< int>( 0, 1, "exit"))
   {
      sm.timed = false;
      sm.instances[ 0].alive = false;
      sm.instances[ 0].reserved = -1;
      common::message::event::process::Exit exited{};
      exited.state.pid = sm.process( 0).pid;
      sm.dispatch( exited);
      v_assert( sm.requests[ 0].errors == 1, "the caller gets one outcome");
   }
   else
   {
      if( fatal)
      {
         v_cover( "fatal");
         sm.instances[ 0].services.clear();
         sm.fatal = true;
      }
      sm.ack( 0);
      v_assert( sm.requests[ 0].errors == 1, "the caller gets one outcome");
      if( fatal)
      {
         sm.lookup( "s");
         v_assert( sm.requests.back().is == SM::Request::Is::waiting, "an instance that is about to be killed is not used");
      }
   }
}

namespace
{
   void concurrent( SM& sm, int index, std::vector< std::pair< std::string, long>> services, long order, message::concurrent::advertise::Directive directive = {})
   {
      message::concurrent::Advertise message{ world::process( 60 + index)};
      message.alias = "c";
      message.order = order;
      message.directive = directive;
      for( auto& [ name, hops] : services)
      {
         auto& service = message.services.add.emplace_back();
         service.name = name;
         service.property.hops = hops;
      }
      auto complete = world::complete( message);
      sm.handler( complete);
   }

   //! the answer of a lookup
   std::optional< message::lookup::Reply> ask( SM& sm, std::string service, message::lookup::request::Context context = {}, common::transaction::global::ID gtrid = {})
   {
      static int count = 0;
      ++count;
      message::lookup::Request message{ world::process( 120 + count)};
      message.correlation = world::correlation( static_cast< unsigned char>( 120 + count));
      message.requested = service;
      message.context = context;
      message.gtrid = gtrid;
      auto before = world::sent().size();
      auto complete = world::complete( message);
      sm.handler( complete);
      if( world::sent().size() == before)
         return {};
      v_assert( world::sent().size() == before + 1, "one answer");
      v_assert( world::sent().back().destination == world::ipc( static_cast< unsigned char>( 120 + count)), "the answer is sent to the one that asked");
      auto reply = world::as< message::lookup::Reply>( world::sent().back().complete);
      v_assert( reply.correlation == message.correlation, "the answer correlates");
      return reply;
   }

   using Requester = message::lookup::request::context::Requester;
   using Semantic = message::lookup::request::context::Semantic;
}

extern "C" void h_sm_concurrent()
{
   v_bound( "2 concurrent instances and one sequential");
   SM sm;
   long order[ 2], hops[ 2];
   for( int i = 0; i < 2; ++i)
   {
      order[ i] = v_pick< long>( 0, 1, "order");
      hops[ i] = v_pick< long>( 0, 1, "hops");
      concurrent( sm, i, { { "s", hops[ i]}}, order[ i]);
   }
   // the order might be changed
   if( v_pick< int>( 0, 1, "reorder"))
   {
      order[ 0] = 1 - order[ 0];
      concurrent( sm, 0, {}, order[ 0], message::concurrent::advertise::Directive::instance);
   }
   bool present[ 2] = { true, true};
   auto lost = v_pick< int>( 0, 3, "lost");
   if( lost == 1)
   {
      // the connection is gone
      concurrent( sm, 0, {}, 0, message::concurrent::advertise::Directive::reset);
      present[ 0] = false;
   }
   else if( lost == 2)
   {
      common::message::event::process::Exit exited{};
      exited.state.pid = world::process( 61).pid;
      sm.dispatch( exited);
      present[ 1] = false;
   }
   else if( lost == 3)
   {
      message::concurrent::Advertise message{ world::process( 60)};
      message.alias = "c";
      message.order = order[ 0];
      message.services.remove.push_back( "s");
      sm.dispatch( message);
      present[ 0] = false;
   }
   auto best = [ &]( int index)
   {
      if( ! present[ index])
         return false;
      auto other = 1 - index;
      return ! present[ other] || std::tie( order[ index], hops[ index]) <= std::tie( order[ other], hops[ other]);
   };
   // no local
   {
      auto external = ask( sm, "s", { Semantic::regular, Requester::external});
      v_assert( external && external->state == State::absent, "a request from another domain does not leave this domain");
      v_cover( "absent");
      auto reply = ask( sm, "s");
      v_assert( reply && reply->state == State::idle, "a concurrent instance is never busy");
      v_cover( "concurrent");
      v_assert( ( best( 0) && reply->process == world::process( 60)) || ( best( 1) && reply->process == world::process( 61)), "an instance with the best priority is used");
      auto again = ask( sm, "s", { Semantic::regular, Requester::external_discovery});
      v_assert( again && again->state == State::idle, "a concurrent instance is never busy");
   }
   // with a local
   {
      sm.instances.push_back( { true, { "s"}});
      message::Advertise message{ sm.process( 0)};
      message.alias = "a";
      message.services.add.emplace_back().name = "s";
      auto complete = world::complete( message);
      sm.handler( complete);
      auto reply = ask( sm, "s", { Semantic::regular, v_pick< int>( 0, 1, "external") ? Requester::external : Requester::internal});
      v_assert( reply && reply->state == State::idle && reply->process == sm.process( 0), "a local instance is used");
      v_cover( "sequential");
      v_assert( ! ask( sm, "s"), "a request waits for a local instance");
   }
}

extern "C" void h_sm_associated()
{
   v_bound( "2 concurrent instances, one transaction");
   SM sm;
   concurrent( sm, 0, { { "s", 0}, { "t", 0}}, 0);
   concurrent( sm, 1, { { "s", 0}}, 0);
   auto trid = common::transaction::ID{ common::Uuid{ world::uuid( 9)}, common::Uuid{ world::uuid( 10)}, world::process( 1)};
   common::transaction::global::ID gtrid{ common::transaction::id::range::global( trid)};
   auto first = ask( sm, "s", {}, gtrid);
   v_assert( first && first->state == State::idle, "found");
   auto second = ask( sm, "s", {}, gtrid);
   v_assert( second && second->process == first->process, "a transaction stays with the instance it is associated with");
   auto third = ask( sm, "t", {}, gtrid);
   v_assert( third && third->process == world::process( 60), "the only one is used");
   v_cover( "associated");
   common::message::event::transaction::Disassociate message{};
   message.gtrid = gtrid;
   auto complete = world::complete( message);
   sm.handler( complete);
   v_assert( sm.state.transaction.associations.empty(), "the association ends with the transaction");
}

extern "C" void h_sm_discovery()
{
   v_bound( "one request, and what happens until it is answered");
   SM sm;
   world::neighbours() = true;
   auto semantic = v_pick< int>( 0, 1, "wait") ? Semantic::wait : Semantic::regular;
   message::lookup::Request message{ world::process( 100)};
   message.correlation = world::correlation( 100);
   message.requested = "s";
   message.context = { semantic, v_pick< int>( 0, 1, "external discovery") ? Requester::internal : Requester::external_discovery};
   auto discovered = message.context.requester == Requester::internal;
   {
      auto complete = world::complete( message);
      sm.handler( complete);
   }
   if( ! discovered)
   {
      v_assert( world::discoveries().empty(), "a service that has never been known is not discovered for another domain");
      auto replies = world::all< message::lookup::Reply>();
      v_assert( replies.size() == 1 && replies[ 0].state == State::absent, "the service is absent");
      v_cover( "absent");
      return;
   }
   v_cover( "discovered");
   v_assert( world::sent().empty(), "no answer until it is known");
   v_assert( world::discoveries().size() == 1 && world::discoveries()[ 0].services == std::vector< std::string>{ "s"}, "other domains are asked");
   v_assert( world::discoveries()[ 0].correlation == message.correlation, "the discovery correlates");
   auto advertised = v_pick< int>( 0, 2, "advertised");
   if( advertised == 1)
      concurrent( sm, 0, { { "s", 0}}, 0);
   else if( advertised == 2)
   {
      message::Advertise local{ sm.process( 0)};
      local.alias = "a";
      local.services.add.emplace_back().name = "s";
      auto complete = world::complete( local);
      sm.handler( complete);
   }
   {
      casual::domain::message::discovery::api::Reply reply;
      reply.correlation = message.correlation;
      auto complete = world::complete( reply);
      sm.handler( complete);
   }
   if( ! advertised && semantic == Semantic::wait)
   {
      v_assert( world::sent().empty(), "the caller waits until there is one");
      concurrent( sm, 0, { { "s", 0}}, 0);
      advertised = 1;
   }
   auto replies = world::all< message::lookup::Reply>();
   v_assert( replies.size() == 1, "one answer");
   v_assert( replies[ 0].correlation == message.correlation, "the answer correlates");
   if( advertised)
   {
      v_cover( "idle");
      v_assert( replies[ 0].state == State::idle && replies[ 0].process == ( advertised == 1 ? world::process( 60) : sm.process( 0)), "the one that has it is used");
   }
   else
   {
      v_cover( "absent");
      v_assert( replies[ 0].state == State::absent, "no one has it");
   }
}

extern "C" void h_sm_shutdown()
{
   v_bound( "2 instances, one is reserved");
   SM sm;
   sm.state.timeout.duration = std::chrono::seconds{ 1};
   sm.advertise( { "s"});
   sm.lookup( "s");
   sm.advertise( { "s"});
   auto timeout = v_pick< int>( 0, 1, "timeout") == 1;
   if( timeout)
   {
      v_cover( "timeout");
      sm.timed = true;
      world::now() += 2'000'000'000;
      manager::handle::timeout( sm.state);
      sm.check();
   }
   {
      common::message::domain::process::prepare::shutdown::Request message{ world::process( 5)};
      message.correlation = world::correlation( 5);
      message.processes = { sm.process( 0), sm.process( 1), world::process( 77)};
      sm.instances[ 0].services.clear();
      sm.instances[ 1].services.clear();
      sm.dispatch( message);
   }
   using Reply = common::message::domain::process::prepare::shutdown::Reply;
   {
      auto replies = world::all< Reply>();
      v_assert( replies.size() == 1 && replies[ 0].correlation == world::correlation( 5), "there is an answer for those that are not used");
      v_assert( replies[ 0].processes.size() == 2, "the ones that are not used are ready");
      for( auto& process : replies[ 0].processes)
         v_assert( process == sm.process( 1) || process == world::process( 77), "the ones that are not used are ready");
      v_cover( "idle");
   }
   // not used any more
   {
      auto reply = sm.lookup( "s");
      v_assert( sm.requests[ reply].is == SM::Request::Is::absent, "a process that is to be shut down is not used");
   }
   if( v_pick< int>( 0, 1, "advertise"))
   {
      // the instance does not know yet
      message::Advertise message{ sm.process( 0)};
      message.alias = "a";
      message.services.add.emplace_back().name = "u";
      sm.dispatch( message);
      auto reply = sm.lookup( "u");
      v_assert( sm.requests[ reply].is == SM::Request::Is::absent, "a process that is to be shut down does not get more to do");
   }
   v_assert( world::all< Reply>().size() == 1, "a process that is used is not ready");
   v_cover( "busy");
   switch( v_pick< int>( 0, timeout ? 1 : 2, "done"))
   {
      case 0:
      {
         v_cover( "acked");
         sm.ack( 0);
         break;
      }
      case 1:
      {
         v_cover( "exited");
         sm.instances[ 0].alive = false;
         sm.dying = sm.requests[ 0].errors ? -1 : 0;
         sm.instances[ 0].reserved = -1;
         common::message::event::process::Exit event{};
         event.state.pid = sm.process( 0).pid;
         sm.dispatch( event);
         v_assert( sm.requests[ 0].errors == 1, "the caller gets one outcome");
         break;
      }
      case 2:
      {
         v_cover( "discarded");
         sm.discard( 0);
         break;
      }
   }
   auto replies = world::all< Reply>();
   v_assert( replies.size() == 2 && replies[ 1].correlation == world::correlation( 5), "there is an answer when the process is done");
   if( sm.instances[ 0].alive)
      v_assert( replies[ 1].processes.size() == 1 && replies[ 1].processes[ 0] == sm.process( 0), "the process is ready when it is done");
   else
      v_assert( replies[ 1].processes.empty(), "the process is gone");
   auto reply = sm.lookup( "s");
   v_assert( sm.requests[ reply].is == SM::Request::Is::absent, "a process that is to be shut down is not used");
}

extern "C" void h_sm_route()
{
   v_bound( "a service with 2 routes");
   SM sm;
   sm.state.routes[ "s"] = { "x", "y"};
   message::Advertise message{ sm.process( 0)};
   message.alias = "a";
   message.services.add.emplace_back().name = "s";
   sm.dispatch( message);
   auto route = v_pick< int>( 0, 2, "route");
   auto reply = ask( sm, route == 0 ? "s" : route == 1 ? "x" : "y");
   v_assert( reply.has_value(), "there is an answer");
   if( route == 0)
   {
      v_cover( "origin");
      v_assert( reply->state == State::absent, "a service with routes is not exposed with its own name");
      return;
   }
   v_cover( "route");
   v_assert( reply->state == State::idle && reply->process == sm.process( 0), "the instance that has the service is used");
   v_assert( reply->service.name == "s", "the instance gets its own name of the service");
   v_assert( reply->service.requested == ( route == 1 ? "x" : "y"), "the instance is told what was requested");
   v_assert( ! ask( sm, route == 1 ? "y" : "x"), "all the routes lead to the same instance");
}

extern "C" void h_sm_line()
{
   v_bound( "one instance, two services, 4 in line of which up to 2 leave the line");
   SM sm;
   sm.advertise( { "s", "t"});
   sm.lookup( "s");
   for( int i = 0; i < 4; ++i)
      sm.lookup( i == 2 && v_pick< int>( 0, 1, "service") ? "t" : "s");
   int left[ 2] = {};
   for( auto& request : left)
   {
      request = v_pick< int>( 0, 4, "leaves");
      if( request == 0 || ( &request == &left[ 1] && left[ 0] == left[ 1]))
         continue;
      if( &request == &left[ 1] && v_pick< int>( 0, 1, "gone"))
         sm.gone( request);
      else
         sm.discard( request);
   }
   int served = 0;
   while( sm.instances[ 0].reserved != -1)
   {
      sm.ack( 0);
      ++served;
      v_assert( served <= 5, "everyone is served once");
   }
   for( auto& request : sm.requests)
      v_assert( request.is != SM::Request::Is::waiting || request.gone, "everyone in line is served");
   v_cover( "all");
}

extern "C" void h_sm_route_gone()
{
   v_bound( "2 instances, a service with one or two routes, and one without");
   SM sm;
   auto routes = v_pick< int>( 0, 2, "routes");
   if( routes)
      sm.state.routes[ "s"] = routes == 1 ? std::vector< std::string>{ "x"} : std::vector< std::string>{ "s", "x"};
   auto first = v_pick< int>( 0, 1, "first");
   auto offer = [ &]( int index, bool add, bool remove)
   {
      message::Advertise message{ sm.process( index)};
      message.alias = "a";
      if( add)
      {
         message.services.add.emplace_back().name = "s";
         message.services.add.emplace_back().name = "t";
      }
      if( remove)
         message.services.remove.push_back( "s");
      auto complete = world::complete( message);
      sm.handler( complete);
   };
   offer( 0, true, false);
   offer( 1, true, false);
   offer( first, false, true);
   auto name = routes ? "x" : "s";
   {
      auto reply = ask( sm, name);
      v_assert( reply && reply->state == State::idle, "an instance that still has the service is found");
      v_assert( reply->process == sm.process( 1 - first), "an instance that has unadvertised the service is not used for it");
      v_assert( reply->service.name == "s", "the instance gets its own name of the service");
      v_cover( "other");
      message::call::ACK message;
      message.correlation = reply->correlation;
      message.metric.process = reply->process;
      message.metric.service = "s";
      auto complete = world::complete( message);
      sm.handler( complete);
   }
   {
      auto reply = ask( sm, "t");
      v_assert( reply && reply->state == State::idle, "the other service is still there");
   }
   offer( 1 - first, false, true);
   auto reply = ask( sm, name);
   v_assert( reply && reply->state == State::absent, "a service that all instances have unadvertised is absent");
   v_cover( "absent");
}
