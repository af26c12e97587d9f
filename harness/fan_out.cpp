// @property C10
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @entry h_fan_history covers=all,answered,failed,late,mixed,empty bounded time=600 : any history of requests, replies and failures for two coordinations: each is reported exactly once, exactly when every destination has replied or failed, with every reply and outcome
// @entry h_fan_nested covers=all bounded : a coordination can be started when another is reported
// @entry h_minimal_history covers=all,answered,failed,decided,late bounded time=600 : any history of requests, replies and failures for two coordinations that can decide early: each is over exactly when it has decided or nothing is left to wait for
#include "v.h"
#include "v_os.h"
#include "common/message/coordinate.h"
#include "common/process.h"
#include "common/message/type.h"

namespace common = casual::common;
namespace coordinate = common::message::coordinate;
using correlation_id = common::strong::correlation::id;

namespace
{
   common::Uuid uuid( unsigned char value)
   {
      common::Uuid result;
      for( int i = 0; i < 16; ++i)
         result.get()[ i] = value;
      return result;
   }
   correlation_id correlation( int value) { return correlation_id{ uuid( static_cast< unsigned char>( value))};}

   struct Message
   {
      correlation_id correlation;
      long value{};
      static constexpr auto type() { return common::message::Type::absent_message;}
   };

   enum struct State { pending, received, failed};

   struct Slot
   {
      int owner{};
      State state = State::pending;
   };

   //! what is expected of one coordination
   struct Expected
   {
      std::vector< Slot> slots;
      std::vector< std::pair< int, long>> received;
      bool started = false;
      bool over = false;
      int reported = 0;

      bool done() const
      {
         for( auto& slot : slots)
            if( slot.state == State::pending)
               return false;
         return true;
      }
   };

   //! correlation of slot `index` in coordination `entry`
   int key( int entry, int index) { return 1 + entry * 10 + index;}
   constexpr int unknown = 99;
}

extern "C" void h_fan_history()
{
   v_bound( "two coordinations of at most two requests and one request, three replies or failures");
   using Out = coordinate::fan::Out< Message, int>;
   using Pending = Out::Pending;

   Out out;
   Expected expected[ 2];
   bool any_late = false;

   auto verify = [ &]( int which, const std::vector< Message>& received, const std::vector< Pending>& outcome)
   {
      auto& entry = expected[ which];
      ++entry.reported;
      v_assert( entry.reported == 1, "a coordination is reported once");
      v_assert( entry.done(), "a coordination is not reported before all have replied or failed");
      v_assert( outcome.size() == entry.slots.size(), "the outcome of every request is reported");
      for( std::size_t i = 0; i < outcome.size(); ++i)
      {
         v_assert( outcome[ i].correlation == correlation( key( which, i)) && outcome[ i].id == entry.slots[ i].owner, "the outcome is for the right request");
         v_assert( ( outcome[ i].state == Pending::State::received) == ( entry.slots[ i].state == State::received)
            && ( outcome[ i].state == Pending::State::failed) == ( entry.slots[ i].state == State::failed), "the outcome of each request is what happened");
      }
      v_assert( received.size() == entry.received.size(), "every reply is reported");
      for( std::size_t i = 0; i < received.size(); ++i)
         v_assert( received[ i].correlation == correlation( entry.received[ i].first) && received[ i].value == entry.received[ i].second, "replies are reported as they were received");
   };

   auto start = [ &]( int which, int count)
   {
      auto& entry = expected[ which];
      entry.started = true;
      auto pending = out.empty_pendings();
      for( int i = 0; i < count; ++i)
      {
         entry.slots.push_back( { v_pick( 1, 2, "owner")});
         pending.emplace_back( correlation( key( which, i)), entry.slots.back().owner);
      }
      out( std::move( pending), [ which, &verify]( auto received, auto outcome) { verify( which, received, outcome);});
   };

   auto settle = [ &]()
   {
      bool active = false;
      for( auto& entry : expected)
      {
         if( entry.started && entry.done())
         {
            entry.over = true;
            v_assert( entry.reported == 1, "a coordination is reported when all have replied or failed");
         }
         else
            v_assert( entry.reported == 0, "a coordination is not reported before it is done");
         active = active || ( entry.started && ! entry.over);
      }
      v_assert( out.empty() == ! active, "nothing is kept for coordinations that are over");
   };

   start( 0, v_pick( 0, 2, "first"));
   if( expected[ 0].done())
      v_cover( "empty");
   settle();
   int when = v_pick( 0, 1, "when");

   for( int step = 0; step < 3; ++step)
   {
      if( step == when)
      {
         start( 1, 1);
         settle();
      }
      int size = static_cast< int>( expected[ 0].slots.size());
      int total = size + static_cast< int>( expected[ 1].slots.size());
      // a reply to any request, an unknown reply, or the failure of anyone
      int what = v_pick( 0, total + 2, "what");
      if( what <= total)
      {
         int which = what >= size;
         int index = which ? what - size : what;
         int correlated = what == total ? unknown : key( which, index);
         Message message{ correlation( correlated), v_any< long>( "value")};
         if( what < total)
         {
            auto& entry = expected[ which];
            if( ! entry.over && entry.slots[ index].state == State::pending)
            {
               entry.slots[ index].state = State::received;
               entry.received.emplace_back( correlated, message.value);
            }
            else
               any_late = true;
         }
         out( message);
      }
      else
      {
         int owner = what - total;
         for( auto& entry : expected)
            if( ! entry.over)
               for( auto& slot : entry.slots)
                  if( slot.owner == owner)
                     slot.state = State::failed;
         out.failed( owner);
      }
      settle();
   }
   bool answered = expected[ 0].received.size() == 2 && expected[ 0].over && expected[ 0].slots.size() == 2;
   if( answered) v_cover( "answered");
   if( any_late) v_cover( "late");
   if( expected[ 0].over && ! expected[ 0].slots.empty() && expected[ 0].received.empty()) v_cover( "failed");
   if( expected[ 1].over && expected[ 1].received.size() == 1) v_cover( "mixed");
   v_cover( "all");
}

extern "C" void h_fan_nested()
{
   v_bound( "two coordinations");
   using Out = coordinate::fan::Out< Message, int>;
   Out out;
   int first = 0, second = 0;
   auto pending = out.empty_pendings();
   pending.emplace_back( correlation( 1), 1);
   bool fails = v_any< bool>( "fails");
   out( std::move( pending), [ &]( auto received, auto outcome)
   {
      ++first;
      auto pending = out.empty_pendings();
      pending.emplace_back( correlation( 2), 2);
      if( ! fails)
         out( std::move( pending), [ &]( auto received, auto outcome) { ++second;});
   });
   if( fails)
      out.failed( 1);
   else
      out( Message{ correlation( 1), 0});
   v_assert( first == 1 && second == 0, "the first is reported");
   out( Message{ correlation( 1), 0});
   v_assert( first == 1 && second == 0, "the first is reported once");
   out( Message{ correlation( 2), 0});
   v_assert( first == 1 && second == ! fails && out.empty(), "the second is reported");
   v_cover( "all");
}

extern "C" void h_minimal_history()
{
   v_bound( "two coordinations of at most two requests and one request, three replies or failures");
   namespace fan = coordinate::minimal::fan;
   using Out = fan::Out< Message>;
   using Pending = fan::out::Pending;
   using Directive = fan::out::Directive;

   auto handle = []( int owner) { return common::process::Handle{ common::strong::process::id{ 100 + owner}, common::strong::ipc::id{ uuid( static_cast< unsigned char>( owner))}};};

   Out out;
   Expected expected[ 2];
   bool decided[ 2] = {};
   bool any_late = false, any_decided = false;
   // what the one that coordinates says about the reply that is next
   bool decide = false;
   long value = 0;
   int seen[ 2] = {};
   int current = unknown;

   auto left = []( const Expected& entry)
   {
      int result = 0;
      for( auto& slot : entry.slots)
         result += slot.state == State::pending;
      return result;
   };

   auto start = [ &]( int which, int count)
   {
      auto& entry = expected[ which];
      entry.started = true;
      Out::pendings_type pending;
      for( int i = 0; i < count; ++i)
      {
         entry.slots.push_back( { v_pick( 1, 2, "owner")});
         pending.emplace_back( correlation( key( which, i)), handle( entry.slots.back().owner));
      }
      out.add( std::move( pending),
         [ &, which]( const Message& message)
         {
            ++seen[ which];
            v_assert( message.correlation == correlation( current) && message.value == value, "a reply is given to the one that waits for it");
            return decide ? Directive::done : Directive::pending;
         },
         [ &, which]( std::vector< Pending> outcome)
         {
            auto& entry = expected[ which];
            ++entry.reported;
            v_assert( entry.reported == 1, "a coordination is reported once");
            v_assert( left( entry) == 0 && ! decided[ which], "a coordination is not reported before all have replied or failed");
            std::size_t failed = 0;
            for( std::size_t i = 0; i < entry.slots.size(); ++i)
            {
               if( entry.slots[ i].state != State::failed)
                  continue;
               v_assert( failed < outcome.size() && outcome[ failed].correlation == correlation( key( which, i))
                  && outcome[ failed].process == handle( entry.slots[ i].owner) && outcome[ failed].state == Pending::State::failed, "what failed is reported");
               ++failed;
            }
            v_assert( failed == outcome.size(), "nothing but what failed is reported");
         });
   };

   auto settle = [ &]()
   {
      std::size_t active = 0;
      for( int i = 0; i < 2; ++i)
      {
         auto& entry = expected[ i];
         if( entry.started && ! entry.over && ( decided[ i] || left( entry) == 0))
         {
            entry.over = true;
            v_assert( entry.reported == ( decided[ i] ? 0 : 1), "a coordination is reported when there is nothing left to wait for");
         }
         else if( ! entry.over)
            v_assert( entry.reported == 0, "a coordination is not reported before it is done");
         active += entry.started && ! entry.over;
      }
      v_assert( out.size() == active && out.empty() == ( active == 0), "nothing is kept for coordinations that are over");
   };

   start( 0, v_pick( 0, 2, "first"));
   settle();
   int when = v_pick( 0, 1, "when");

   for( int step = 0; step < 3; ++step)
   {
      if( step == when)
      {
         start( 1, 1);
         settle();
      }
      int size = static_cast< int>( expected[ 0].slots.size());
      int total = size + static_cast< int>( expected[ 1].slots.size());
      int what = v_pick( 0, total + 2, "what");
      if( what <= total)
      {
         int which = what >= size;
         int index = which ? what - size : what;
         int before[ 2] = { seen[ 0], seen[ 1]};
         bool accepted = false;
         current = what == total ? unknown : key( which, index);
         value = v_any< long>( "value");
         decide = false;
         if( what < total)
         {
            auto& entry = expected[ which];
            auto& slot = entry.slots[ index];
            if( ! entry.over && slot.state == State::pending)
            {
               decide = v_any< bool>( "decide");
               slot.state = State::received;
               accepted = true;
               decided[ which] = decide;
               any_decided = any_decided || decide;
            }
            else
            {
               // a reply from someone that has failed may be used, as long as the coordination is not over
               if( ! entry.over && slot.state == State::failed)
               {
                  slot.state = State::received;
                  accepted = true;
               }
               any_late = true;
            }
         }
         out( Message{ correlation( current), value});
         v_assert( seen[ 0] - before[ 0] == ( accepted && which == 0) && seen[ 1] - before[ 1] == ( accepted && which == 1), "only the one that waits for a reply gets it");
      }
      else
      {
         int owner = what - total;
         for( auto& entry : expected)
            if( ! entry.over)
               for( auto& slot : entry.slots)
                  if( slot.owner == owner && slot.state == State::pending)
                     slot.state = State::failed;
         out.failed( handle( owner));
      }
      settle();
   }
   if( any_late) v_cover( "late");
   if( any_decided) v_cover( "decided");
   if( expected[ 1].over && seen[ 1] == 1) v_cover( "answered");
   if( expected[ 1].over && seen[ 1] == 0) v_cover( "failed");
   v_cover( "all");
}
