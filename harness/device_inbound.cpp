// @property C11
// @tu middleware/common/source/communication/ipc/message.cpp
// @tu middleware/common/source/communication/socket.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/server/argument.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @entry h_device_select covers=all,type,correlation,none bounded time=300 : a receiver gets the first message that is complete and matches what it waits for, and every other message is kept, in order
// @entry h_device_discard covers=all,before,after bounded time=300 : a message that is discarded is never received, whether it has arrived or not, and only that message
// @entry h_device_push covers=all bounded time=300 : a message that is pushed is received after those that has arrived
#include "v_world.h"

namespace common = casual::common;
namespace device = casual::common::communication::device;
using Complete = common::communication::ipc::message::Complete;
using Type = common::message::Type;

namespace
{
   constexpr Type types[] = { Type::service_call, Type::service_reply};

   struct Arrival
   {
      int number;
      Type type;
      int correlation;
   };

   //! what is on the wire: parts of messages
   struct Part
   {
      Arrival arrival;
      bool first;
      bool last;
   };

   struct Connector;
   struct Policy
   {
      std::ranges::subrange< int*> unused{};
      casual::common::range::type_t< std::vector< Complete>> receive( Connector& connector, std::vector< Complete>& cache);
   };

   struct Connector
   {
      using cache_type = std::vector< Complete>;
      using blocking_policy = Policy;
      using non_blocking_policy = Policy;
      std::vector< Part> incoming;
      common::strong::file::descriptor::id descriptor() const { return common::strong::file::descriptor::id{ 7};}
   };

   casual::common::range::type_t< std::vector< Complete>> Policy::receive( Connector& connector, std::vector< Complete>& cache)
   {
      using range_type = casual::common::range::type_t< std::vector< Complete>>;
      if( connector.incoming.empty())
         return {};
      auto part = connector.incoming.front();
      connector.incoming.erase( connector.incoming.begin());
      common::communication::ipc::message::Transport transport{ part.arrival.type, 20, world::correlation( static_cast< unsigned char>( part.arrival.correlation))};
      transport.message.header.offset = part.first ? 0 : 18;
      transport.message.header.count = part.first ? ( part.last ? 20 : 18) : 2;
      transport.message.payload[ 0] = static_cast< std::byte>( part.arrival.number);
      if( part.first)
      {
         cache.emplace_back( transport);
         return range_type{ std::end( cache) - 1, std::end( cache)};
      }
      for( auto current = std::begin( cache); current != std::end( cache); ++current)
         if( ! current->complete() && current->type() == part.arrival.type && current->correlation() == world::correlation( static_cast< unsigned char>( part.arrival.correlation)))
         {
            current->add( transport);
            return range_type{ current, std::end( cache)};
         }
      v_end();
   }

   using Device = device::Inbound< Connector>;

   int number( const Complete& complete)
   {
      return complete ? static_cast< int>( complete.payload[ 0]) : -1;
   }

   //! some messages that will arrive, two of them may be divided
   struct World
   {
      World( int count)
      {
         for( int i = 0; i < count; ++i)
            arrivals.push_back( { i, v_one_of( types, "type"), v_pick( 1, 2, "correlation")});
         divided = v_pick( -1, count - 1, "divided");
         // the last part of a message that is divided comes after the next message
         for( int i = 0; i < count; ++i)
         {
            device.connector().incoming.push_back( { arrivals[ i], true, i != divided});
            if( i - 1 == divided && divided >= 0)
               device.connector().incoming.push_back( { arrivals[ divided], false, true});
         }
         if( divided == count - 1)
            device.connector().incoming.push_back( { arrivals[ divided], false, true});
      }

      //! the place of the message in the order they are received
      bool complete( int index, int parts) const
      {
         int position = 0;
         for( int i = 0; i < static_cast< int>( arrivals.size()); ++i)
         {
            ++position;
            if( i == index && i != divided)
               return position <= parts;
            if( i - 1 == divided && divided >= 0)
            {
               ++position;
               if( index == divided)
                  return position <= parts;
            }
         }
         return static_cast< int>( arrivals.size()) + 1 <= parts;
      }

      //! what is received when one waits for something
      template< typename P>
      int expected( P predicate)
      {
         int total = static_cast< int>( arrivals.size()) + ( divided >= 0);
         for( ; ; ++received)
         {
            for( auto& arrival : arrivals)
               if( ! gone[ arrival.number] && complete( arrival.number, received) && predicate( arrival))
                  return arrival.number;
            if( received == total)
               return -1;
         }
      }

      Device device;
      std::vector< Arrival> arrivals;
      int divided = -1;
      int received = 0;
      bool gone[ 4] = {};
   };
}

extern "C" void h_device_select()
{
   v_bound( "three messages of which one may be divided, two types and two correlations");
   World w{ 3};
   for( int step = 0; step < 1; ++step)
   {
      int how = v_pick( 0, 3, "how");
      auto type = v_one_of( types, "wanted");
      int id = how == 0 || how == 3 ? 1 : v_pick( 1, 2, "id");
      auto correlation = world::correlation( static_cast< unsigned char>( id));
      int got = -1;
      int expected = -1;
      Policy policy;
      if( how == 0)
      {
         got = number( w.device.next( type, policy));
         expected = w.expected( [ &]( auto& arrival) { return arrival.type == type;});
         v_cover( "type");
      }
      else if( how == 1)
      {
         got = number( w.device.next( correlation, policy));
         expected = w.expected( [ &]( auto& arrival) { return arrival.correlation == id;});
         v_cover( "correlation");
      }
      else if( how == 2)
      {
         got = number( w.device.next( type, correlation, policy));
         expected = w.expected( [ &]( auto& arrival) { return arrival.type == type && arrival.correlation == id;});
      }
      else
      {
         got = number( w.device.next( policy));
         expected = w.expected( []( auto&) { return true;});
      }
      v_assert( got == expected, "the first message that matches is received");
      if( got >= 0)
         w.gone[ got] = true;
      else
         v_cover( "none");
   }
   // all others are still there
   int left = 0;
   for( int i = 0; i < 4; ++i)
   {
      int got = number( w.device.next( Policy{}));
      v_assert( got == w.expected( []( auto&) { return true;}), "other messages are kept, in order");
      if( got < 0)
         break;
      w.gone[ got] = true;
      ++left;
   }
   v_assert( w.gone[ 0] && w.gone[ 1] && w.gone[ 2] && w.device.size() == 0, "every message is received once");
   v_cover( "all");
}

extern "C" void h_device_discard()
{
   v_bound( "three messages of which one may be divided, two correlations");
   World w{ 2};
   v_assume( w.arrivals[ 0].correlation != w.arrivals[ 1].correlation);
   int arrived = v_pick( 0, 1, "arrived");
   if( arrived)
      (void)w.device.next( Type::shutdown_request, Policy{});
   w.device.discard( world::correlation( 1));
   if( w.arrivals[ 0].correlation == 1) v_cover( "before"); else v_cover( "after");
   int other = w.arrivals[ 0].correlation == 1 ? 1 : 0;
   v_assert( number( w.device.next( Policy{})) == other, "the other message is received");
   v_assert( ! w.device.next( Policy{}), "the message that is discarded is not received");
   // it is only the message that is discarded
   w.device.connector().incoming.push_back( { { 2, Type::service_call, 1}, true, true});
   v_assert( number( w.device.next( Policy{})) == 2 && w.device.size() == 0, "the next message with the same correlation is received");
   v_cover( "all");
}

extern "C" void h_device_push()
{
   v_bound( "two messages that are received and one that is pushed");
   World w{ 2};
   (void)w.device.next( Type::shutdown_request, Policy{});
   casual::platform::binary::type payload( 20);
   payload[ 0] = static_cast< std::byte>( 3);
   Complete complete{ v_one_of( types, "type"), world::correlation( static_cast< unsigned char>( v_pick( 1, 2, "correlation"))), std::move( payload)};
   auto correlation = complete.correlation();
   v_assert( w.device.push( std::move( complete)) == correlation, "the correlation is returned");
   for( int i = 0; i < 2; ++i)
      v_assert( number( w.device.cached()) == i, "the messages are received in order");
   v_assert( number( w.device.cached()) == 3, "what is pushed comes last");
   v_assert( ! w.device.cached() && w.device.size() == 0, "nothing is received twice");
   v_cover( "all");
}
