// The world of a manager process, shared by the harnesses that drive message handlers: what it sends is recorded, what
// it receives comes from the harness. These are the assumed contracts of the communication layer; everything else that
// runs is /repo's code.
#pragma once
#define V_FRESH_IDS
#include "v.h"
#include "v_os.h"
#include "common/communication/ipc.h"
#include "common/communication/ipc/send.h"
#include "common/communication/instance.h"
#include "common/event/listen.h"
#include "common/execution/context.h"
#include "common/event/send.h"
#include "common/message/dispatch/handle.h"
#include "common/message/counter.h"
#include "common/process.h"
#include "common/server/handle/call.h"
#include "common/signal.h"

#include <chrono>

namespace world
{
   using Complete = casual::common::communication::ipc::message::Complete;

   struct Sent
   {
      casual::common::strong::ipc::id destination;
      Complete complete;
   };

   //! everything that is sent to other processes, in order
   inline std::vector< Sent>& sent() { static std::vector< Sent> result; return result;}
   //! every event that is published
   inline std::vector< Complete>& events() { static std::vector< Complete> result; return result;}
   //! the destination of the last blocking send to a process (not to a manager)
   inline casual::common::strong::ipc::id& address() { static casual::common::strong::ipc::id result; return result;}
   //! destinations that are gone
   inline std::vector< casual::common::strong::ipc::id>& lost() { static std::vector< casual::common::strong::ipc::id> result; return result;}

   template< typename M>
   M as( const Complete& complete)
   {
      M result;
      casual::common::serialize::native::complete( complete, result);
      return result;
   }

   //! everything of type M that is sent (to `destination`)
   template< typename M>
   std::vector< M> all()
   {
      std::vector< M> result;
      for( auto& message : sent())
         if( message.complete.type() == M::type())
            result.push_back( as< M>( message.complete));
      return result;
   }

   template< typename M>
   std::size_t count( casual::common::strong::ipc::id destination)
   {
      std::size_t result = 0;
      for( auto& message : sent())
         if( message.complete.type() == M::type() && message.destination == destination)
            ++result;
      return result;
   }

   template< typename M>
   Complete complete( const M& message) { return casual::common::serialize::native::complete< Complete>( message);}

   inline casual::common::Uuid uuid( unsigned char value)
   {
      casual::common::Uuid result;
      for( int i = 0; i < 16; ++i)
         result.get()[ i] = value;
      return result;
   }

   inline casual::common::strong::ipc::id ipc( unsigned char value) { return casual::common::strong::ipc::id{ uuid( value)};}
   inline casual::common::strong::correlation::id correlation( unsigned char value) { return casual::common::strong::correlation::id{ uuid( value)};}
   inline casual::common::process::Handle process( int value)
   {
      return { casual::common::strong::process::id{ 1000 + value}, ipc( static_cast< unsigned char>( value))};
   }
}

namespace casual::common
{
   namespace process
   {
      const Handle& handle()
      {
         static const Handle result{ strong::process::id{ 42}, world::ipc( 250)};
         return result;
      }
      strong::process::id id() { return handle().pid;}
   }

   namespace execution::context
   {
      inline Context& current()
      {
         static Context result;
         return result;
      }
      const Context& get() { return current();}
      namespace id
      {
         strong::execution::id set( strong::execution::id id) { return std::exchange( current().id, id);}
      }
   }

   namespace event
   {
      void unsubscribe( const process::Handle&, std::vector< message::Type>) {}
   }

   namespace event::detail
   {
      handler_type subscribe( handler_type&& handler) { return std::move( handler);}
      void send( communication::ipc::message::Complete&& message) { world::events().push_back( std::move( message));}
      void send( communication::ipc::send::Coordinator&, communication::ipc::message::Complete&& message) { world::events().push_back( std::move( message));}
      namespace error
      {
         void send( std::error_code, Severity, std::string) {}
      }
   }

   namespace message::counter::add
   {
      void sent( message::Type) noexcept {}
      void received( message::Type) noexcept {}
   }

   namespace message::dispatch::handle
   {
      handler_type defaults() noexcept { return {};}
   }

   namespace communication
   {
      namespace ipc
      {
         Handle::Handle( Socket&& socket, strong::ipc::id ipc) : m_socket{ std::move( socket)}, m_ipc{ ipc} {}
         Handle::~Handle() {}

         namespace inbound
         {
            Connector::Connector() : m_handle{ Socket{}, world::ipc( 250)} {}
            Connector::~Connector() = default;

            Device& device()
            {
               static Device result;
               return result;
            }
         }

#ifndef V_RECEIVE
         namespace policy::non::blocking
         {
            // nothing but what the harness dispatches is received
            cache_range_type receive( ipc::Handle&, cache_type&) { return {};}
         }
#endif

         Address::Address( strong::ipc::id id) { world::address() = id;}

         namespace native::detail::create::domain
         {
            Socket socket() { return {};}
         }

         namespace partial
         {
            bool send( const Destination& destination, message::complete::Send& complete)
            {
               world::sent().push_back( { destination.ipc(), std::move( const_cast< message::Complete&>( complete.complete()))});
               return true;
            }
         }

         namespace send
         {
            // a message is delivered, or the sender is told that the destination is gone
            strong::correlation::id Coordinator::send( const strong::ipc::id& ipc, coordinator::Message&& message)
            {
               auto correlation = message.complete.correlation();
               auto complete = std::move( const_cast< message::Complete&>( message.complete.complete()));
               if( algorithm::find( world::lost(), ipc))
               {
                  if( message.callback)
                     message.callback( ipc, complete);
               }
               else
                  world::sent().push_back( { ipc, std::move( complete)});
               return correlation;
            }

            void Coordinator::failed( const strong::ipc::id&) {}
         }
      }

      // the managers of the domain are present
      namespace instance::outbound
      {
         namespace detail
         {
            base_connector::base_connector() {}

            template< lookup::Directive directive>
            basic_connector< directive>::basic_connector( instance::Identity identity) : m_identity{ identity}
            {
               m_process = process::Handle{ strong::process::id{ 2000}, strong::ipc::id{ identity.id}};
            }

            template< lookup::Directive directive>
            const process::Handle& basic_connector< directive>::process() { return m_process;}

            template< lookup::Directive directive>
            bool basic_connector< directive>::connect() { return false;}

            template struct basic_connector< lookup::Directive::direct>;
            template struct basic_connector< lookup::Directive::wait>;
         }

         namespace service::manager
         {
            detail::Device& device() { static detail::Device result{ Identity{ world::uuid( 200), {}}}; return result;}
         }

         namespace transaction::manager
         {
            detail::Device& device() { static detail::Device result{ Identity{ world::uuid( 201), {}}}; return result;}
         }

         namespace gateway::manager
         {
            detail::Device& device() { static detail::Device result{ Identity{ world::uuid( 202), {}}}; return result;}
            namespace optional
            {
               detail::optional::Device& device() { static detail::optional::Device result{ Identity{ world::uuid( 202), {}}}; return result;}
            }
         }

         namespace queue::manager
         {
            detail::Device& device() { static detail::Device result{ Identity{ world::uuid( 203), {}}}; return result;}
            namespace optional
            {
               detail::optional::Device& device() { static detail::optional::Device result{ Identity{ world::uuid( 203), {}}}; return result;}
            }
         }

         namespace domain::manager
         {
            const process::Handle& handle()
            {
               static const process::Handle result{ strong::process::id{ 2000}, world::ipc( 204)};
               return result;
            }
            bool Connector::connect() { return false;}
            const process::Handle& Connector::process() { return handle();}
            Device& device() { static Device result; return result;}
            namespace optional
            {
               bool Connector::connect() { return false;}
               const process::Handle& Connector::process() { return handle();}
               Device& device() { static Device result; return result;}
            }
         }
      }
   }

   namespace signal
   {
      Set::Set() : set{} {}
   }

   namespace signal::thread::scope
   {
      Reset::Reset( signal::Set) {}
      Reset::~Reset() {}
      Block::Block() : Reset( Set{}) {}
      Mask::Mask( signal::Set mask) : Reset( mask) {}
   }
}

namespace world
{
   //! the time, in nanoseconds
   inline long& now() { static long result = 1'700'000'000'000'000'000; return result;}
}

// the clock never goes backwards
namespace std::chrono
{
   inline namespace _V2
   {
      system_clock::time_point system_clock::now() noexcept
      {
         return time_point{ duration{ world::now() += 1000}};
      }
   }
}
