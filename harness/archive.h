// Arbitrary messages and field by field comparison, independent of the serialization in the messages themselves.
#pragma once
#include "v.h"
#include "v_os.h"

#include "common/message/service.h"
#include "common/message/transaction.h"
#include "common/message/conversation.h"
#include "common/communication/ipc/message.h"
#include "common/communication/tcp/message.h"
#include "common/serialize/native/complete.h"
#include "common/serialize/native/network.h"
#include "queue/common/ipc/message.h"
#include "domain/message/discovery.h"
#include "gateway/message.h"

#include <map>

namespace common = casual::common;
namespace message = casual::common::message;

namespace casual::common::process
{
   const Handle& handle()
   {
      static const Handle result{ strong::process::id{ 42}};
      return result;
   }
}

namespace casual::common::execution::context
{
   const Context& get()
   {
      static const Context result;
      return result;
   }
}

namespace shape
{
   //! 0: everything empty, 1: short, 2: longer than what fits in place
   inline int variant = 0;
   inline std::size_t next = 0;

   inline void start( int value) { variant = value; next = 0;}

   //! sizes differ between neighbours, so a swapped or dropped field shows
   inline std::size_t size()
   {
      constexpr std::size_t small[] = { 3, 1, 5, 0, 2};
      constexpr std::size_t large[] = { 17, 40, 0, 23, 1};
      auto index = next++ % 5;
      return variant == 0 ? 0 : variant == 1 ? small[ index] : large[ index];
   }
   inline std::size_t count() { return variant == 0 ? 0 : variant == 1 ? 1 : 2;}
   inline bool has() { return variant != 0;}
}

// ---- arbitrary values

template< typename T> requires std::is_arithmetic_v< T>
void fill( T& value) { value = v_any< T>( "value");}

template< typename T> requires std::is_enum_v< T>
void fill( T& value) { value = static_cast< T>( v_any< std::underlying_type_t< T>>( "enum"));}

template< std::size_t size>
void fill( std::array< std::byte, size>& value) { v_sym( value.data(), size, "bytes");}

template< typename R, typename P>
void fill( std::chrono::duration< R, P>& value) { value = std::chrono::duration< R, P>{ v_any< R>( "duration")};}

inline void fill( casual::platform::time::point::type& value)
{
   value = casual::platform::time::point::type{ casual::platform::time::unit{ v_any< casual::platform::time::unit::rep>( "time")}};
}

inline void fill( std::string& value)
{
   value.resize( shape::size());
   if( ! value.empty())
      v_sym( value.data(), value.size(), "string");
}

inline void fill( casual::platform::binary::type& value)
{
   value.resize( shape::size());
   if( ! value.empty())
      v_sym( value.data(), value.size(), "binary");
}

inline void fill( common::Uuid& value)
{
   v_sym( &value.get(), 16, "uuid");
   // a null correlation or execution is replaced by the sender
   value.get()[ 0] = 1;
}

template< typename T, typename P>
void fill( common::strong::Type< T, P>& value) { fill( value.underlying());}

inline void fill( common::transaction::ID& value)
{
   if( shape::variant == 0)
      return;

   XID xid{};
   xid.formatID = v_any< long>( "xid.formatID");
   v_assume( xid.formatID >= 0);
   xid.gtrid_length = shape::variant == 1 ? 16 : 64;
   xid.bqual_length = shape::variant == 1 ? 3 : 64;
   v_sym( xid.data, shape::variant == 1 ? 19 : 128, "xid.data");
   value.xid = xid;
}

inline void fill( common::transaction::global::ID& value)
{
   char data[ 64];
   v_sym( data, sizeof( data), "gtrid");
   auto first = reinterpret_cast< const std::byte*>( data);
   value = common::transaction::global::ID{ common::transaction::global::id::range( first, first + ( shape::variant == 0 ? 0 : shape::variant == 1 ? 16 : 64))};
}

inline void fill( common::service::header::Field& value)
{
   std::string text = "x:";
   text += v_any< char>( "header");
   value = common::service::header::Field{ text};
}

inline void fill( common::service::header::Fields& value)
{
   std::vector< common::service::header::Field> fields( shape::count());
   for( auto& field : fields)
      fill( field);
   value = common::service::header::Fields{ std::move( fields)};
}

struct Filler
{
   template< typename T>
   void operator () ( T& value, T&, const char*) const;
};

template< typename T>
concept composite = requires( T& a, Filler f) { fields( a, a, f);};

template< composite T>
void fill( T& value) { fields( value, value, Filler{});}

template< typename T>
void fill( std::vector< T>& value)
{
   value.resize( shape::count());
   for( auto& element : value)
      fill( element);
}

template< typename T>
void fill( std::optional< T>& value)
{
   if( ! shape::has())
      return;
   value.emplace();
   fill( *value);
}

template< typename T>
void Filler::operator () ( T& value, T&, const char*) const { fill( value);}

// ---- equality, without using what the types define

template< typename T> requires ( std::is_arithmetic_v< T> || std::is_enum_v< T>)
bool same( T& a, T& b)
{
   // bit for bit, for nan
   return std::memcmp( &a, &b, sizeof( T)) == 0;
}

template< std::size_t size>
bool same( std::array< std::byte, size>& a, std::array< std::byte, size>& b) { return std::memcmp( a.data(), b.data(), size) == 0;}

template< typename R, typename P>
bool same( std::chrono::duration< R, P>& a, std::chrono::duration< R, P>& b) { return a.count() == b.count();}

inline bool same( casual::platform::time::point::type& a, casual::platform::time::point::type& b)
{
   return a.time_since_epoch().count() == b.time_since_epoch().count();
}

inline bool same( std::string& a, std::string& b)
{
   return a.size() == b.size() && std::memcmp( a.data(), b.data(), a.size()) == 0;
}

inline bool same( casual::platform::binary::type& a, casual::platform::binary::type& b)
{
   return a.size() == b.size() && ( a.empty() || std::memcmp( a.data(), b.data(), a.size()) == 0);
}

inline bool same( common::Uuid& a, common::Uuid& b) { return std::memcmp( &a.get(), &b.get(), 16) == 0;}

template< typename T, typename P>
bool same( common::strong::Type< T, P>& a, common::strong::Type< T, P>& b) { return same( a.underlying(), b.underlying());}

inline bool same( common::transaction::ID& a, common::transaction::ID& b)
{
   if( a.xid.formatID != b.xid.formatID)
      return false;
   if( a.xid.formatID == -1)
      return true;
   return a.xid.gtrid_length == b.xid.gtrid_length && a.xid.bqual_length == b.xid.bqual_length
      && std::memcmp( a.xid.data, b.xid.data, a.xid.gtrid_length + a.xid.bqual_length) == 0;
}

inline bool same( common::transaction::global::ID& a, common::transaction::global::ID& b)
{
   auto left = a.range();
   auto right = b.range();
   return left.size() == right.size() && std::memcmp( left.data(), right.data(), left.size()) == 0;
}

inline bool same( common::service::header::Fields& a, common::service::header::Fields& b)
{
   if( a.size() != b.size())
      return false;
   auto other = b.begin();
   for( auto& field : a)
   {
      auto left = field.string();
      auto right = ( *other++).string();
      if( ! same( left, right))
         return false;
   }
   return true;
}

struct Comparer
{
   template< typename T>
   void operator () ( T& a, T& b, const char*);
   bool result = true;
};

template< composite T>
bool same( T& a, T& b)
{
   Comparer comparer;
   fields( a, b, comparer);
   return comparer.result;
}

template< typename T>
bool same( std::vector< T>& a, std::vector< T>& b)
{
   if( a.size() != b.size())
      return false;
   for( std::size_t index = 0; index < a.size(); ++index)
      if( ! same( a[ index], b[ index]))
         return false;
   return true;
}

template< typename T>
bool same( std::optional< T>& a, std::optional< T>& b)
{
   if( a.has_value() != b.has_value())
      return false;
   return ! a || same( *a, *b);
}

template< typename T>
void Comparer::operator () ( T& a, T& b, const char* name)
{
   if( ! same( a, b))
      result = false;
}

//! one obligation for each field
struct Checker
{
   template< typename T>
   void operator () ( T& a, T& b, const char* name) { v_assert( same( a, b), name);}
};

#define FIELD( member) f( a.member, b.member, #member)
#define FIELDS( type, ...) template< typename F> void fields( type& a, type& b, F&& f) { __VA_ARGS__; }

// every type in its own namespace so it's found by argument dependent lookup
namespace casual::common::process { FIELDS( Handle, FIELD( pid), FIELD( ipc)) }
namespace casual::common::domain { FIELDS( Identity, FIELD( id), FIELD( name)) }
namespace casual::common::buffer { FIELDS( Payload, FIELD( type), FIELD( data)) }
namespace casual::common::service { FIELDS( Code, FIELD( result), FIELD( user)) }
namespace casual::common::execution::context { FIELDS( Parent, FIELD( span), FIELD( service)) }

#define BASE FIELD( correlation), FIELD( execution)
#define PROCESS BASE, FIELD( process)

namespace casual::common::message
{
   FIELDS( Statistics, FIELD( start), FIELD( end))
}
namespace casual::common::message::event::service
{
   FIELDS( Metric, FIELD( span), FIELD( service), FIELD( parent), FIELD( type), FIELD( process), FIELD( correlation), FIELD( execution), FIELD( trid), FIELD( start), FIELD( end), FIELD( pending), FIELD( code))
}
namespace casual::common::message::service
{
   FIELDS( Timeout, FIELD( duration))
   FIELDS( Transaction, FIELD( trid), FIELD( state))
   FIELDS( Advertise, PROCESS, FIELD( alias), FIELD( services.add), FIELD( services.remove))
   namespace call
   {
      FIELDS( Service, FIELD( name), FIELD( requested))
      FIELDS( Deadline, FIELD( remaining))
      FIELDS( base_request, PROCESS, FIELD( parent), FIELD( service), FIELD( deadline), FIELD( trid), FIELD( flags), FIELD( header), FIELD( pending))
      FIELDS( Reply, BASE, FIELD( code), FIELD( transaction_state), FIELD( buffer))
      FIELDS( ACK, BASE, FIELD( metric))
      namespace callee { template< typename F> void fields( Request& a, Request& b, F&& f) { fields( static_cast< base_request&>( a), static_cast< base_request&>( b), f); FIELD( buffer);} }
   }
   namespace call::v1_2
   {
      FIELDS( Service, FIELD( name), FIELD( timeout))
      FIELDS( Reply, BASE, FIELD( code), FIELD( transaction), FIELD( buffer))
      namespace callee { FIELDS( Request, PROCESS, FIELD( service), FIELD( parent), FIELD( trid), FIELD( flags), FIELD( header), FIELD( pending), FIELD( buffer)) }
   }
   namespace advertise { FIELDS( Service, FIELD( name), FIELD( category), FIELD( transaction), FIELD( visibility), FIELD( timeout)) }
   namespace concurrent
   {
      namespace advertise
      {
         namespace service { FIELDS( Property, FIELD( hops)) }
         FIELDS( Service, FIELD( name), FIELD( category), FIELD( transaction), FIELD( visibility), FIELD( timeout), FIELD( property))
      }
      FIELDS( Advertise, PROCESS, FIELD( alias), FIELD( description), FIELD( order), FIELD( directive), FIELD( services.add), FIELD( services.remove))
   }
   namespace lookup
   {
      FIELDS( Request, PROCESS, FIELD( requested), FIELD( context.semantic), FIELD( context.requester), FIELD( gtrid), FIELD( deadline))
      FIELDS( Reply, PROCESS, FIELD( service), FIELD( deadline), FIELD( pending), FIELD( state))
      namespace discard
      {
         FIELDS( Request, PROCESS, FIELD( requested), FIELD( reply))
         FIELDS( Reply, BASE, FIELD( state))
      }
   }
}
namespace casual::common::message::conversation
{
   FIELDS( Disconnect, BASE)
   namespace connect
   {
      FIELDS( base_request, PROCESS, FIELD( service), FIELD( parent), FIELD( deadline), FIELD( trid), FIELD( header), FIELD( pending), FIELD( duplex))
      namespace callee { template< typename F> void fields( Request& a, Request& b, F&& f) { fields( static_cast< base_request&>( a), static_cast< base_request&>( b), f); FIELD( buffer);} }
      FIELDS( Reply, PROCESS, FIELD( code))
      namespace v1_2::callee { FIELDS( Request, PROCESS, FIELD( service), FIELD( parent), FIELD( trid), FIELD( header), FIELD( pending), FIELD( duplex), FIELD( buffer)) }
   }
   namespace callee { FIELDS( Send, BASE, FIELD( duplex), FIELD( transaction_state), FIELD( code), FIELD( buffer)) }
}
namespace casual::common::message::transaction
{
   template< typename F, message::Type t> void fields( basic_transaction< t>& a, basic_transaction< t>& b, F&& f) { PROCESS, FIELD( trid);}
   namespace commit
   {
      FIELDS( Request, PROCESS, FIELD( trid), FIELD( involved))
      FIELDS( Reply, PROCESS, FIELD( trid), FIELD( state), FIELD( stage))
   }
   namespace rollback
   {
      FIELDS( Request, PROCESS, FIELD( trid), FIELD( involved))
      FIELDS( Reply, PROCESS, FIELD( trid), FIELD( state), FIELD( stage))
   }
   namespace configuration
   {
      FIELDS( Resource, FIELD( id), FIELD( name), FIELD( key), FIELD( openinfo), FIELD( closeinfo))
      namespace alias
      {
         FIELDS( Request, PROCESS, FIELD( alias), FIELD( resources))
         FIELDS( Reply, BASE, FIELD( resources))
      }
   }
   namespace resource
   {
      template< typename F, message::Type t> void fields( basic_request< t>& a, basic_request< t>& b, F&& f) { PROCESS, FIELD( trid), FIELD( resource), FIELD( flags);}
      template< typename F, message::Type t> void fields( basic_reply< t>& a, basic_reply< t>& b, F&& f) { PROCESS, FIELD( trid), FIELD( state), FIELD( resource), FIELD( statistics);}
      FIELDS( Ready, PROCESS, FIELD( id))
      namespace involved
      {
         FIELDS( Request, PROCESS, FIELD( trid), FIELD( involved), FIELD( reply))
         FIELDS( Reply, BASE, FIELD( involved))
      }
      namespace configuration
      {
         FIELDS( Request, PROCESS, FIELD( id))
         FIELDS( Reply, BASE, FIELD( resource))
      }
      namespace external { FIELDS( Instance, PROCESS, FIELD( alias), FIELD( description)) }
   }
   namespace inbound::branch { FIELDS( Request, PROCESS, FIELD( gtrid)) }
   namespace active
   {
      FIELDS( Request, PROCESS, FIELD( gtrids))
      FIELDS( Reply, BASE, FIELD( gtrids))
   }
}
namespace casual::queue::ipc::message
{
   FIELDS( Retry, FIELD( count), FIELD( delay))
   FIELDS( Attributes, FIELD( properties), FIELD( reply), FIELD( available))
   FIELDS( Advertise, PROCESS, FIELD( alias), FIELD( description), FIELD( order), FIELD( directive), FIELD( queues.add), FIELD( queues.remove))
   namespace advertise { FIELDS( Queue, FIELD( name), FIELD( retry), FIELD( enable.enqueue), FIELD( enable.dequeue)) }
   namespace lookup
   {
      FIELDS( Request, PROCESS, FIELD( context.semantic), FIELD( context.requester), FIELD( context.action), FIELD( name), FIELD( gtrid))
      FIELDS( Reply, PROCESS, FIELD( queue), FIELD( name), FIELD( order))
      namespace discard { FIELDS( Reply, BASE, FIELD( state)) }
   }
   namespace group
   {
      namespace dequeue
      {
         FIELDS( Selector, FIELD( properties), FIELD( id))
         FIELDS( Request, PROCESS, FIELD( trid), FIELD( queue), FIELD( name), FIELD( selector), FIELD( block))
         FIELDS( Message, FIELD( id), FIELD( attributes), FIELD( payload), FIELD( redelivered), FIELD( timestamp))
         FIELDS( Reply, BASE, FIELD( message), FIELD( code))
         namespace v1_2 { FIELDS( Reply, BASE, FIELD( message)) }
         namespace forget
         {
            FIELDS( Request, PROCESS, FIELD( queue), FIELD( name))
            FIELDS( Reply, BASE, FIELD( discarded))
         }
      }
      namespace enqueue
      {
         FIELDS( Message, FIELD( id), FIELD( attributes), FIELD( payload))
         FIELDS( Request, PROCESS, FIELD( trid), FIELD( queue), FIELD( name), FIELD( message))
         FIELDS( Reply, BASE, FIELD( id), FIELD( code))
         namespace v1_2 { FIELDS( Reply, BASE, FIELD( id)) }
      }
   }
}
namespace casual::domain::message::discovery
{
   namespace request { FIELDS( Content, FIELD( services), FIELD( queues)) }
   namespace reply
   {
      namespace content
      {
         FIELDS( Queue, FIELD( name), FIELD( retry.count), FIELD( retry.delay), FIELD( enable.enqueue), FIELD( enable.dequeue))
         namespace v1_3 { FIELDS( Queue, FIELD( name), FIELD( retries)) }
      }
      FIELDS( Content, FIELD( services), FIELD( queues))
      namespace v1_3 { FIELDS( Content, FIELD( services), FIELD( queues)) }
   }
   FIELDS( Request, PROCESS, FIELD( directive), FIELD( domain), FIELD( content))
   FIELDS( Reply, BASE, FIELD( domain), FIELD( content))
   namespace v1_3 { FIELDS( Reply, BASE, FIELD( domain), FIELD( content)) }
   namespace topology::implicit { FIELDS( Update, PROCESS, FIELD( domains)) }
}
namespace casual::gateway::message::domain
{
   namespace connect
   {
      FIELDS( Request, BASE, FIELD( domain), FIELD( versions))
      FIELDS( Reply, BASE, FIELD( domain), FIELD( version))
   }
   FIELDS( Connected, BASE, FIELD( connector), FIELD( domain), FIELD( version))
}

// ---- what is sent between domains, as documented in gateway/documentation/protocol/protocol.maintenance.md

#define TEXT( member) f.text( a.member, b.member, #member)
#define NUMBER( member, size) f.number( a.member, b.member, #member, size)
#define BYTES( member) f.bytes( a.member, b.member, #member)
#define TRID( member) f.trid( a.member, b.member, #member)
#define EACH( member, ...) f.sequence( a.member, b.member, #member, [&]( auto& a, auto& b) { (void)b; __VA_ARGS__; })
#define MAYBE( member, ...) f.maybe( a.member, b.member, #member, [&]( auto& a, auto& b) { (void)b; __VA_ARGS__; })
#define SELF_TEXT() f.text( a, b, "element")
#define SELF_NUMBER( size) f.number( a, b, "element", size)
#define WIRE( M, type_number, first_version, last_version, ...) \
   template<> struct Wire< M> \
   { \
      constexpr static long type = type_number; \
      constexpr static long first = first_version; \
      constexpr static long last = last_version; \
      template< typename F> static void visit( M& a, M& b, F&& f) { BYTES( execution); __VA_ARGS__; } \
   };

template< typename M>
struct Wire;

#define WIRE_BUFFER TEXT( buffer.type), TEXT( buffer.data)
#define WIRE_MESSAGE_ATTRIBUTES( role) BYTES( role id), TEXT( role attributes.properties), TEXT( role attributes.reply), NUMBER( role attributes.available, 8), TEXT( role payload.type), TEXT( role payload.data)
#define WIRE_QUEUE_MESSAGE WIRE_MESSAGE_ATTRIBUTES(), NUMBER( redelivered, 8), NUMBER( timestamp, 8)

WIRE( casual::gateway::message::domain::connect::Request, 7200, 1000, 1004, BYTES( domain.id), TEXT( domain.name), EACH( versions, SELF_NUMBER( 8)))
WIRE( casual::gateway::message::domain::connect::Reply, 7201, 1000, 1004, BYTES( domain.id), TEXT( domain.name), NUMBER( version, 8))
WIRE( casual::gateway::message::domain::disconnect::Request, 7202, 1001, 1004)
WIRE( casual::gateway::message::domain::disconnect::Reply, 7203, 1001, 1004)
WIRE( casual::domain::message::discovery::Request, 7300, 1000, 1004, BYTES( domain.id), TEXT( domain.name), EACH( content.services, SELF_TEXT()), EACH( content.queues, SELF_TEXT()))
#define WIRE_DISCOVERED_SERVICE TEXT( name), TEXT( category), NUMBER( transaction, 2), NUMBER( timeout.duration, 8), NUMBER( property.hops, 8)
WIRE( casual::domain::message::discovery::Reply, 7311, 1004, 1004, BYTES( domain.id), TEXT( domain.name), EACH( content.services, WIRE_DISCOVERED_SERVICE),
   EACH( content.queues, TEXT( name), NUMBER( retry.count, 8), NUMBER( retry.delay, 8), NUMBER( enable.enqueue, 1), NUMBER( enable.dequeue, 1)))
WIRE( casual::domain::message::discovery::v1_3::Reply, 7301, 1000, 1003, BYTES( domain.id), TEXT( domain.name), EACH( content.services, WIRE_DISCOVERED_SERVICE),
   EACH( content.queues, TEXT( name), NUMBER( retries, 8)))
WIRE( casual::domain::message::discovery::topology::implicit::Update, 7302, 1002, 1004, EACH( domains, BYTES( id), TEXT( name)))

WIRE( message::service::call::callee::Request, 3102, 1003, 1004, TEXT( service.name), MAYBE( deadline.remaining, SELF_NUMBER( 8)), BYTES( parent.span), TEXT( parent.service), TRID( trid), NUMBER( flags, 8), WIRE_BUFFER)
WIRE( message::service::call::v1_2::callee::Request, 3100, 1000, 1002, TEXT( service.name), NUMBER( service.timeout.duration, 8), TEXT( parent), TRID( trid), NUMBER( flags, 8), WIRE_BUFFER)
WIRE( message::service::call::Reply, 3103, 1003, 1004, NUMBER( code.result, 4), NUMBER( code.user, 8), NUMBER( transaction_state, 1), WIRE_BUFFER)
WIRE( message::service::call::v1_2::Reply, 3101, 1000, 1002, NUMBER( code.result, 4), NUMBER( code.user, 8), TRID( transaction.trid), NUMBER( transaction.state, 1), WIRE_BUFFER)

#define WIRE_RESOURCE_REQUEST TRID( trid), NUMBER( resource, 4), NUMBER( flags, 8)
#define WIRE_RESOURCE_REPLY TRID( trid), NUMBER( resource, 4), NUMBER( state, 4)
WIRE( message::transaction::resource::prepare::Request, 5201, 1000, 1004, WIRE_RESOURCE_REQUEST)
WIRE( message::transaction::resource::prepare::Reply, 5202, 1000, 1004, WIRE_RESOURCE_REPLY)
WIRE( message::transaction::resource::commit::Request, 5203, 1000, 1004, WIRE_RESOURCE_REQUEST)
WIRE( message::transaction::resource::commit::Reply, 5204, 1000, 1004, WIRE_RESOURCE_REPLY)
WIRE( message::transaction::resource::rollback::Request, 5205, 1000, 1004, WIRE_RESOURCE_REQUEST)
WIRE( message::transaction::resource::rollback::Reply, 5206, 1000, 1004, WIRE_RESOURCE_REPLY)

WIRE( casual::queue::ipc::message::group::enqueue::Request, 6100, 1000, 1004, TEXT( name), TRID( trid), WIRE_MESSAGE_ATTRIBUTES( message.))
WIRE( casual::queue::ipc::message::group::enqueue::Reply, 6102, 1003, 1004, BYTES( id), NUMBER( code, 4))
WIRE( casual::queue::ipc::message::group::enqueue::v1_2::Reply, 6101, 1000, 1002, BYTES( id))
WIRE( casual::queue::ipc::message::group::dequeue::Request, 6200, 1000, 1004, TEXT( name), TRID( trid), TEXT( selector.properties), BYTES( selector.id), NUMBER( block, 1))
WIRE( casual::queue::ipc::message::group::dequeue::Reply, 6202, 1003, 1004, MAYBE( message, WIRE_QUEUE_MESSAGE), NUMBER( code, 4))
WIRE( casual::queue::ipc::message::group::dequeue::v1_2::Reply, 6201, 1000, 1002, EACH( message, WIRE_QUEUE_MESSAGE))

WIRE( message::conversation::connect::callee::Request, 3220, 1003, 1004, TEXT( service.name), MAYBE( deadline.remaining, SELF_NUMBER( 8)), BYTES( parent.span), TEXT( parent.service), TRID( trid), NUMBER( duplex, 2), WIRE_BUFFER)
WIRE( message::conversation::connect::v1_2::callee::Request, 3210, 1000, 1002, TEXT( service.name), NUMBER( service.timeout.duration, 8), TEXT( parent), TRID( trid), NUMBER( duplex, 2), WIRE_BUFFER)
WIRE( message::conversation::connect::Reply, 3211, 1000, 1004, NUMBER( code.result, 4))
WIRE( message::conversation::callee::Send, 3212, 1000, 1004, NUMBER( duplex, 2), NUMBER( code.result, 4), NUMBER( code.user, 8), WIRE_BUFFER)
WIRE( message::conversation::Disconnect, 3213, 1000, 1004)

namespace casual::gateway::message::domain::disconnect
{
}

//! the documented representation, written without the code under verification
struct Encoder
{
   casual::platform::binary::type output;

   void raw( const void* data, std::size_t size)
   {
      auto first = static_cast< const std::byte*>( data);
      output.insert( output.end(), first, first + size);
   }

   void integer( std::uint64_t value, int size)
   {
      for( int index = size - 1; index >= 0; --index)
      {
         unsigned char byte = static_cast< unsigned char>( value >> ( 8 * index));
         raw( &byte, 1);
      }
   }

   template< typename T> requires ( std::is_arithmetic_v< T> || std::is_enum_v< T>)
   static std::uint64_t value( T value) { return static_cast< std::uint64_t>( static_cast< std::int64_t>( value));}
   static std::uint64_t value( bool value) { return value ? 1 : 0;}
   static std::uint64_t value( casual::platform::time::unit value) { return static_cast< std::uint64_t>( value.count());}
   static std::uint64_t value( casual::platform::time::point::type value) { return static_cast< std::uint64_t>( value.time_since_epoch().count());}
   static std::uint64_t value( const common::strong::resource::id& value) { return static_cast< std::uint64_t>( static_cast< std::int64_t>( value.value()));}

   static const void* data( const common::Uuid& value) { return &value.get();}
   template< std::size_t size> static const void* data( const std::array< std::byte, size>& value) { return value.data();}
   template< typename T, typename P> static const void* data( const common::strong::Type< T, P>& value) { return data( value.underlying());}
   static std::size_t size( const common::Uuid& value) { return 16;}
   template< std::size_t extent> static std::size_t size( const std::array< std::byte, extent>& value) { return extent;}
   template< typename T, typename P> static std::size_t size( const common::strong::Type< T, P>& value) { return size( value.underlying());}

   template< typename T> void text( T& a, T&, const char*) { integer( a.size(), 8); raw( a.data(), a.size());}
   template< typename T> void number( T& a, T&, const char*, int size) { integer( value( a), size);}
   template< typename T> void bytes( T& a, T&, const char*) { raw( data( a), size( a));}
   void trid( common::transaction::ID& a, common::transaction::ID&, const char*)
   {
      integer( static_cast< std::uint64_t>( a.xid.formatID), 8);
      if( a.xid.formatID == -1)
         return;
      integer( static_cast< std::uint64_t>( a.xid.gtrid_length), 8);
      integer( static_cast< std::uint64_t>( a.xid.bqual_length), 8);
      raw( a.xid.data, a.xid.gtrid_length + a.xid.bqual_length);
   }
   template< typename T, typename F> void sequence( T& a, T& b, const char*, F&& each)
   {
      integer( a.size(), 8);
      for( auto& element : a)
         each( element, element);
   }
   template< typename T, typename F> void maybe( T& a, T& b, const char*, F&& each)
   {
      integer( a.has_value() ? 1 : 0, 1);
      if( a)
         each( *a, *a);
   }
};

//! one obligation for each field that is documented to be sent
struct Arrived
{
   template< typename T> void text( T& a, T& b, const char* name) { v_assert( same( a, b), name);}
   template< typename T> void number( T& a, T& b, const char* name, int) { v_assert( same( a, b), name);}
   template< typename T> void bytes( T& a, T& b, const char* name) { v_assert( same( a, b), name);}
   void trid( common::transaction::ID& a, common::transaction::ID& b, const char* name) { v_assert( same( a, b), name);}
   template< typename T, typename F> void sequence( T& a, T& b, const char* name, F&& each)
   {
      v_assert( a.size() == b.size(), name);
      for( std::size_t index = 0; index < a.size(); ++index)
         each( a[ index], b[ index]);
   }
   template< typename T, typename F> void maybe( T& a, T& b, const char* name, F&& each)
   {
      v_assert( a.has_value() == b.has_value(), name);
      if( a)
         each( *a, *b);
   }
};

// basic_message types that have nothing of their own
namespace casual::common::message
{
   template< typename F> void fields( basic_message< Type::gateway_domain_disconnect_request>& a, basic_message< Type::gateway_domain_disconnect_request>& b, F&& f) { BASE;}
   template< typename F> void fields( basic_message< Type::gateway_domain_disconnect_reply>& a, basic_message< Type::gateway_domain_disconnect_reply>& b, F&& f) { BASE;}
}
