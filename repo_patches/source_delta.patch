From 2a7bcc9b23460ce671eaf68e9e488de37855bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 01/30] fix: order buffer - check bounds before reading from
 the buffer

Values were decoded (and strings scanned, and the size of binary data added)
before the position was checked against what the buffer holds, and a negative
size moved the cursor backwards.
---
 middleware/buffer/source/order.cpp | 48 +++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/middleware/buffer/source/order.cpp b/middleware/buffer/source/order.cpp
index 6d76583..15377fa 100644
--- a/middleware/buffer/source/order.cpp
+++ b/middleware/buffer/source/order.cpp
@@ -18,6 +18,7 @@
 
 #include "common/code/xatmi.h"
 
+#include <cstring>
 #include <utility>
 #include <memory>
 
@@ -290,26 +291,48 @@ namespace casual
                   return CASUAL_ORDER_SUCCESS;
                }
 
+               //! denotes that what is left in the buffer does not hold the requested data
+               constexpr size_type insufficient = -1;
+
                template<typename T>
-               size_type select( const_data_type where, T& value) noexcept
+               size_type select( const_data_type where, size_type available, T& value) noexcept
                {
+                  constexpr size_type size = common::network::byteorder::bytes< T>();
+
+                  if( available < size)
+                     return insufficient;
+
                   //value = common::network::byteorder::decode< T>( *std::start_lifetime_as< common::network::byteorder::type< T>>( where));
                   value = common::network::byteorder::decode< T>( *reinterpret_cast< const common::network::byteorder::type< T>*>( where));
-                  return common::network::byteorder::bytes< T>();
+                  return size;
                }
 
-               size_type select( const_data_type where, const char*& value) noexcept
+               size_type select( const_data_type where, size_type available, const char*& value) noexcept
                {
-                  value = reinterpret_cast< const char*>( where);
-                  return std::strlen( value) + 1;
+                  const auto string = reinterpret_cast< const char*>( where);
+                  const auto size = available > 0 ? ::strnlen( string, available) : 0;
+
+                  // the terminator has to be part of the buffer
+                  if( static_cast< size_type>( size) >= available)
+                     return insufficient;
+
+                  value = string;
+                  return size + 1;
                }
 
-               size_type select( const_data_type where, const char*& data, size_type& size) noexcept
+               size_type select( const_data_type where, size_type available, const char*& data, size_type& size) noexcept
                {
+                  size_type count{};
+
                   // select first size chunk
-                  const auto read = select( where, size);
+                  const auto read = select( where, available, count);
+
+                  if( read == insufficient || count < 0 || count > available - read)
+                     return insufficient;
+
                   data = reinterpret_cast< const char*>( where + read);
-                  return read + size;
+                  size = count;
+                  return read + count;
                }
 
                template<typename... A>
@@ -323,19 +346,16 @@ namespace casual
                      const auto read = buffer.consumed();
 
                      // Read the data and let us not how much
-                     const auto size = select( buffer.handle().underlying() + read, std::forward<A>( arguments)...);
-
-                     // Calculate the new cursor
-                     const auto consumed = read + size;
+                     const auto size = select( buffer.handle().underlying() + read, buffer.utilized() - read, std::forward<A>( arguments)...);
 
-                     if( consumed > buffer.utilized())
+                     if( size == insufficient)
                      {
                         // We need to report this
                         return CASUAL_ORDER_OUT_OF_BOUNDS;
                      }
 
                      // Update the cursor
-                     buffer.consumed( consumed);
+                     buffer.consumed( read + size);
                   }
                   catch( ...)
                   {
-- 
2.43.0


From b34a7fe0e5dfda1a03e4bc99be3566040ce0dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 02/30] fix: field buffer - validate that content is within the
 buffer when it's indexed

---
 middleware/buffer/source/field.cpp | 43 ++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/middleware/buffer/source/field.cpp b/middleware/buffer/source/field.cpp
index 8bba3bc..5cc3fde 100644
--- a/middleware/buffer/source/field.cpp
+++ b/middleware/buffer/source/field.cpp
@@ -67,6 +67,21 @@ namespace casual
                return common::network::byteorder::decode<T>( encoded);
             }
 
+            //! @returns true if the value has a size (and form) that fits the type of the `item`
+            bool valid( item_type item, platform::binary::immutable::pointer value, size_type size) noexcept
+            {
+               switch( item / CASUAL_FIELD_TYPE_BASE)
+               {
+                  case CASUAL_FIELD_SHORT: return size == common::network::byteorder::bytes< short>();
+                  case CASUAL_FIELD_LONG: return size == common::network::byteorder::bytes< long>();
+                  case CASUAL_FIELD_CHAR: return size == common::network::byteorder::bytes< char>();
+                  case CASUAL_FIELD_FLOAT: return size == common::network::byteorder::bytes< float>();
+                  case CASUAL_FIELD_DOUBLE: return size == common::network::byteorder::bytes< double>();
+                  case CASUAL_FIELD_STRING: return size > 0 && value[ size - 1] == std::byte{ '\0'};
+                  default: return true;
+               }
+            }
+
             struct Buffer : common::buffer::Buffer
             {
                std::map< item_type, std::vector< size_type>> index;
@@ -76,22 +91,28 @@ namespace casual
                {
                   // Create an index upon creation
 
-                  const auto begin = payload.data.begin();
-                  const auto end = payload.data.end();
-                  auto cursor = begin;
+                  const size_type total = payload.data.size();
+                  size_type cursor = 0;
 
-                  while( cursor < end)
+                  while( cursor < total)
                   {
-                     const auto item = local::decode< item_type>( &*cursor + item_offset);
-                     const auto size = local::decode< size_type>( &*cursor + size_offset);
+                     // We need to make sure that what the (possible inbound) buffer claims to hold is
+                     // within the actual buffer
+                     if( total - cursor < data_offset)
+                        throw std::invalid_argument{ "buffer is invalid"};
 
-                     index[ item].push_back( std::distance( begin, cursor));
+                     const auto where = payload.data.data() + cursor;
 
-                     std::advance( cursor, data_offset + size);
-                  }
+                     const auto item = local::decode< item_type>( where + item_offset);
+                     const auto size = local::decode< size_type>( where + size_offset);
+
+                     if( size < 0 || size > total - cursor - data_offset || ! local::valid( item, where + data_offset, size))
+                        throw std::invalid_argument{ "buffer is invalid"};
 
-                  if( cursor > end)
-                     throw std::invalid_argument{ "buffer is invalid"};
+                     index[ item].push_back( cursor);
+
+                     cursor += data_offset + size;
+                  }
                }
 
                Buffer( Buffer&&) noexcept = default;
-- 
2.43.0


From 6c97f0cb4e9af98d4dc23bbed6016e98817778d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 03/30] fix: string buffer - don't search for terminator
 outside of the buffer

---
 middleware/buffer/source/string.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/middleware/buffer/source/string.cpp b/middleware/buffer/source/string.cpp
index a6e7bd3..5af098f 100644
--- a/middleware/buffer/source/string.cpp
+++ b/middleware/buffer/source/string.cpp
@@ -36,16 +36,15 @@ namespace casual
             {
                auto validate( const common::buffer::Payload& payload)
                {
-                  auto string_like = common::binary::span::to_string_like( payload.data);
-                  const auto size = std::size( string_like);
-                  const auto used = std::strlen( string_like.data()) + 1;
-
                   // We do need to check that it is a real null-terminated
                   // string within allocated area
+                  auto found = common::algorithm::find( payload.data, std::byte{ '\0'});
 
-                  if( used > size)
+                  if( ! found)
                      throw std::invalid_argument{"string is longer than allocated size"};
 
+                  const auto used = std::distance( std::begin( payload.data), std::begin( found)) + 1;
+
                   return used;
                }
             } // local
@@ -194,10 +193,7 @@ namespace casual
 
                   value = reinterpret_cast< const char*>( buffer.handle().underlying());
 
-                  const auto count = std::strlen( value) + 1;
-                  const auto space = buffer.payload.data.size();
-
-                  if( count > space)
+                  if( ! common::algorithm::find( buffer.payload.data, std::byte{ '\0'}))
                   {
                      // We need to report this
                      return CASUAL_STRING_OUT_OF_BOUNDS;
-- 
2.43.0


From 3254b8c56c0f5d393c4dbb47bed6fd95c144682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 04/30] fix: buffer - refuse negative user supplied size

---
 middleware/common/source/buffer/type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/buffer/type.cpp b/middleware/common/source/buffer/type.cpp
index 026a674..a8e4737 100644
--- a/middleware/common/source/buffer/type.cpp
+++ b/middleware/common/source/buffer/type.cpp
@@ -102,8 +102,8 @@ namespace casual
 
          platform::binary::size::type Buffer::transport( platform::binary::size::type user_size) const
          {
-            if( user_size > reserved())
-               code::raise::error( code::xatmi::argument, "user supplied size is larger than the buffer actual size");
+            if( user_size < 0 || user_size > reserved())
+               code::raise::error( code::xatmi::argument, "user supplied size is negative or larger than the buffer actual size");
 
             return user_size;
          }
-- 
2.43.0


From adc43b55cf39735da3018b2cff5236258b12d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 05/30] fix: transaction-manager does not report success for a
 one-phase commit that is rolled back

When a one-phase commit from another domain involves several resources and one of
them votes XAER_NOTA, the others are rolled back and the reply was read_only (or ok).
---
 middleware/transaction/source/manager/handle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 84afb22..1b43fe1 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -464,6 +464,11 @@ namespace casual
                         if constexpr( concepts::any_of< Reply, common::message::transaction::commit::Reply>)
                            reply.stage = decltype( reply.stage)::rollback;
 
+                        // a (one-phase) commit request from upstream that ends up in rollback can't be reported as success
+                        if constexpr( concepts::any_of< Reply, common::message::transaction::resource::commit::Reply>)
+                           if( common::algorithm::compare::any( reply.state, common::code::xa::ok, common::code::xa::read_only))
+                              reply.state = common::code::xa::rollback_unspecified;
+
                         common::log::line( verbose::log, "reply: ", reply);
                         state.multiplex.send( destination.process.ipc, reply);
 
-- 
2.43.0


From f75e759c069d259332b76ee614b1339c201acf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 06/30] fix: transaction-manager handles the (emulated) reply
 for a resource instance that is gone

A failed send to a local resource proxy pushes an emulated resource_fail
reply, that has no corresponding proxy instance. Looking the instance up
raised and the transaction-manager terminated. The same goes for an
instance that exits directly after its reply.
---
 middleware/transaction/source/manager/handle.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 1b43fe1..edc6031 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -722,10 +722,15 @@ namespace casual
                         if( state::resource::id::local( message.resource))
                         {
                            // The resource is a local resource proxy, and it's done, and ready for more work
-                           auto& instance = state.get_instance( message.resource, message.process.pid);
+                           // note: there is no instance if the reply is emulated by us (failed to send the request), 
+                           // or if the instance has exited since it sent the reply.
+                           if( auto resource = state.find_resource( message.resource))
                            {
-                              instance.unreserve( message.statistics);
-                              instance::ready( state, instance);
+                              if( auto instance = common::algorithm::find( resource->instances, message.process.pid))
+                              {
+                                 instance->unreserve( message.statistics);
+                                 instance::ready( state, *instance);
+                              }
                            }
                         } 
                      }
-- 
2.43.0


From 1c787cae703744234d2700714d29a787944c64ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:04 +0000
Subject: [PATCH 07/30] fix: keep the duplex when a conversation is connected
 to or from a domain with protocol 1.2 or older

---
 middleware/gateway/include/gateway/message/protocol/transform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/middleware/gateway/include/gateway/message/protocol/transform.h b/middleware/gateway/include/gateway/message/protocol/transform.h
index 7f95726..c199b70 100644
--- a/middleware/gateway/include/gateway/message/protocol/transform.h
+++ b/middleware/gateway/include/gateway/message/protocol/transform.h
@@ -82,6 +82,7 @@ namespace casual
          result.correlation = message.correlation;
          result.execution = message.execution;
          result.buffer = std::move( message.buffer);
+         result.duplex = message.duplex;
          result.parent = std::move( message.parent.service);
          result.pending = message.pending;
          result.service.name = std::move( message.service.name);
@@ -96,6 +97,7 @@ namespace casual
          result.correlation = message.correlation;
          result.execution = message.execution;
          result.buffer = std::move( message.buffer);
+         result.duplex = message.duplex;
          result.parent.service = std::move( message.parent);
          result.pending = message.pending;
          result.service.name = std::move( message.service.name);
-- 
2.43.0


From 450dd3ce60686813955514721152f3df6a386bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:20 +0000
Subject: [PATCH 08/30] fix: accept the text form of a global transaction id of
 more than 32 bytes

---
 middleware/common/source/transaction/global.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/global.cpp b/middleware/common/source/transaction/global.cpp
index 08b00a8..4ab5b1c 100644
--- a/middleware/common/source/transaction/global.cpp
+++ b/middleware/common/source/transaction/global.cpp
@@ -51,7 +51,7 @@ namespace casual::common
          if( string.size() % 2 == 1)
             code::raise::error( code::casual::invalid_argument, "invalid format on gtrid: ", string, ", needs to be even length");
 
-         assertion( string.size() <= 64, "trid: ", string, " has larger gtrid size than 64");
+         assertion( string.size() <= 128, "trid: ", string, " has larger gtrid size than 64");
 
          common::transcode::hex::decode( string, gtrid.m_gtrid);
          gtrid.m_size = string.size() / 2;
-- 
2.43.0


From 369465db0c2afa5feb0b8ac5c65fcb7e169076cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 09/30] fix: service-manager discards the reservation, and
 serves the next in line, when the caller of a lookup is gone

---
 middleware/service/source/manager/handle.cpp | 66 ++++++++++++++++----
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index e743331..c79aa6f 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -231,6 +231,8 @@ namespace casual
             {
                // defined after lookup, below
                void pending( State& state, std::vector< state::service::pending::Lookup>&& pending);
+               //! discards the reservation that correlates, if any, and lets the next in line have the instance.
+               void discard( State& state, const strong::correlation::id& correlation);
                   
             } // service::detail::handle
 
@@ -484,10 +486,10 @@ namespace casual
                         }
 
                         // send reply, if caller gone, we discard the reservation.
-                        state.multiplex.send( message.process.ipc, reply, [ &state]( auto& destination, auto& complete)
+                        state.multiplex.send( message.process.ipc, reply, [ &state, correlation = message.correlation]( auto& destination, auto& complete)
                         {
-                           if( auto instance_id = state.instances.sequential.lookup( destination))
-                              state.instances.sequential[ instance_id].discard();
+                           if constexpr( ! is_concurrent)
+                              detail::handle::discard( state, correlation);
                         });
                      }
 
@@ -679,16 +681,7 @@ namespace casual
                         {
                            log::line( log, "failed to find pending to discard - check if we have reserved the service already");
 
-                           // we need to go through all sequential instances.
-
-                           state.instances.sequential.for_each( [ correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
-                           {
-                              if( ! instance.idle() && instance.caller().correlation == correlation)
-                              {
-                                 log::line( verbose::log, "found reserved instance: ", instance);
-                                 instance.discard();
-                              }
-                           });
+                           service::detail::handle::discard( state, message.correlation);
 
                            // regardless, we assume we've already replied.
                            reply.state = decltype( reply.state)::replied;
@@ -725,6 +718,53 @@ namespace casual
                         
                         algorithm::for_each( pending, lookup);
                      }
+
+                     void discard( State& state, const strong::correlation::id& correlation)
+                     {
+                        Trace trace{ "service::manager::handle::local::service::detail::handle::discard"};
+
+                        // we need to go through all sequential instances.
+                        state::instance::sequential::id::type instance_id{};
+
+                        state.instances.sequential.for_each( [ &correlation, &instance_id]( auto id, auto& ipc, auto& instance)
+                        {
+                           if( ! instance.idle() && instance.caller().correlation == correlation)
+                           {
+                              log::line( verbose::log, "found reserved instance: ", instance);
+                              instance.discard();
+                              instance_id = id;
+                           }
+                        });
+
+                        if( ! instance_id)
+                           return;
+
+                        auto& instance = state.instances.sequential[ instance_id];
+
+                        if( algorithm::find( state.disabled, instance_id))
+                        {
+                           // there will be no ACK for the discarded reservation. We need to let the 
+                           // shutdown task, if any, know that the instance is not busy any more
+                           common::message::service::call::ACK message;
+                           message.correlation = correlation;
+                           message.metric.process = instance.process;
+                           state.pending.shutdown( std::move( message));
+                           return;
+                        }
+
+                        auto has_pending = [ &state, &instance]( const auto& pending)
+                        {
+                           return instance.service( state.services.lookup( pending.request.requested));
+                        };
+
+                        // the instance is idle, the one that has waited the longest might use it.
+                        if( auto found = algorithm::find_if( state.pending.lookups, has_pending))
+                        {
+                           std::vector< state::service::pending::Lookup> lookups;
+                           lookups.push_back( algorithm::container::extract( state.pending.lookups, std::begin( found)));
+                           handle::pending( state, std::move( lookups));
+                        }
+                     }
                   } // handle
 
                   
-- 
2.43.0


From 3d5080877933a3f80d75fecaced27ec5f4e40d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 10/30] fix: service-manager does not read past the last
 deadline when it is removed

---
 middleware/service/source/manager/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 51675a1..00b5c2e 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -212,7 +212,7 @@ namespace casual
                {
                   if( auto found = algorithm::find( m_entries, correlation))
                   {
-                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries))
+                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries) && next != std::end( m_entries))
                         return { next->when};
                   }
                   return {};
-- 
2.43.0


From 01da5e21e0564c08f4a1aff8cfe9b0862b58e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 11/30] fix: service-manager uses the updated order for
 concurrent instances

---
 middleware/service/include/service/manager/state.h | 3 ++-
 middleware/service/source/manager/state.cpp        | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 26e3818..6b08908 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -313,7 +313,8 @@ namespace casual
                //!   Otherwise, the first instance, and rotate.
                instance::concurrent::id::type next_concurrent( std::span< instance::concurrent::id::type> preferred) noexcept;
 
-               void update_prioritized();
+               //! updates the order for `id`, if found, and the prioritized instances 
+               void update_prioritized( instance::concurrent::id::type id, platform::size::type order);
 
                inline const auto& sequential() const noexcept { return m_sequential;}
                inline const auto& concurrent() const noexcept { return m_concurrent;}
diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 00b5c2e..19cf031 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -155,8 +155,11 @@ namespace casual
                return algorithm::random::next( m_prioritized_concurrent)->id;
             }
 
-            void Instances::update_prioritized()
+            void Instances::update_prioritized( instance::concurrent::id::type id, platform::size::type order)
             {
+               if( auto found = algorithm::find( m_concurrent, id))
+                  found->order = order;
+
                algorithm::stable_sort( m_concurrent);
                prioritize();
             }
@@ -759,7 +762,7 @@ namespace casual
 
             // We need to go through all services and update order/prio
             for( auto service_id : services.indexes())
-               services[ service_id].instances.update_prioritized();
+               services[ service_id].instances.update_prioritized( id, message.order);
 
             // nothing added, no new services available.
             return {};
-- 
2.43.0


From 6159fb46b4ad2ef75e62c75b02540ed8176bb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 12/30] fix: service-manager does not use instances that are
 about to be shut down or killed

---
 middleware/service/source/manager/state.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 19cf031..d5cce88 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -597,7 +597,8 @@ namespace casual
 
          auto is_idle = [ &]( auto instance_id)
          {
-            return instances.sequential[ instance_id].idle();
+            // an instance in "shutdown" mode (or about to get killed) must not be used
+            return instances.sequential[ instance_id].idle() && ! algorithm::find( disabled, instance_id);
          };
 
          auto& service = services[ service_id];
@@ -687,11 +688,8 @@ namespace casual
          instances.sequential[ instance_id].alias = std::move( message.alias);
 
          // instance might be in "shutdown" mode..
-         if( auto found = algorithm::find( disabled, instance_id))
-         {
-            algorithm::container::erase( disabled, std::begin( found));
+         if( algorithm::find( disabled, instance_id))
             return {};
-         }
 
          // add
          {
-- 
2.43.0


From 9a0dd5c0c3bc77617f069fda3fe29980561586b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 13/30] fix: service-manager keeps the correlation of a
 reservation until the instance is idle, hence shutdown completes

---
 middleware/service/include/service/manager/state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 6b08908..ea22d91 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -148,10 +148,11 @@ namespace casual
                void remove( service::id::type service);
 
                //! @returns and consumes associated caller to the correlation. 'empty' caller if not found.
+               //! @note the correlation of the reservation is kept until the instance is unreserved.
                inline instance::Caller consume( const common::strong::correlation::id& correlation)
                {
                   if( m_caller == correlation)
-                     return std::exchange( m_caller, {});
+                     return { .process = std::exchange( m_caller.process, {}), .correlation = correlation};
                   return {};
                }
 
-- 
2.43.0


From bea2cf5d58ee903ed829237e4b2e0ee1802e063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 14/30] fix: service-manager reevaluates pending lookups when a
 service is unadvertised, and keeps the order of them

---
 middleware/service/source/manager/state.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index d5cce88..8c0a5ec 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -710,7 +710,22 @@ namespace casual
          // remove
          local::remove_services( *this, instance_id, message.services.remove);
 
-         // now we need to check if there are pending request that this instance has enabled
+         // if the last instance of a service is gone, the pending requests for the service has to be reevaluated
+         auto result = [ &]()
+         {
+            auto no_instances = [ &]( auto& pending)
+            {
+               if( auto service_id = services.lookup( pending.request.requested))
+                  return ! services[ service_id].has_instances() && algorithm::find( message.services.remove, services[ service_id].information.name);
+               return false;
+            };
+
+            return algorithm::container::extract( pending.lookups, algorithm::stable::filter( pending.lookups, no_instances));
+         }();
+
+         // now we need to check if there are pending request that this instance has enabled. If the instance is
+         // busy the pending keeps its place in line.
+         if( instances.sequential[ instance_id].idle())
          {
             auto requested_service = [ &, instance_id]( auto& pending)
             {
@@ -720,10 +735,10 @@ namespace casual
             };
  
             if( auto found = algorithm::find_if( pending.lookups, requested_service))
-               return { algorithm::container::extract( pending.lookups, std::begin( found))};
+               result.push_back( algorithm::container::extract( pending.lookups, std::begin( found)));
          }
 
-         return {};
+         return result;
       }
 
 
-- 
2.43.0


From 7ec5c05b872328a0ab77ff0e79fad3ceb4c3d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 15/30] fix: transaction - map the transaction state of a reply
 to the state of the transaction

---
 .../common/source/transaction/context.cpp     | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ddc0a6e..4c388cc 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -504,13 +504,36 @@ namespace casual
          }
 
 
+         namespace local
+         {
+            namespace
+            {
+               namespace transform
+               {
+                  //! the state in a reply is not the same "domain" as the state of a transaction
+                  Transaction::State state( message::service::transaction::State state)
+                  {
+                     using State = message::service::transaction::State;
+                     switch( state)
+                     {
+                        case State::ok: return Transaction::State::active;
+                        case State::timeout: return Transaction::State::timeout;
+                        case State::rollback: return Transaction::State::rollback;
+                        case State::error: return Transaction::State::rollback;
+                     }
+                     return Transaction::State::rollback;
+                  }
+               } // transform
+            } // <unnamed>
+         } // local
+
          void Context::update( message::service::call::Reply& reply)
          {
             Trace trace{ "transaction::Context::update"};
 
             if( auto found = algorithm::find( m_transactions, reply.correlation))
             {
-               auto state = Transaction::State( reply.transaction_state);
+               auto state = local::transform::state( reply.transaction_state);
 
                if( found->state < state)
                   found->state = state;
-- 
2.43.0


From 139e7dea8a0d3ea281b88c189e438515d210e8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 16/30] fix: transaction - do not commit a transaction that has
 pending replies when service returns

---
 middleware/common/source/transaction/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 4c388cc..15744fb 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -573,6 +573,9 @@ namespace casual
                      log::line( log::category::transaction, transaction);
 
                      result = message::service::transaction::State::error;
+
+                     if( transaction.state == Transaction::State::active)
+                        transaction.state = Transaction::State::rollback;
                   }
 
                   // Discard pending
-- 
2.43.0


From c0869fbedefad160e75fafe1c9da794f496922c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 17/30] fix: transaction - suspend or resume all resources or
 none

---
 .../common/source/transaction/context.cpp     | 54 ++++++++++++++++---
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 15744fb..1de6af8 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -275,6 +275,39 @@ namespace casual
                } // start
 
 
+               namespace resources
+               {
+                  //! applies `action` to the `resources` that are involved in `transaction`. If it fails for some of them
+                  //! `revert` is applied to the ones that succeeded.
+                  template< typename R, typename A, typename U>
+                  [[nodiscard]] code::tx all_or_none( const Transaction& transaction, R& resources, A action, U revert)
+                  {
+                     std::vector< Resource*> successful;
+
+                     auto result = algorithm::accumulate( transaction.involved(), code::tx::ok, [ &]( code::tx result, auto& id)
+                     {
+                        auto found = algorithm::find( resources, id);
+
+                        if( ! found)
+                           return result;
+
+                        auto code = code::convert::to::tx( action( *found));
+
+                        if( code == code::tx::ok)
+                           successful.push_back( &( *found));
+
+                        return result + code;
+                     });
+
+                     if( result != code::tx::ok)
+                        for( auto resource : successful)
+                           revert( *resource);
+
+                     return result;
+                  }
+
+               } // resources
+
                namespace resources::start
                {
                   namespace involved
@@ -396,7 +429,12 @@ namespace casual
                      {
                         return []( Transaction& transaction, auto&& resources)
                         {
-                           return policy::start( transaction, resources, flag::xa::Flag::resume);
+                           // involve the resources
+                           transaction.involve( transform::ids( resources));
+
+                           return local::resources::all_or_none( transaction, resources, 
+                              [ &transaction]( auto& resource){ return resource.start( transaction.trid, flag::xa::Flag::resume);},
+                              [ &transaction]( auto& resource){ resource.end( transaction.trid, flag::xa::Flag::suspend);});
                         };
                      }
                      
@@ -435,7 +473,9 @@ namespace casual
                      {
                         return []( const Transaction& transaction, auto& resources)
                         {
-                           return policy::end( transaction, resources, flag::xa::Flag::suspend);
+                           return local::resources::all_or_none( transaction, resources, 
+                              [ &transaction]( auto& resource){ return resource.end( transaction.trid, flag::xa::Flag::suspend);},
+                              [ &transaction]( auto& resource){ resource.start( transaction.trid, flag::xa::Flag::resume);});
                         };
                      }
 
@@ -1084,13 +1124,13 @@ namespace casual
 
             // We don't check if current transaction is aborted. This differs from Tuxedo's semantics
 
-            // mark the transaction as suspended
-            ongoing.suspend();
-
             // Tell the RM:s to suspend
             if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), ongoing, m_resources.all); code != code::tx::ok)
                return local::log::code( code::tx::protocol, "suspend: failed to suspend one or more resources");
 
+            // mark the transaction as suspended
+            ongoing.suspend();
+
             *xid = ongoing.trid.xid;
 
             local::log::event( "suspend", ongoing.trid);
@@ -1110,12 +1150,12 @@ namespace casual
                if( ! found->suspended())
                   return local::log::code( code::tx::protocol, "resume: wanted transaction is not suspended");
 
-               found->resume();
-
                // Tell the RM:s to resume
                if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), *found, m_resources.fixed); code != code::tx::ok)
                   return local::log::code( code::tx::argument, "resume: failed to resume one or more fixed resources");
 
+               found->resume();
+
                // We rotate the wanted to end;
                algorithm::rotate( m_transactions, ++found);
 
-- 
2.43.0


From 41231d4a84933dc789edd34cbda228367eaf7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 18/30] fix: transaction - leave nothing behind when begin
 fails

---
 .../common/source/transaction/context.cpp      | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 1de6af8..d06e160 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -409,7 +409,17 @@ namespace casual
                      {
                         return []( Transaction& transaction, auto&& resources)
                         {
-                           return policy::start( transaction, resources, flag::xa::Flag::no_flags);
+                           // involve the resources
+                           transaction.involve( transform::ids( resources));
+
+                           // nobody else knows about the transaction, if we fail there must be no trace of it.
+                           return local::resources::all_or_none( transaction, resources, 
+                              [ &transaction]( auto& resource){ return resource.start( transaction.trid, flag::xa::Flag::no_flags);},
+                              [ &transaction]( auto& resource)
+                              { 
+                                 resource.end( transaction.trid, flag::xa::Flag::success);
+                                 resource.rollback( transaction.trid, flag::xa::Flag::no_flags);
+                              });
                         };
                      }
 
@@ -802,8 +812,14 @@ namespace casual
                      // to mark this extremely short lived transaction with 'error'. Don't know
                      // how resources "wants it"...
                      resource.end( transaction.trid, flag::xa::Flag::success);
+                     resource.rollback( transaction.trid, flag::xa::Flag::no_flags);
                   });
 
+                  // ...and that the work continues in the transaction we've suspended, if any
+                  if( auto& current = Context::current())
+                     if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.fixed); code != code::tx::ok)
+                        log::error( code, "failed to resume resources for transaction: ", current);
+
                   return local::log::code( code::tx::error, "some resources failed to start: ", algorithm::transform( failed, []( auto& rm){ return rm.id();}));
                }
             }            
-- 
2.43.0


From 33200beabe53fa02af37170f4fcaf9d065a8b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 19/30] fix: transaction - stacked: resume only resources that
 was suspended

---
 middleware/common/source/transaction/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index d06e160..5252533 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1248,7 +1248,7 @@ namespace casual
                case Control::stacked:
                   // Tell the RM:s to resume, if we've got a transaction
                   if( auto& current = Context::current())
-                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.all);
+                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.fixed);
                   return code;
             }
 
-- 
2.43.0


From 748dd2b78566c158ee882cd96712ada8a5bc0f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 20/30] fix: transaction - rollback when a resource fails to
 end its work

---
 .../common/include/common/transaction/context.h    |  2 ++
 middleware/common/source/transaction/context.cpp   | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index 71243e2..f66333d 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -159,6 +159,8 @@ namespace casual
          [[nodiscard]] code::tx commit( const Transaction& transaction);
          [[nodiscard]] code::tx rollback( const Transaction& transaction);
 
+         //! rollback `transaction`, with the work of all resources ended
+         [[nodiscard]] code::tx rollback_ended( const Transaction& transaction);
 
          [[nodiscard]] code::tx resource_commit( strong::resource::id rm, const Transaction& transaction, flag::xa::Flag flags);
          [[nodiscard]] code::tx resource_rollback( strong::resource::id rm, const Transaction& transaction);
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 5252533..2280e90 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -909,7 +909,10 @@ namespace casual
 
             // end resources
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "commit - failed to end one or more resources");
+            {
+               log::error( code, "commit - failed to end one or more resources - action: rollback transaction: ", transaction.trid);
+               return code::tx::rollback + rollback_ended( transaction);
+            }
 
             if( transaction.local() && transaction.involved().size() <= 1)
             {
@@ -1003,7 +1006,14 @@ namespace casual
 
             // end resources
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "rollback - failed to end one or more resources for transaction: ", transaction.trid);
+               log::error( code, "rollback - failed to end one or more resources for transaction: ", transaction.trid);
+
+            return rollback_ended( transaction);
+         }
+
+         code::tx Context::rollback_ended( const Transaction& transaction)
+         {
+            Trace trace{ "transaction::Context::rollback_ended"};
 
             if( transaction.local())
             {
-- 
2.43.0


From eeba64da774b8d86b62ad676daab4705237bf1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 21/30] fix: service call - the deadline of the ongoing service
 follows a call within a transaction

---
 middleware/common/source/service/call/context.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index ce6e43b..f426c51 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -78,7 +78,15 @@ namespace casual
                         if( flag::contains( flags, call::async::Flag::no_reply))
                            code::raise::error( code::xatmi::argument, "TPNOREPLY can only be used with TPNOTRAN");
 
-                        return service::Lookup{ std::move( service), transform_context( flags), current.deadline};
+                        // the call is limited by both the transaction and the deadline for the ongoing service (if any).
+                        auto earliest = []( auto& lhs, auto& rhs)
+                        {
+                           if( lhs && rhs)
+                              return std::min( lhs, rhs);
+                           return lhs ? lhs : rhs;
+                        };
+
+                        return service::Lookup{ std::move( service), transform_context( flags), earliest( current.deadline, deadline)};
                      }
                   }
 
-- 
2.43.0


From 79df00458738485f0d6f68438ae2e24a9a3e4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 22/30] fix: service call - a call that fails to be sent does
 not block the commit of the transaction

---
 middleware/common/source/service/call/context.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index f426c51..51e99dc 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -164,8 +164,15 @@ namespace casual
          // The service exists. Take care of reserving descriptor and determine timeout
          auto prepared = local::prepare::message( m_state, std::move( buffer), std::move( header), flags, target);
 
-         // If some thing goes wrong we unreserve the descriptor
-         auto unreserve = common::execute::scope( [&](){ m_state.pending.unreserve( prepared.descriptor);});
+         // If some thing goes wrong we unreserve the descriptor, and the transaction (if any) should not wait for a reply
+         auto unreserve = common::execute::scope( [&]()
+         { 
+            if( flag::contains( flags, async::Flag::no_reply))
+               return;
+
+            m_state.pending.unreserve( prepared.descriptor);
+            common::transaction::context().current().replied( prepared.message.correlation);
+         });
 
 
          if( target.state != decltype( target.state)::idle)
-- 
2.43.0


From a443a2a53c267487b3d18734129ab0a6923d2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 23/30] fix: service call - only replies to outstanding calls
 are received with TPGETANY

---
 .../include/common/service/call/state.h       |  1 +
 .../common/source/service/call/context.cpp    | 26 +++++++++++++++++--
 .../common/source/service/call/state.cpp      |  8 ++++++
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/middleware/common/include/common/service/call/state.h b/middleware/common/include/common/service/call/state.h
index 9a8b130..dcef575 100644
--- a/middleware/common/include/common/service/call/state.h
+++ b/middleware/common/include/common/service/call/state.h
@@ -51,6 +51,7 @@ namespace casual
             void unreserve( descriptor_type descriptor);
 
             bool active( descriptor_type descriptor) const;
+            bool active( const correlation_type& correlation) const;
 
             const pending::Descriptor& get( descriptor_type descriptor) const;
             const pending::Descriptor& get( const correlation_type& correlation) const;
diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index 51e99dc..295dd79 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -225,6 +225,28 @@ namespace casual
                      std::forward< Args>( args)...);
                }
             }
+
+            //! receives any reply that correlates to an active descriptor. Other replies could be late replies to calls
+            //! that is already consumed (timeout), or be part of conversations.
+            bool receive_any( message::service::call::Reply& reply, reply::Flag flags, const state::Pending& pending)
+            {
+               auto& device = communication::ipc::inbound::device();
+
+               auto is_pending = [ &pending]( auto& complete)
+               {
+                  return complete.type() == message::service::call::Reply::type() && pending.active( complete.correlation());
+               };
+
+               auto complete = flag::contains( flags, reply::Flag::no_block) ?
+                  device.select( is_pending, communication::device::policy::non::blocking( device))
+                  : device.select( is_pending, communication::device::policy::blocking( device));
+
+               if( ! complete)
+                  return false;
+
+               serialize::native::complete( complete, reply);
+               return true;
+            }
          } // <unnamed>
       } // local
 
@@ -244,8 +266,8 @@ namespace casual
 
             if( flag::contains( flags, reply::Flag::any))
             {
-               // We fetch any
-               if( ! local::receive( reply, flags))
+               // We fetch any, of the ones we're waiting for.
+               if( ! local::receive_any( reply, flags, m_state.pending))
                   code::raise::error( code::xatmi::no_message);
 
                return std::make_pair(
diff --git a/middleware/common/source/service/call/state.cpp b/middleware/common/source/service/call/state.cpp
index 37696b8..0a3fd9e 100644
--- a/middleware/common/source/service/call/state.cpp
+++ b/middleware/common/source/service/call/state.cpp
@@ -72,6 +72,14 @@ namespace casual
             return false;
          }
 
+         bool Pending::active( const correlation_type& correlation) const
+         {
+            return algorithm::any_of( m_descriptors, [ &correlation]( auto& descriptor)
+            {
+               return descriptor.active && descriptor.correlation == correlation;
+            });
+         }
+
          const pending::Descriptor& Pending::get( descriptor_type descriptor) const
          {
             auto found = algorithm::find( m_descriptors, descriptor);
-- 
2.43.0


From e7fed642eb58cb0fc351f8ce7b505527e2f79e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:22 +0000
Subject: [PATCH 24/30] fix: conversation - the end of a conversation updates
 the transaction it takes part in

---
 .../include/common/transaction/context.h      |  3 +++
 .../source/service/conversation/context.cpp   | 27 ++++++++++++++++++-
 .../common/source/transaction/context.cpp     | 11 +++++---
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index f66333d..b313ff5 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -102,6 +102,9 @@ namespace casual
 
          void update( message::service::call::Reply& state);
 
+         //! updates the state of the transaction associated with `correlation`, if any, and removes the association.
+         void update( const strong::correlation::id& correlation, message::service::transaction::State state);
+
          //! commits or rollback transaction created from this server
          message::service::transaction::State finalize( bool commit);
 
diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index e907fd7..7f52471 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -100,6 +100,18 @@ namespace casual
 
                   } // validate
 
+                  namespace transaction
+                  {
+                     //! @returns a scope that marks the (possible) associated transaction as _rollback only_, unless released.
+                     auto failed( const state::descriptor::Value& value)
+                     {
+                        return execute::scope( [ correlation = value.correlation]()
+                        {
+                           common::transaction::context().update( correlation, message::service::transaction::State::rollback);
+                        });
+                     }
+                  } // transaction
+
                   namespace check
                   {
                      void disconnect( const state::descriptor::Value& value)
@@ -374,6 +386,9 @@ namespace casual
                // the conversation is terminated. The descriptor shall be unreserved.
                auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
 
+               // ... and the transaction, if any, can not be committed.
+               auto failed = local::transaction::failed( value);
+
                local::check::disconnect( value);
 
                // In this situation we may have some odd situations. We are in
@@ -421,6 +436,7 @@ namespace casual
 
                   unreserve.release(); // the conversation remains, so descriptor
                                        // shall not be unreserved
+                  failed.release();
                }
 
                return result;
@@ -438,6 +454,9 @@ namespace casual
 
                auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
 
+               // if the conversation ends without a reply from the service, the transaction, if any, can not be committed.
+               auto failed = local::transaction::failed( value);
+
                local::check::disconnect( value);
 
                // There are three possible messages in this situation:
@@ -475,7 +494,7 @@ namespace casual
                // errors. Now the conversational case relies on the logic
                // and messaages used for "tpcall"  
 
-               auto receive_message = [&unreserve]( auto& correlation, auto& flags)
+               auto receive_message = [ &unreserve, &failed]( auto& correlation, auto& flags)
                {
                   // types of interest...
                   constexpr static auto types = common::array::make(
@@ -505,6 +524,7 @@ namespace casual
                   if( ! complete)
                   {
                      unreserve.release();
+                     failed.release();
                      code::raise::error( code::xatmi::no_message);
                   }
 
@@ -544,6 +564,7 @@ namespace casual
 
                auto message = receive_message( value.correlation, flags);
                log::line( verbose::log, "message: ", message);
+               failed.release();
 
                receive::Result result;
                result.buffer = std::move( message.buffer);
@@ -604,6 +625,7 @@ namespace casual
                   
                   // we're done with this conversation,
                   // descriptor will be unreserved
+                  common::transaction::context().update( value.correlation, message.transaction_state);
                   return result;
                }
                
@@ -633,6 +655,9 @@ namespace casual
 
                auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( handle);});
 
+               // we don't know what the service has done, the transaction, if any, can not be committed.
+               auto failed = local::transaction::failed( value);
+
                {
                   auto message = local::prepare::message< message::conversation::Disconnect>( value);
                   communication::device::blocking::send( value.process.ipc, message);
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 2280e90..fe75362 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -578,18 +578,23 @@ namespace casual
          } // local
 
          void Context::update( message::service::call::Reply& reply)
+         {
+            update( reply.correlation, reply.transaction_state);
+         }
+
+         void Context::update( const strong::correlation::id& correlation, message::service::transaction::State reply_state)
          {
             Trace trace{ "transaction::Context::update"};
 
-            if( auto found = algorithm::find( m_transactions, reply.correlation))
+            if( auto found = algorithm::find( m_transactions, correlation))
             {
-               auto state = local::transform::state( reply.transaction_state);
+               auto state = local::transform::state( reply_state);
 
                if( found->state < state)
                   found->state = state;
 
                // this descriptor is done, and we can remove the association to the transaction
-               found->replied( reply.correlation);
+               found->replied( correlation);
             }
             // TODO:
             // We seem to propagate transaction state even if the call was not in a transaction
-- 
2.43.0


From b4a2076c44720621d5ea0c53785fc2e0f41fdb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:22 +0000
Subject: [PATCH 25/30] fix: conversation - a connect that fails does not block
 the transaction, the caller or the connecting process

---
 .../source/service/conversation/context.cpp   | 60 ++++++++++---------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index 7f52471..2dce4a0 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -112,6 +112,27 @@ namespace casual
                      }
                   } // transaction
 
+                  namespace wait
+                  {
+                     //! waits for the connect reply, or the emulated reply from service-manager, if the server process terminates
+                     void connect( const state::descriptor::Value& value)
+                     {
+                        constexpr static auto types = common::array::make(
+                           message::conversation::connect::Reply::type(),
+                           message::Type::service_reply);
+
+                        auto complete = communication::device::blocking::next(
+                           communication::ipc::inbound::device(),
+                           types,
+                           value.correlation);
+
+                        log::line( log::debug, "connect - reply: ", complete);
+
+                        if( complete.type() == message::Type::service_reply)
+                           code::raise::error( code::xatmi::system, "failed to connect - correlation: ", value.correlation);
+                     }
+                  } // wait
+
                   namespace check
                   {
                      void disconnect( const state::descriptor::Value& value)
@@ -285,8 +306,6 @@ namespace casual
                log::line( log::debug, "service: ", service, " buffer: ", buffer, " flags: ", flags);
 
 
-               auto start = platform::time::clock::type::now();
-
                auto descriptor = m_state.descriptors.reserve(
                   // Use the correlation id from the lookup
                   // in the connect! Seems as if service manager remembers
@@ -324,31 +343,9 @@ namespace casual
                   if( ! flag::contains( flags, connect::Flag::no_transaction) && transaction)
                   {
                      message.trid = transaction.trid;
-                     transaction.associate( message.correlation);
                   }
                }
 
-               // If something goes wrong (most likely a timeout), we need to send ack to broker in that case, cus the service(instance)
-               // will not do it...
-               auto send_ack = common::execute::scope( [&]()
-               {
-                  message::service::call::ACK ack;
-
-                  ack.execution = message.execution;
-                  ack.metric.execution = message.execution;
-                  ack.metric.span = strong::execution::span::id::generate();
-                  ack.metric.service = service;
-                  ack.metric.parent = message.parent;
-                  ack.metric.process = common::process::handle();
-                  ack.metric.trid = message.trid;
-
-                  ack.metric.start = start;
-                  ack.metric.end = platform::time::clock::type::now();
-
-                  communication::device::blocking::send( communication::instance::outbound::service::manager::device(), ack);
-               });
-
-
                value.process = target.process;
 
                log::line( verbose::log, "descriptor: ", descriptor, ", value: ", value);
@@ -359,16 +356,21 @@ namespace casual
 
                   log::line( log::debug, "connect - request: ", message);
 
-                  auto reply = communication::ipc::call( target.process.ipc, message);
+                  communication::device::blocking::send( target.process.ipc, message);
 
-                  log::line( log::debug, "connect - reply: ", reply);
+                  // from here on the service might take part in the transaction
+                  if( message.trid)
+                     common::transaction::context().current().associate( message.correlation);
 
-               }
+                  // if we don't get connected, the transaction can not be committed
+                  auto failed = local::transaction::failed( value);
 
-               unreserve.release();
-               send_ack.release();
+                  local::wait::connect( value);
 
+                  failed.release();
+               }
 
+               unreserve.release();
                return descriptor;
             }
 
-- 
2.43.0


From df3aa417a74891cde8560ac5a2c6e64d098db1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 26/30] fix: server - a service is not successful if its own
 transaction is rollback only

---
 middleware/common/source/transaction/context.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index fe75362..a916070 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -691,6 +691,11 @@ namespace casual
                return transaction.trid.owner() != process::handle();
             });
 
+            // owned transactions that can't be committed will be rolled back, make sure this is part of the outcome.
+            if( commit)
+               for( auto& transaction : owner)
+                  result += transform_state( transaction.state);
+
             // take care of owned transactions
             auto code = algorithm::accumulate( owner, code::tx::ok, local::accumulate::code( invoke_commit_rollback));
 
-- 
2.43.0


From 52cfb2cc31594e14f5343439ecc46c60918e4dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 27/30] fix: server - a service that can't commit the
 transaction of its caller can't forward

---
 middleware/common/source/server/handle/policy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/middleware/common/source/server/handle/policy.cpp b/middleware/common/source/server/handle/policy.cpp
index 919aeb6..939329c 100644
--- a/middleware/common/source/server/handle/policy.cpp
+++ b/middleware/common/source/server/handle/policy.cpp
@@ -204,6 +204,11 @@ namespace casual
                   if( transaction::context().pending())
                      code::raise::error( code::xatmi::service_error, "forward with pending transactions - service: ", message.service.name);
 
+                  // we don't reply to the caller, hence the outcome of a transaction that is 'rollback only', or has pending replies,
+                  // would be lost.
+                  if( auto& current = transaction::context().current(); current && ( current.state != decltype( current.state)::active || current.pending()))
+                     code::raise::error( code::xatmi::service_error, "forward within a transaction that can not be committed - service: ", message.service.name);
+
                   common::service::Lookup lookup{
                      forward.parameter.service.name,
                      decltype( common::service::lookup::Context::semantic)::no_reply};
-- 
2.43.0


From 2ce5fd4c80852586f31840a7936dfc6ca9c11f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 28/30] fix: server - the header is forwarded

---
 middleware/common/source/server/handle/policy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/middleware/common/source/server/handle/policy.cpp b/middleware/common/source/server/handle/policy.cpp
index 939329c..5fb1856 100644
--- a/middleware/common/source/server/handle/policy.cpp
+++ b/middleware/common/source/server/handle/policy.cpp
@@ -10,6 +10,7 @@
 #include "common/transaction/context.h"
 #include "common/buffer/pool.h"
 #include "common/service/lookup.h"
+#include "common/service/header.h"
 #include "common/communication/instance.h"
 #include "common/instance.h"
 
@@ -218,6 +219,8 @@ namespace casual
 
                   auto target = common::service::lookup::reply( std::move( lookup));
 
+                  // the header of the message has been consumed, it's now the current header.
+                  request.header = common::service::header::fields();
                   request.buffer = std::move( forward.parameter.payload);
                   request.service = target.service;
 
-- 
2.43.0


From 074d6a1e1b92c14ef7c32d7c25c37a2a8a172638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 29/30] fix: server - a conversational service that fails rolls
 back

---
 middleware/common/source/server/handle/service.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/server/handle/service.cpp b/middleware/common/source/server/handle/service.cpp
index 4701a7f..b7797c7 100644
--- a/middleware/common/source/server/handle/service.cpp
+++ b/middleware/common/source/server/handle/service.cpp
@@ -150,10 +150,15 @@ namespace casual
             reply.duplex = decltype( reply.duplex)::terminated;
 
             if( result.transaction == common::service::invoke::Result::Transaction::commit)
-               reply.code.result = code::xatmi::ok;  
+            {
+               reply.transaction_state = decltype( reply.transaction_state)::ok;
+               reply.code.result = code::xatmi::ok;
+            }
             else
+            {
+               reply.transaction_state = decltype( reply.transaction_state)::rollback;
                reply.code.result = code::xatmi::service_fail;
-
+            }
 
             log::line( log::debug, "reply: ", reply);
          }
-- 
2.43.0


From b675ae35266afa433b9f1b0cfc9cb4e05bf6866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 30/30] fix: server - the descriptor of a conversation that
 could not be connected is released

---
 middleware/common/source/server/handle/service.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/middleware/common/source/server/handle/service.cpp b/middleware/common/source/server/handle/service.cpp
index b7797c7..e04e738 100644
--- a/middleware/common/source/server/handle/service.cpp
+++ b/middleware/common/source/server/handle/service.cpp
@@ -12,6 +12,7 @@
 #include "common/transaction/context.h"
 #include "common/algorithm/compare.h"
 #include "common/communication/ipc.h"
+#include "common/execute.h"
 
 #include "casual/assert.h"
 
@@ -102,12 +103,20 @@ namespace casual
                false  // not the initiator
             );
 
+            // make sure we don't keep the descriptor if the caller can't be reached
+            auto unreserve = execute::scope( [ descriptor = result.descriptor]()
+            {
+               common::service::conversation::Context::instance().descriptors().unreserve( descriptor);
+            });
+
             // send reply
             {
                auto reply = message::reverse::type( message, process::handle());
                communication::device::blocking::send( message.process.ipc, reply);
             }
 
+            unreserve.release();
+
             return result;
          }
 
-- 
2.43.0

