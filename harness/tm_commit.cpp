// @property C09
// @tu middleware/transaction/source/manager/handle.cpp
// @tu middleware/transaction/source/manager/state.cpp
// @tu middleware/common/source/communication/ipc/message.cpp
// @tu middleware/common/source/communication/socket.cpp
// @tu middleware/common/source/server/argument.cpp
// @tu middleware/common/source/server/context.cpp
// @tu middleware/common/source/transaction/id.cpp
// @tu middleware/common/source/transaction/global.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/metric.cpp
// @tu middleware/common/source/assert.cpp
// @tu middleware/common/source/code/xa.cpp
// @tu middleware/common/source/code/tx.cpp
// @tu middleware/common/source/code/convert.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @assume a message that is sent is delivered once, or the sender is told that the destination is gone
// @assume the database makes what is prepared and removed durable when it is persisted
// @entry h_tm_votes covers=committed,rolled_back,read_only bounded time=600 : with two resources, commit only when both voted for it, for every vote and order of votes
// @entry h_tm_commit_outcome covers=ok,not_ok bounded time=600 : with two prepared resources, the outcome that is reported is ok only when every resource committed
// @entry h_tm_three covers=committed,rolled_back,read_only bounded time=600 : with three resources, commit only when all voted for it
// @entry h_tm_one_phase covers=ok,not_ok bounded : with one resource, its outcome is what is reported
// @entry h_tm_none covers=all bounded : without resources the transaction is committed at once
// @entry h_tm_rollback covers=ok,not_ok bounded time=600 : rollback reaches every involved resource and its outcome is reported
// @entry h_tm_lost covers=all bounded time=600 : a resource that can not be reached is never taken for a resource that agreed
// @entry h_tm_instance_dies covers=all bounded : a transaction gets its outcome also when the process of a resource dies while it carries out a request
// @entry h_tm_external_dies covers=before,prepare,commit,rollback bounded time=600 : a resource of another domain that goes away is never taken for a resource that did what was asked
// @entry h_tm_isolated covers=all bounded time=600 : two transactions with the same resources do not affect each other
// @entry h_tm_branches covers=all bounded time=600 : every branch of a transaction is prepared and committed
// @entry h_tm_external_prepare covers=ready,refused,read_only bounded time=600 : as a resource of another domain, ready is reported only when all resources are ready and it is durable, and the decision is the other domain's
// @entry h_tm_external_one_phase covers=ok,not_ok bounded time=600 : as the only resource of another domain, success is reported only when the work is committed
// @entry h_tm_external_rollback covers=all bounded time=600 : the rollback of another domain reaches every involved resource
// @entry h_tm_involve covers=all bounded : a resource that is reported as involved takes part in the outcome
// @entry h_tm_protocol covers=all bounded : a second commit of a transaction in progress does not disturb it
// @entry h_tm_owner covers=all bounded : the transactions of a process that dies are rolled back, others are not
#include "v_world.h"
#include "transaction/manager/handle.h"
#include "transaction/manager/state.h"
#include "transaction/manager/admin/server.h"
#include "transaction/manager/configuration.h"
#include "transaction/common.h"

namespace common = casual::common;
namespace manager = casual::transaction::manager;
namespace message = casual::common::message::transaction;
using xa = common::code::xa;
using tx = common::code::tx;

namespace casual
{
   namespace transaction
   {
      common::log::Stream& log = verbose::log;
   }
   namespace transaction::manager::admin
   {
      common::server::Arguments services( manager::State&) { return {};}
   }
   namespace common::server::handle::policy::call
   {
      void Admin::configure( server::Arguments&&) {}
   }
}

// the transaction log: what is prepared and removed is durable when it is persisted (assumed contract on the database)
namespace journal
{
   struct Entry
   {
      common::transaction::ID trid;
      bool durable = false;
      std::size_t sent = 0;
   };
   std::vector< Entry>& entries() { static std::vector< Entry> result; return result;}
   bool durable( const common::transaction::ID& trid)
   {
      for( auto& entry : entries())
         if( entry.trid == trid)
            return entry.durable;
      return false;
   }
}

namespace casual::transaction::manager
{
   Log::~Log() {}
   void Log::prepare( const state::Transaction& transaction)
   {
      for( auto& branch : transaction.branches)
         journal::entries().push_back( { branch.trid, false, world::sent().size()});
   }
   void Log::remove( common::transaction::id::range::type::global global)
   {
      std::erase_if( journal::entries(), [ &]( const journal::Entry& entry){ return entry.trid == global;});
   }
   void Log::persist()
   {
      for( auto& entry : journal::entries())
         entry.durable = true;
   }
}

namespace
{
   enum struct Phase { prepare, commit, rollback};

   constexpr xa all_xa[] = {
      xa::rollback_unspecified, xa::rollback_communication, xa::rollback_deadlock, xa::rollback_other, xa::rollback_protocoll, xa::rollback_timeout,
      xa::rollback_transient, xa::rollback_integrity, xa::no_migrate, xa::heuristic_hazard, xa::heuristic_commit, xa::heuristic_rollback,
      xa::heuristic_mix, xa::retry, xa::read_only, xa::ok, xa::outstanding_async, xa::invalid_xid, xa::argument, xa::protocol, xa::resource_fail,
      xa::resource_error, xa::duplicate_xid, xa::outside};

   xa any_xa( const char* name)
   {
      auto value = v_any< int>( name);
      bool known = false;
      for( auto candidate : all_xa)
         known = known | ( value == static_cast< int>( candidate));
      v_assume( known);
      return static_cast< xa>( value);
   }

   xa some_xa( const char* name)
   {
      static constexpr xa values[] = { xa::ok, xa::read_only, xa::invalid_xid, xa::rollback_other, xa::resource_fail, xa::heuristic_mix};
      return v_one_of( values, name);
   }

   //! a resource with nothing to do is not a failure
   bool fine( xa code) { return ( code == xa::ok) | ( code == xa::read_only) | ( code == xa::invalid_xid);}
   bool agrees( xa code) { return ( code == xa::ok) | ( code == xa::read_only);}

   //! a request to a resource
   struct Work
   {
      Phase phase;
      int resource;
      common::transaction::ID trid;
      common::strong::correlation::id correlation;
      common::flag::xa::Flag flags{};
      bool replied = false;
      std::size_t sent = 0;
      common::strong::resource::id id;
   };

   constexpr int instance_base = 10;

   struct TM
   {
      TM( int count) : handler{ manager::handle::handlers( state)}
      {
         for( int i = 0; i < count; ++i)
         {
            casual::configuration::model::transaction::Resource configuration;
            configuration.name = std::string( 1, static_cast< char>( 'a' + i));
            configuration.key = "key";
            configuration.instances = 1;
            auto& resource = state.resources.emplace_back( std::move( configuration));
            auto& instance = resource.instances.emplace_back( resource.id, world::process( instance_base + i).pid);
            instance.process = world::process( instance_base + i);
            instance.state( manager::state::resource::proxy::instance::State::idle);
         }
         state.runlevel = decltype( state.runlevel())::running;
      }

      template< typename M>
      void dispatch( const M& message)
      {
         {
            auto complete = world::complete( message);
            handler( complete);
         }
         // what the manager has sent to it self
         while( auto complete = manager::ipc::device().cached())
            handler( complete);
         collect();
      }

      //! the process of the instance exits, and a new one is ready
      void replace( int index)
      {
         world::lost().clear();
         common::message::event::process::Exit event{};
         event.state.pid = world::process( instance_base + index).pid;
         dispatch( event);
         auto& resource = state.resources.at( index);
         v_assert( resource.instances.empty(), "an instance that exits is gone");
         resource.instances.emplace_back( resource.id, world::process( instance_base + index).pid);
         message::resource::Ready ready{ world::process( instance_base + index)};
         ready.id = resource.id;
         dispatch( ready);
      }

      //! the event loop persists, and sends what is pending, before it waits for the next message
      void idle()
      {
         manager::handle::persist::send( state);
         collect();
      }

      auto id( int index) { return state.resources.at( index).id;}

      //! a resource of another domain takes part, it has the next index
      void external( int index, const common::transaction::ID& trid)
      {
         message::resource::external::Involved message;
         message.process = world::process( instance_base + index);
         message.trid = trid;
         dispatch( message);
         if( externals.size() == index - state.resources.size())
            externals.push_back( state.externals.back().id);
      }

      int index( common::strong::resource::id id)
      {
         for( std::size_t i = 0; i < externals.size(); ++i)
            if( externals[ i] == id)
               return static_cast< int>( state.resources.size() + i);
         for( int i = 0; i < static_cast< int>( state.resources.size()); ++i)
            if( state.resources[ i].id == id)
               return i;
         return -1;
      }

      template< typename M>
      void add( Phase phase, const world::Sent& sent)
      {
         auto request = world::as< M>( sent.complete);
         auto resource = index( request.resource);
         v_assert( resource >= 0 && sent.destination == world::process( instance_base + resource).ipc, "a request is sent to an instance of its resource");
         work.push_back( { phase, resource, request.trid, request.correlation, request.flags, false, seen, request.resource});
      }

      void collect()
      {
         for( ; seen < world::sent().size(); ++seen)
         {
            auto& sent = world::sent()[ seen];
            if( sent.complete.type() == message::resource::prepare::Request::type()) add< message::resource::prepare::Request>( Phase::prepare, sent);
            else if( sent.complete.type() == message::resource::commit::Request::type()) add< message::resource::commit::Request>( Phase::commit, sent);
            else if( sent.complete.type() == message::resource::rollback::Request::type()) add< message::resource::rollback::Request>( Phase::rollback, sent);
         }
      }

      template< typename Reply>
      void reply( const Work& work, xa code)
      {
         Reply reply;
         reply.process = world::process( instance_base + work.resource);
         reply.correlation = work.correlation;
         reply.trid = work.trid;
         reply.resource = work.id;
         reply.state = code;
         dispatch( reply);
      }

      void reply( std::size_t index, xa code)
      {
         work[ index].replied = true;
         auto copy = work[ index];
         switch( copy.phase)
         {
            case Phase::prepare: reply< message::resource::prepare::Reply>( copy, code); break;
            case Phase::commit: reply< message::resource::commit::Reply>( copy, code); break;
            case Phase::rollback: reply< message::resource::rollback::Reply>( copy, code); break;
         }
      }

      int count( Phase phase) const
      {
         int result = 0;
         for( auto& work : work)
            result += work.phase == phase;
         return result;
      }

      //! number of requests in the phase to the resource
      int count( Phase phase, int resource) const
      {
         int result = 0;
         for( auto& work : work)
            result += work.phase == phase && work.resource == resource;
         return result;
      }

      //! all outstanding requests are replied, in order or in any order
      template< typename C>
      void run( C code, bool any = false)
      {
         while( true)
         {
            std::vector< std::size_t> outstanding;
            for( std::size_t i = 0; i < work.size(); ++i)
               if( ! work[ i].replied)
                  outstanding.push_back( i);
            if( outstanding.empty())
               return;
            auto index = outstanding.size() == 1 || ! any ? outstanding[ 0] : outstanding[ v_pick< std::size_t>( 0, outstanding.size() - 1, "next")];
            reply( index, code( work[ index]));
         }
      }

      std::vector< common::strong::resource::id> externals;
      std::vector< Work> work;
      std::size_t seen = 0;
      manager::State state;
      manager::handle::dispatch_type handler;
   };

   const common::process::Handle user = world::process( 1);

   template< typename Request>
   auto request( TM& tm, const common::transaction::ID& trid, int count, unsigned char correlation = 1)
   {
      Request result{ user};
      result.trid = trid;
      result.correlation = world::correlation( correlation);
      for( int i = 0; i < count; ++i)
         result.involved.push_back( tm.id( i));
      return result;
   }

   auto trid() { return common::transaction::id::create( user);}


   using Stage = message::commit::reply::Stage;

   //! what the user has been told
   struct Told
   {
      Told( const common::transaction::ID& trid, unsigned char correlation = 1)
      {
         for( std::size_t i = 0; i < world::sent().size(); ++i)
         {
            auto& sent = world::sent()[ i];
            if( sent.complete.type() != message::commit::Reply::type() || ! ( sent.complete.correlation() == world::correlation( correlation)))
               continue;
            v_assert( sent.destination == user.ipc, "the outcome is sent to the one that asked for it");
            auto reply = world::as< message::commit::Reply>( sent.complete);
            v_assert( reply.trid == trid, "the outcome is for the right transaction");
            if( reply.stage == Stage::prepare)
            {
               ++prepared;
               prepared_state = reply.state;
            }
            else
            {
               ++done;
               stage = reply.stage;
               state = reply.state;
               at = i;
            }
         }
      }
      int prepared = 0;
      tx prepared_state{};
      int done = 0;
      Stage stage{};
      tx state{};
      std::size_t at = 0;
   };

   template< typename Reply>
   std::vector< Reply> told( unsigned char correlation = 1)
   {
      std::vector< Reply> result;
      for( auto& sent : world::sent())
         if( sent.complete.type() == Reply::type() && sent.complete.correlation() == world::correlation( correlation) && sent.destination == user.ipc)
            result.push_back( world::as< Reply>( sent.complete));
      return result;
   }

   bool known( TM& tm, const common::transaction::ID& trid)
   {
      for( auto& transaction : tm.state.transactions)
         if( transaction == trid)
            return true;
      return false;
   }

   //! the first phase with any votes
   template< typename C>
   void votes( int count, C vote)
   {
      TM tm{ count};
      auto id = trid();
      tm.dispatch( request< message::commit::Request>( tm, id, count));
      v_assert( tm.count( Phase::prepare) == count, "every involved resource is asked to prepare");
      for( int i = 0; i < count; ++i)
         v_assert( tm.count( Phase::prepare, i) == 1, "every involved resource is asked once");
      v_assert( tm.work.size() == static_cast< std::size_t>( count), "nothing is decided before the votes");

      std::vector< xa> votes( count);
      for( int i = 0; i < count; ++i)
         votes[ i] = vote( i);

      for( int left = count; left > 0; --left)
      {
         v_assert( tm.count( Phase::commit) == 0 && tm.count( Phase::rollback) == 0, "nothing is decided before all have voted");
         v_assert( Told( id).done + Told( id).prepared == 0, "nothing is reported before all have voted");
         std::vector< int> outstanding;
         for( int i = 0; i < count; ++i)
            if( ! tm.work[ i].replied)
               outstanding.push_back( i);
         auto next = outstanding[ left == 1 ? 0 : v_pick< int>( 0, left - 1, "next")];
         tm.reply( next, votes[ tm.work[ next].resource]);
      }

      bool agreed = true;
      bool read_only = true;
      for( auto vote : votes)
      {
         agreed = agreed & agrees( vote);
         read_only = read_only & ( vote == xa::read_only);
      }

      if( read_only)
      {
         v_cover( "read_only");
         v_assert( tm.work.size() == static_cast< std::size_t>( count), "resources with nothing to commit are left alone");
      }
      else if( agreed)
      {
         v_cover( "committed");
         v_assert( tm.count( Phase::rollback) == 0, "nothing is rolled back when all agreed");
         for( int i = 0; i < count; ++i)
            v_assert( tm.count( Phase::commit, i) == ( votes[ i] == xa::ok), "exactly the resources with something to commit are asked to commit");
         v_assert( Told( id).prepared == 0, "it is not reported as prepared before that is durable");
         tm.idle();
         v_assert( journal::durable( id), "the decision is durable");
         v_assert( Told( id).prepared == 1 && Told( id).prepared_state == tx::ok, "it is reported as prepared");
      }
      else
      {
         v_cover( "rolled_back");
         v_assert( tm.count( Phase::commit) == 0, "nothing is committed when one did not agree");
         for( int i = 0; i < count; ++i)
            v_assert( tm.count( Phase::rollback, i) == ( votes[ i] != xa::read_only), "every resource with something to roll back is rolled back");
      }

      if( ! read_only)
         v_assert( Told( id).done == 0, "the outcome is not reported before it is known");

      tm.run( []( auto&){ return xa::ok;});
      tm.idle();

      Told told( id);
      v_assert( told.done == 1, "the outcome is reported once");
      v_assert( ( told.stage == Stage::commit) == agreed, "commit is reported exactly when all agreed");
      v_assert( ! agreed || told.state == tx::ok, "success is reported when all committed");
      v_assert( ! known( tm, id), "the transaction is over");
      v_assert( journal::entries().empty(), "the decision is forgotten when it is carried out");
   }
}

extern "C" void h_tm_votes()
{
   v_bound( "two resources with one instance each");
   xa values[] = { any_xa( "first"), any_xa( "second")};
   votes( 2, [ &]( int index){ return values[ index];});
}

extern "C" void h_tm_three()
{
   v_bound( "three resources, four representative votes");
   static constexpr xa values[] = { xa::ok, xa::read_only, xa::rollback_other, xa::invalid_xid};
   votes( 3, []( int index){ return v_one_of( values, "vote");});
}

extern "C" void h_tm_commit_outcome()
{
   v_bound( "two resources with one instance each");
   TM tm{ 2};
   auto id = trid();
   tm.dispatch( request< message::commit::Request>( tm, id, 2));
   tm.reply( 0, xa::ok);
   tm.reply( 1, xa::ok);
   if( v_any< bool>( "idle"))
      tm.idle();
   xa codes[] = { any_xa( "first"), any_xa( "second")};
   auto first = v_pick< std::size_t>( 2, 3, "next");
   tm.reply( first, codes[ 0]);
   v_assert( Told( id).done == 0, "the outcome is not reported before all have replied");
   tm.reply( 5 - first, codes[ 1]);
   Told told( id);
   v_assert( tm.work.size() == 4, "a decided commit is never changed");
   v_assert( told.done == 1 && told.stage == Stage::commit, "the outcome is reported once");
   v_assert( ( told.state == tx::ok) == ( fine( codes[ 0]) & fine( codes[ 1])), "success is reported exactly when every resource committed");
   if( told.state == tx::ok) v_cover( "ok"); else v_cover( "not_ok");
   v_assert( ! known( tm, id), "the transaction is over");
}

extern "C" void h_tm_one_phase()
{
   v_bound( "one resource with one instance");
   TM tm{ 1};
   auto id = trid();
   tm.dispatch( request< message::commit::Request>( tm, id, 1));
   v_assert( tm.work.size() == 1 && tm.work[ 0].phase == Phase::commit, "a single resource is committed at once");
   v_assert( tm.work[ 0].flags == common::flag::xa::Flag::one_phase, "a single resource is told that it decides");
   v_assert( Told( id).done == 0, "the outcome is not reported before it is known");
   auto code = any_xa( "code");
   tm.reply( 0, code);
   tm.idle();
   Told told( id);
   v_assert( told.done == 1 && told.prepared == 0 && told.stage == Stage::commit, "the outcome is reported once");
   v_assert( ( told.state == tx::ok) == fine( code), "success is reported exactly when the resource committed");
   if( told.state == tx::ok) v_cover( "ok"); else v_cover( "not_ok");
   v_assert( ! known( tm, id), "the transaction is over");
}

extern "C" void h_tm_none()
{
   TM tm{ 1};
   auto id = trid();
   tm.dispatch( request< message::commit::Request>( tm, id, 0));
   Told told( id);
   v_cover( "all");
   v_assert( tm.work.empty(), "no resource is involved");
   v_assert( told.done == 1 && told.stage == Stage::commit && told.state == tx::ok, "the outcome is reported");
   v_assert( ! known( tm, id), "the transaction is over");
}

extern "C" void h_tm_rollback()
{
   v_bound( "two resources with one instance each");
   TM tm{ 2};
   auto id = trid();
   auto count = v_pick< int>( 0, 2, "involved");
   tm.dispatch( request< message::rollback::Request>( tm, id, count));
   v_assert( tm.count( Phase::rollback) == count && tm.work.size() == static_cast< std::size_t>( count), "every involved resource is rolled back, and nothing else");
   for( int i = 0; i < count; ++i)
      v_assert( tm.count( Phase::rollback, i) == 1, "every involved resource is asked once");
   xa codes[] = { count > 0 ? any_xa( "first") : xa::ok, count > 1 ? any_xa( "second") : xa::ok};
   if( count > 0)
      v_assert( told< message::rollback::Reply>().empty(), "the outcome is not reported before it is known");
   tm.run( [ &]( auto& work){ return codes[ work.resource];}, true);
   auto replies = told< message::rollback::Reply>();
   v_assert( replies.size() == 1, "the outcome is reported once");
   v_assert( replies[ 0].trid == id, "the outcome is for the right transaction");
   v_assert( ( replies[ 0].state == tx::ok) == ( fine( codes[ 0]) & fine( codes[ 1])), "success is reported exactly when every resource is rolled back");
   if( replies[ 0].state == tx::ok) v_cover( "ok"); else v_cover( "not_ok");
   v_assert( tm.count( Phase::commit) == 0, "nothing is committed");
   v_assert( ! known( tm, id), "the transaction is over");
}

extern "C" void h_tm_lost()
{
   v_bound( "two resources with one instance each");
   TM tm{ 2};
   auto id = trid();
   // the first is lost before prepare, or before commit
   bool before = v_any< bool>( "before");
   if( before)
      world::lost().push_back( world::process( instance_base).ipc);
   tm.dispatch( request< message::commit::Request>( tm, id, 2));
   if( before)
   {
      v_assert( tm.count( Phase::prepare) == 1 && tm.work[ 0].resource == 1, "the other resource is asked to prepare");
      v_assert( Told( id).done == 0, "nothing is reported before all have voted");
      tm.reply( 0, v_any< bool>( "ok") ? xa::ok : xa::read_only);
      v_assert( tm.count( Phase::commit) == 0, "nothing is committed when one can not be reached");
      tm.run( []( auto&){ return xa::ok;});
      v_assert( Told( id).done == 0, "nothing is reported before all are rolled back");
      // the process of the lost one exits, and is replaced
      tm.replace( 0);
      v_assert( tm.count( Phase::rollback, 0) == 1, "the one that replaces it is asked to roll back");
      tm.run( []( auto&){ return xa::ok;});
      v_assert( tm.count( Phase::commit) == 0, "nothing is committed");
      tm.idle();
      Told told( id);
      v_assert( told.done == 1 && told.stage == Stage::rollback, "rollback is reported");
   }
   else
   {
      tm.reply( 0, xa::ok);
      world::lost().push_back( world::process( instance_base).ipc);
      tm.reply( 1, xa::ok);
      v_assert( tm.count( Phase::commit) == 1 && tm.count( Phase::rollback) == 0, "the decision stands");
      tm.run( []( auto&){ return xa::ok;});
      tm.idle();
      Told told( id);
      v_assert( told.done == 1 && told.stage == Stage::commit && told.state != tx::ok, "success is not reported when one did not commit");
   }
   v_cover( "all");
}

extern "C" void h_tm_instance_dies()
{
   v_bound( "two resources with one instance each");
   TM tm{ 2};
   auto id = trid();
   tm.dispatch( request< message::commit::Request>( tm, id, 2));
   auto first = v_pick< int>( 0, 1, "prepare or commit") == 0;
   if( ! first)
   {
      tm.reply( 0, xa::ok);
      tm.reply( 1, xa::ok);
      v_assert( tm.count( Phase::commit) == 2, "the decision is carried out");
      tm.work[ 2].replied = true;
   }
   else
      tm.work[ 0].replied = true;
   // the instance of the first dies instead of a reply, and is replaced
   tm.replace( 0);
   tm.run( []( auto&){ return xa::ok;});
   tm.idle();
   tm.run( []( auto&){ return xa::ok;});
   Told told( id);
   v_cover( "all");
   if( first)
      v_assert( told.done == 1 && told.state != tx::ok, "there is an outcome when an instance dies during prepare");
   else
      v_assert( told.done == 1, "there is an outcome when an instance dies during commit");
}

extern "C" void h_tm_external_dies()
{
   v_bound( "one or two resources of other domains, six representative outcomes");
   TM tm{ 0};
   auto id = trid();
   auto count = v_pick< int>( 1, 2, "count");
   for( int i = 0; i < count; ++i)
      tm.external( i, id);

   auto dies = [ &]()
   {
      if( v_pick< int>( 0, 1, "how") == 0)
      {
         common::message::event::process::Exit event{};
         event.state.pid = world::process( instance_base).pid;
         tm.dispatch( event);
      }
      else
      {
         common::message::event::ipc::Destroyed event{};
         event.process = world::process( instance_base);
         tm.dispatch( event);
      }
      for( auto& work : tm.work)
         if( work.resource == 0)
            work.replied = true;
   };

   auto when = v_pick< int>( 0, count == 1 ? 1 : 3, "when");
   if( when == 0)
   {
      dies();
      v_cover( "before");
   }

   if( when < 3)
      tm.dispatch( request< message::commit::Request>( tm, id, 0));
   else
      tm.dispatch( request< message::rollback::Request>( tm, id, 0));

   if( when == 1)
   {
      v_assert( tm.count( count == 1 ? Phase::commit : Phase::prepare) == count, "every involved resource takes part");
      if( count == 2 && v_pick< int>( 0, 1, "last") == 1)
         tm.reply( 1, v_pick< int>( 0, 1, "vote") == 1 ? xa::ok : xa::read_only);
      v_assert( Told( id).done == 0, "nothing is reported before all have voted");
      dies();
      v_cover( "prepare");
   }
   if( when == 2)
   {
      tm.reply( 0, xa::ok);
      tm.reply( 1, xa::ok);
      v_assert( tm.count( Phase::commit) == 2, "the decision is carried out");
      auto outcome = some_xa( "outcome");
      auto last = v_pick< int>( 0, 1, "last") == 1;
      if( last)
         tm.reply( 3, outcome);
      v_assert( Told( id).done == 0, "nothing is reported before all have replied");
      dies();
      if( ! last)
         tm.reply( 3, outcome);
      v_cover( "commit");
   }
   if( when == 3)
   {
      v_assert( tm.count( Phase::rollback) == 2, "every involved resource is rolled back");
      auto outcome = some_xa( "outcome");
      auto last = v_pick< int>( 0, 1, "last") == 1;
      if( last)
         tm.reply( 1, outcome);
      v_assert( told< message::rollback::Reply>().empty(), "nothing is reported before all have replied");
      dies();
      if( ! last)
         tm.reply( 1, outcome);
      tm.idle();
      auto replies = told< message::rollback::Reply>();
      v_assert( replies.size() == 1 && replies[ 0].state != tx::ok, "success is not reported when it is not known that every resource is rolled back");
      v_cover( "rollback");
      return;
   }

   tm.run( []( auto& work){ return xa::ok;});
   tm.idle();
   Told told( id);
   v_assert( told.done == 1 && ( told.state != tx::ok || told.stage == Stage::rollback), "success is not reported when it is not known that every resource committed");
   if( when == 2)
      v_assert( tm.count( Phase::rollback) == 0 && told.stage == Stage::commit, "the decision stands");
   else if( count == 2)
      v_assert( tm.count( Phase::commit) == 0 && told.stage == Stage::rollback, "nothing is committed when one is gone before it has voted");
}

extern "C" void h_tm_isolated()
{
   v_bound( "two transactions, two resources with one instance each");
   TM tm{ 2};
   common::transaction::ID ids[] = { trid(), trid()};
   tm.dispatch( request< message::commit::Request>( tm, ids[ 0], 2, 1));
   tm.dispatch( request< message::commit::Request>( tm, ids[ 1], 2, 2));
   // a resource with one instance works with one at a time
   v_assert( tm.work.size() == 2 && tm.work[ 0].trid == ids[ 0] && tm.work[ 1].trid == ids[ 0], "an instance has one request at a time");
   bool refuse[ 2] = { v_any< bool>( "refuse"), v_any< bool>( "refuse")};
   tm.run( [ &]( const Work& work)
   {
      int which = work.trid == ids[ 1];
      return work.phase == Phase::prepare && work.resource == 1 && refuse[ which] ? xa::rollback_other : xa::ok;
   }, true);
   tm.idle();
   v_cover( "all");
   for( int i = 0; i < 2; ++i)
   {
      Told told( ids[ i], i + 1);
      v_assert( told.done == 1, "the outcome is reported once");
      v_assert( told.stage == ( refuse[ i] ? Stage::rollback : Stage::commit), "the outcome depends on the votes for the transaction only");
      for( auto& work : tm.work)
         if( work.trid == ids[ i] && work.phase != Phase::prepare)
            v_assert( ( work.phase == Phase::rollback) == refuse[ i], "the decision depends on the votes for the transaction only");
      v_assert( ! known( tm, ids[ i]), "the transaction is over");
   }
   int first = 0;
   for( auto& work : tm.work)
      first += work.trid == ids[ 0];
   v_assert( first == 4 && tm.work.size() == 8, "every request is sent once");
   for( auto& resource : tm.state.resources)
      v_assert( resource.instances[ 0].state() == manager::state::resource::proxy::instance::State::idle, "the instances are free again");
}

extern "C" void h_tm_branches()
{
   v_bound( "two branches of one transaction, one resource with two instances");
   TM tm{ 1};
   auto& instance = tm.state.resources[ 0].instances.emplace_back( tm.id( 0), world::process( instance_base).pid);
   instance.process = world::process( instance_base);
   instance.state( manager::state::resource::proxy::instance::State::idle);

   auto id = trid();
   auto branch = common::transaction::id::branch( id);
   {
      message::resource::involved::Request message{ user};
      message.trid = branch;
      message.involved = { tm.id( 0)};
      message.reply = false;
      tm.dispatch( message);
   }
   tm.dispatch( request< message::commit::Request>( tm, id, 1));
   // requests can be pending on the instance
   bool refuse = v_any< bool>( "refuse");
   tm.run( [ &]( const Work& work){ return work.phase == Phase::prepare && refuse && work.trid == branch ? xa::rollback_other : xa::ok;}, true);
   tm.idle();
   v_cover( "all");
   v_assert( tm.count( Phase::prepare) == 2, "every branch is prepared");
   v_assert( tm.count( refuse ? Phase::rollback : Phase::commit) == 2 && tm.work.size() == 4, "every branch has the same outcome");
   int first = 0;
   for( auto& work : tm.work)
      first += work.trid == id;
   v_assert( first == 2, "every branch is handled once in each phase");
   Told told( id);
   v_assert( told.done == 1 && told.stage == ( refuse ? Stage::rollback : Stage::commit), "the outcome is reported");
   v_assert( ! known( tm, id), "the transaction is over");
}

namespace
{
   template< typename Request>
   auto external( const common::transaction::ID& trid, unsigned char correlation, common::flag::xa::Flag flags = {})
   {
      Request result{ user};
      result.trid = trid;
      result.correlation = world::correlation( correlation);
      result.resource = common::strong::resource::id{ -7};
      result.flags = flags;
      return result;
   }

   void involve( TM& tm, const common::transaction::ID& trid, int count)
   {
      message::resource::involved::Request message{ user};
      message.trid = trid;
      for( int i = 0; i < count; ++i)
         message.involved.push_back( tm.id( i));
      message.reply = false;
      tm.dispatch( message);
   }
}

extern "C" void h_tm_external_prepare()
{
   v_bound( "one or two resources with one instance each, six representative votes");
   TM tm{ 2};
   auto id = trid();
   auto count = v_pick< int>( 1, 2, "count");
   involve( tm, id, count);
   tm.dispatch( external< message::resource::prepare::Request>( id, 1));
   v_assert( tm.count( Phase::prepare) == count && tm.work.size() == static_cast< std::size_t>( count), "every involved resource is asked to prepare");
   xa votes[] = { some_xa( "vote"), count > 1 ? some_xa( "vote") : xa::read_only};
   tm.run( [ &]( const Work& work){ return votes[ work.resource];});
   v_assert( tm.work.size() == static_cast< std::size_t>( count), "the decision is not made here");
   bool read_only = votes[ 0] == xa::read_only && votes[ 1] == xa::read_only;
   bool agreed = agrees( votes[ 0]) && agrees( votes[ 1]);
   if( agreed && ! read_only)
      v_assert( told< message::resource::prepare::Reply>().empty(), "ready is not reported before it is durable");
   tm.idle();
   auto replies = told< message::resource::prepare::Reply>();
   v_assert( replies.size() == 1, "the vote is reported once");
   v_assert( replies[ 0].trid == id && replies[ 0].resource == common::strong::resource::id{ -7}, "the vote is for the right transaction and resource");
   v_assert( ( replies[ 0].state == xa::ok) == ( agreed && ! read_only), "ready is reported exactly when all are ready");
   if( read_only)
   {
      v_cover( "read_only");
      v_assert( replies[ 0].state == xa::read_only, "nothing to do is reported");
      v_assert( ! known( tm, id), "the transaction is over");
      return;
   }
   if( agreed)
   {
      v_cover( "ready");
      v_assert( journal::durable( id), "ready is durable");
   }
   else
      v_cover( "refused");

   // the other domain decides
   bool commit = agreed && v_any< bool>( "commit");
   if( commit)
      tm.dispatch( external< message::resource::commit::Request>( id, 2));
   else
      tm.dispatch( external< message::resource::rollback::Request>( id, 2));
   for( int i = 0; i < count; ++i)
   {
      v_assert( tm.count( Phase::commit, i) == ( commit && votes[ i] != xa::read_only), "the decision to commit is carried out");
      v_assert( tm.count( Phase::rollback, i) == ( ! commit && votes[ i] != xa::read_only), "the decision to roll back is carried out");
   }
   tm.run( []( auto&){ return xa::ok;});
   tm.idle();
   if( commit)
   {
      auto replies = told< message::resource::commit::Reply>( 2);
      v_assert( replies.size() == 1 && agrees( replies[ 0].state), "the outcome is reported");
   }
   else
      v_assert( told< message::resource::rollback::Reply>( 2).size() == 1, "the outcome is reported");
   v_assert( ! known( tm, id), "the transaction is over");
   v_assert( journal::entries().empty(), "the decision is forgotten when it is carried out");
}

extern "C" void h_tm_external_one_phase()
{
   v_bound( "one or two resources with one instance each, six representative votes");
   TM tm{ 2};
   auto id = trid();
   auto count = v_pick< int>( 1, 2, "count");
   involve( tm, id, count);
   tm.dispatch( external< message::resource::commit::Request>( id, 1, common::flag::xa::Flag::one_phase));
   v_assert( tm.count( Phase::prepare) == count && tm.work.size() == static_cast< std::size_t>( count), "every involved resource is asked to prepare");
   xa votes[] = { some_xa( "vote"), count > 1 ? some_xa( "vote") : xa::read_only};
   bool agreed = agrees( votes[ 0]) && agrees( votes[ 1]);
   auto outcome = some_xa( "outcome");
   bool all = true;
   tm.run( [ &]( const Work& work)
   {
      if( work.phase == Phase::prepare)
         return votes[ work.resource];
      if( work.phase == Phase::commit && ! fine( outcome))
         all = false;
      return work.phase == Phase::commit ? outcome : xa::ok;
   });
   tm.idle();
   for( int i = 0; i < count; ++i)
   {
      v_assert( tm.count( Phase::commit, i) == ( agreed && votes[ i] != xa::read_only), "commit only when all agreed");
      v_assert( tm.count( Phase::rollback, i) == ( ! agreed && votes[ i] != xa::read_only), "rollback when one did not agree");
   }
   auto replies = told< message::resource::commit::Reply>();
   v_assert( replies.size() == 1, "the outcome is reported once");
   v_assert( replies[ 0].trid == id && replies[ 0].resource == common::strong::resource::id{ -7}, "the outcome is for the right transaction and resource");
   v_assert( agrees( replies[ 0].state) == ( agreed && all), "success is reported exactly when the work is committed");
   if( agrees( replies[ 0].state)) v_cover( "ok"); else v_cover( "not_ok");
   v_assert( ! known( tm, id), "the transaction is over");
}

extern "C" void h_tm_external_rollback()
{
   v_bound( "one or two resources with one instance each");
   TM tm{ 2};
   auto id = trid();
   auto count = v_pick< int>( 1, 2, "count");
   involve( tm, id, count);
   tm.dispatch( external< message::resource::rollback::Request>( id, 1));
   v_assert( tm.count( Phase::rollback) == count && tm.work.size() == static_cast< std::size_t>( count), "every involved resource is rolled back");
   xa codes[] = { any_xa( "code"), count > 1 ? some_xa( "code") : xa::ok};
   tm.run( [ &]( const Work& work){ return codes[ work.resource];});
   tm.idle();
   auto replies = told< message::resource::rollback::Reply>();
   v_assert( replies.size() == 1, "the outcome is reported once");
   v_assert( agrees( replies[ 0].state) == ( fine( codes[ 0]) & fine( codes[ 1])), "success is reported exactly when every resource is rolled back");
   v_cover( "all");
   v_assert( ! known( tm, id), "the transaction is over");
   // a transaction that is not known has nothing to do
   tm.dispatch( external< message::resource::rollback::Request>( id, 3));
   v_assert( told< message::resource::rollback::Reply>( 3).size() == 1 && told< message::resource::rollback::Reply>( 3)[ 0].state == xa::read_only, "there is nothing to do");
   tm.dispatch( external< message::resource::prepare::Request>( id, 4));
   v_assert( told< message::resource::prepare::Reply>( 4).size() == 1 && told< message::resource::prepare::Reply>( 4)[ 0].state == xa::read_only, "there is nothing to do");
}

extern "C" void h_tm_involve()
{
   v_bound( "three resources with one instance each");
   TM tm{ 3};
   auto id = trid();
   {
      message::resource::involved::Request message{ user};
      message.trid = id;
      message.correlation = world::correlation( 9);
      message.involved = { tm.id( 1), tm.id( 0)};
      message.reply = true;
      tm.dispatch( message);
      auto replies = told< message::resource::involved::Reply>( 9);
      v_assert( replies.size() == 1 && replies[ 0].involved.empty(), "the reply has the resources that are involved since before");
      // the same again, and one that is not configured
      message.correlation = world::correlation( 10);
      message.involved = { tm.id( 1), common::strong::resource::id{ 4711}};
      tm.dispatch( message);
      replies = told< message::resource::involved::Reply>( 10);
      v_assert( replies.size() == 1 && replies[ 0].involved.size() == 2, "the reply has the resources that are involved since before");
   }
   auto commit = request< message::commit::Request>( tm, id, 0);
   commit.involved = { tm.id( 2), tm.id( 0)};
   tm.dispatch( commit);
   v_cover( "all");
   v_assert( tm.work.size() == 3, "every involved resource is asked once");
   for( int i = 0; i < 3; ++i)
      v_assert( tm.count( Phase::prepare, i) == 1, "every involved resource is asked once");
}

extern "C" void h_tm_protocol()
{
   v_bound( "two resources with one instance each");
   TM tm{ 2};
   auto id = trid();
   tm.dispatch( request< message::commit::Request>( tm, id, 2));
   auto when = v_pick< int>( 0, 3, "when");
   if( when > 0) tm.reply( 0, xa::ok);
   if( when > 1) tm.reply( 1, xa::ok);
   if( when > 2) tm.reply( 2, xa::ok);
   auto before = tm.work.size();
   tm.dispatch( request< message::commit::Request>( tm, id, 2, 2));
   v_assert( tm.work.size() == before, "the transaction in progress is not disturbed");
   Told second( id, 2);
   v_assert( second.done == 1 && second.state == tx::protocol, "the second commit is refused");
   tm.run( []( auto&){ return xa::ok;});
   tm.idle();
   Told told( id);
   v_cover( "all");
   v_assert( tm.work.size() == 4, "every request is sent once");
   v_assert( told.done == 1 && told.stage == Stage::commit && told.state == tx::ok, "the outcome is reported");
}

extern "C" void h_tm_owner()
{
   v_bound( "two transactions of two processes, one resource with one instance");
   TM tm{ 1};
   auto id = trid();
   auto other = common::transaction::id::create( world::process( 2));
   involve( tm, id, 1);
   involve( tm, other, 1);
   common::message::event::process::Exit event;
   event.state.pid = user.pid;
   tm.dispatch( event);
   v_assert( tm.work.size() == 1 && tm.work[ 0].phase == Phase::rollback && tm.work[ 0].trid == id, "the transaction of the process is rolled back, no other is");
   auto code = any_xa( "code");
   tm.reply( 0, code);
   tm.idle();
   v_cover( "all");
   v_assert( known( tm, other), "other transactions are left alone");
   v_assert( known( tm, id) == ! fine( code), "the transaction is over when it is rolled back");
}
