// @property C14
// @tu middleware/common/source/transaction/context.cpp
// @tu middleware/common/source/transaction/transaction.cpp
// @tu middleware/common/source/transaction/resource.cpp
// @tu middleware/common/source/transaction/id.cpp
// @tu middleware/common/source/transaction/global.cpp
// @tu middleware/common/source/communication/ipc/message.cpp
// @tu middleware/common/source/communication/socket.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/strong/id.cpp
// @tu middleware/common/source/assert.cpp
// @tu middleware/common/source/code/tx.cpp
// @tu middleware/common/source/code/xa.cpp
// @tu middleware/common/source/code/convert.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @tu middleware/common/source/buffer/type.cpp
// @assume the transaction manager answers every request once
// @assume environment variables in the configuration of a resource are expanded as documented
// @entry h_tx_history covers=begun,committed,rolled,suspended,resumed,refused bounded time=300 : any history of begin, commit, rollback, suspend and resume: the resources work for the current transaction and for no other
// @entry h_tx_start_fails covers=failed,fine,outer bounded time=200 : when a resource can not start, no transaction is started, and the application is where it was
// @entry h_tx_decide_fails covers=fine,failed bounded time=200 : success is reported only if every resource carried out the decision
// @entry h_tx_service covers=joined,started,branched,none,committed,rolled bounded time=300 : the work of a service is ended when it returns, a transaction is decided by the one that started it, and the caller is told the truth
// @entry h_tx_suspend_fails covers=failed,fine bounded time=200 : a transaction that can not be suspended, or resumed, is as it was
// @entry h_tx_service_fails covers=failed,fine bounded time=200 : when a resource can not start or end, no work goes on after the service and the caller is told
// @entry h_tx_stacked_dynamic covers=all bounded time=200 : a dynamic resource that has not registered is left alone
// @entry h_tx_reply covers=ok,rollback,timeout bounded time=200 : the state of a transaction in a reply is kept, and a transaction that can not be committed is not
// @entry h_tx_replies covers=local,distributed bounded time=200 : a transaction that others have taken part in is decided by the transaction manager, whenever their replies come
// @entry h_tx_service_stack covers=ok,error,left bounded time=200 : every transaction that a service leaves is ended, and the caller is told about its own
// @entry h_tx_pending covers=kept,gone bounded time=200 : a transaction with replies that have not come is not committed
// @entry h_tx_owner covers=all bounded : a transaction is decided only by its owner
// @entry h_tx_dynamic covers=ok,join,resume,unknown,outside bounded time=200 : a resource that registers dynamically takes part in the transaction
// @entry h_tx_settings covers=all bounded : the settings of the application are kept
#include "v_world.h"
#include "common/transaction/context.h"
#include "common/environment/expand.h"
#include "common/instance.h"
#include "common/message/transaction.h"
#include "common/message/service.h"
#include "rm.h"

namespace common = casual::common;
namespace message = casual::common::message::transaction;
namespace transaction = casual::common::transaction;
using tx = common::code::tx;
using xa = common::code::xa;

namespace casual::common
{
   namespace environment
   {
      std::string expand( std::string value) { return value;}
   }
   namespace instance
   {
      std::string alias() { return "a";}
   }
}

// what waits to be received, and the transaction manager
namespace manager
{
   std::vector< world::Complete>& inbox() { static std::vector< world::Complete> result; return result;}

   //! the decision of the transaction manager
   struct Decision
   {
      message::commit::reply::Stage stage = message::commit::reply::Stage::commit;
      //! the outcome of the last stage
      tx state = tx::ok;
      tx rollback = tx::ok;
   };
   Decision& decision() { static Decision result; return result;}

   //! resources that are involved in the transaction since before
   std::vector< common::strong::resource::id>& involved() { static std::vector< common::strong::resource::id> result; return result;}
   std::vector< message::configuration::Resource>& resources() { static std::vector< message::configuration::Resource> result; return result;}

   template< typename R>
   void put( R&& reply, const world::Complete& request)
   {
      reply.correlation = request.correlation();
      inbox().push_back( world::complete( reply));
   }

   void answer( const world::Complete& complete)
   {
      if( complete.type() == message::commit::Request::type())
      {
         auto request = world::as< message::commit::Request>( complete);
         auto reply = common::message::reverse::type( request);
         reply.trid = request.trid;
         reply.stage = decision().stage;
         if( decision().stage == message::commit::reply::Stage::prepare)
         {
            reply.state = tx::ok;
            put( reply, complete);
            reply.stage = message::commit::reply::Stage::commit;
         }
         reply.state = decision().state;
         put( reply, complete);
      }
      else if( complete.type() == message::rollback::Request::type())
      {
         auto request = world::as< message::rollback::Request>( complete);
         auto reply = common::message::reverse::type( request);
         reply.trid = request.trid;
         reply.state = decision().rollback;
         put( reply, complete);
      }
      else if( complete.type() == message::resource::involved::Request::type())
      {
         auto request = world::as< message::resource::involved::Request>( complete);
         if( request.reply)
         {
            auto reply = common::message::reverse::type( request);
            reply.involved = involved();
            put( reply, complete);
         }
      }
      else if( complete.type() == message::configuration::alias::Request::type())
      {
         auto request = world::as< message::configuration::alias::Request>( complete);
         auto reply = common::message::reverse::type( request);
         reply.resources = resources();
         put( reply, complete);
      }
   }
}

namespace casual::common::communication::ipc::policy
{
   namespace blocking
   {
      strong::correlation::id send( const Socket&, const Address&, const message::Complete& complete)
      {
         auto correlation = complete.correlation();
         manager::answer( complete);
         world::sent().push_back( { {}, std::move( const_cast< message::Complete&>( complete))});
         return correlation;
      }

      cache_range_type receive( ipc::Handle&, cache_type& cache)
      {
         v_assert( ! manager::inbox().empty(), "nothing is waited for that does not come");
         if( manager::inbox().empty())
            v_end();
         cache.push_back( std::move( manager::inbox().front()));
         manager::inbox().erase( std::begin( manager::inbox()));
         return cache_range_type{ std::end( cache) - 1, std::end( cache)};
      }
   }
}

namespace
{
   transaction::Context& context() { return transaction::Context::instance();}

   common::strong::resource::id resource( int id) { return common::strong::resource::id{ id};}

   //! `fixed` resources with id 1.., and a dynamic one
   void configure( int fixed, bool dynamic)
   {
      std::vector< transaction::resource::Link> links;
      for( int index = 1; index <= fixed; ++index)
      {
         auto name = std::string( 1, static_cast< char>( 'a' + index));
         manager::resources().push_back( { .id = resource( index), .name = name, .key = "k"});
         links.emplace_back( "k", name, &rm::xa_switch( false));
      }
      if( dynamic)
      {
         manager::resources().push_back( { .id = resource( fixed + 1), .name = "d", .key = "k"});
         links.emplace_back( "k", "d", &rm::xa_switch( true));
      }
      context().configure( std::move( links));
      world::sent().clear();
   }

   //! the transaction the application is in
   XID current()
   {
      TXINFO info;
      auto active = context().info( &info);
      v_assert( active == ! transaction::xid::null( info.xid), "the application is told if it is in a transaction");
      return info.xid;
   }

   //! the resources do their work for the current transaction and for no other
   void invariant( int fixed)
   {
      auto xid = current();
      for( int index = 1; index <= fixed; ++index)
      {
         auto& manager = rm::get( index);
         if( transaction::xid::null( xid))
            v_assert( manager.active() == 0, "no work is done in a transaction that the application has left");
         else
         {
            auto work = manager.find( xid);
            v_assert( work && work->association == rm::Association::active, "work is done in the current transaction");
            v_assert( manager.active() == 1, "work is done in the current transaction only");
         }
      }
   }

   bool contains( const std::vector< XID>& values, const XID& xid)
   {
      for( auto& value : values)
         if( value == xid)
            return true;
      return false;
   }

   //! any outcome of a decision
   tx outcome( const char* name)
   {
      auto value = v_any< int>( name);
      v_assume( ( value == static_cast< int>( tx::ok)) | ( value == static_cast< int>( tx::rollback)) | ( value == static_cast< int>( tx::mixed)) | ( value == static_cast< int>( tx::hazard)));
      return static_cast< tx>( value);
   }

   struct Api
   {
      int fixed = 0;
      transaction::Control control = transaction::Control::unchained;
      std::vector< XID> suspended;

      void begin()
      {
         auto before = current();
         auto code = context().begin();
         auto after = current();

         if( ! transaction::xid::null( before) && control != transaction::Control::stacked)
         {
            v_assert( code == tx::protocol, "a transaction is not started within a transaction");
            v_assert( after == before, "the application stays in its transaction");
            v_cover( "refused");
            return;
         }
         v_assert( code == tx::ok, "a transaction is started");
         v_assert( ! transaction::xid::null( after) && after != before && ! contains( suspended, after), "a new transaction is started");
         v_cover( "begun");
      }

      void decide( bool commit)
      {
         auto before = current();
         auto sent = world::sent().size();

         auto& decision = manager::decision();
         if( commit)
         {
            decision.stage = static_cast< message::commit::reply::Stage>( v_pick< int>( 0, 2, "stage"));
            decision.state = outcome( "state");
            // the stage is the decision, the state how it was carried out
            if( decision.stage == message::commit::reply::Stage::rollback)
               v_assume( decision.state == tx::ok || decision.state == tx::rollback);
            else
               v_assume( decision.state != tx::rollback);
         }

         auto code = commit ? context().commit() : context().rollback();
         auto after = current();

         if( transaction::xid::null( before))
         {
            v_assert( code == tx::protocol, "there has to be a transaction to decide");
            v_assert( transaction::xid::null( after) && world::sent().size() == sent, "nothing is decided");
            v_cover( "refused");
            return;
         }

         auto requests = world::sent().size() - sent;
         if( commit && fixed > 1)
         {
            v_assert( requests == 1, "several resources are committed by the transaction manager");
            auto request = world::as< message::commit::Request>( world::sent().back().complete);
            v_assert( world::sent().back().complete.type() == message::commit::Request::type(), "it is asked to commit");
            v_assert( request.trid.xid == before, "the transaction is the one that is committed");
            v_assert( request.involved.size() == static_cast< std::size_t>( fixed), "all resources are involved");
            for( int index = 1; index <= fixed; ++index)
            {
               v_assert( common::algorithm::contains( request.involved, resource( index)), "every resource is involved");
               auto work = rm::get( index).find( before);
               v_assert( work && work->association == rm::Association::none && work->outcome == rm::Outcome::open, "the work has ended, and is not decided");
            }
            if( decision.stage == message::commit::reply::Stage::rollback)
               v_assert( code == tx::rollback, "a transaction that is rolled back is reported so");
            else
               v_assert( code == decision.state, "the outcome is the one the transaction manager reports");
         }
         else
         {
            v_assert( requests == 0, "a local transaction is decided locally");
            v_assert( code == tx::ok, "a local transaction is decided");
            for( int index = 1; index <= fixed; ++index)
            {
               auto work = rm::get( index).find( before);
               v_assert( work && work->association == rm::Association::none, "the work has ended");
               v_assert( work && work->outcome == ( commit ? rm::Outcome::committed : rm::Outcome::rolled), "every resource carries out the decision");
            }
         }
         v_assert( manager::inbox().empty(), "all that is sent to the application is received");

         if( control == transaction::Control::chained)
            v_assert( ! transaction::xid::null( after) && after != before, "the next transaction is started");
         else if( control == transaction::Control::unchained)
            v_assert( transaction::xid::null( after), "no transaction is started");
         else
            v_assert( after != before, "the transaction is over");

         v_cover( commit ? "committed" : "rolled");
      }

      void suspend()
      {
         auto before = current();
         XID xid;
         auto code = context().suspend( &xid);
         if( transaction::xid::null( before))
         {
            v_assert( code == tx::protocol, "there has to be a transaction to suspend");
            v_cover( "refused");
            return;
         }
         v_assert( code == tx::ok && xid == before, "the current transaction is suspended");
         v_assert( transaction::xid::null( current()), "the application has left the transaction");
         suspended.push_back( xid);
         v_cover( "suspended");
      }

      void resume()
      {
         auto before = current();
         // one of those that are suspended, or one that is not
         auto index = v_pick< std::size_t>( 0, suspended.size(), "resume");
         auto known = index < suspended.size();
         XID xid = known ? suspended[ index] : common::transaction::id::create( common::process::handle()).xid;

         auto code = context().resume( &xid);

         if( ! transaction::xid::null( before))
         {
            v_assert( code == tx::protocol && current() == before, "a transaction is not resumed within a transaction");
            v_cover( "refused");
         }
         else if( ! known)
         {
            v_assert( code == tx::argument && transaction::xid::null( current()), "what is not known is not resumed");
            v_cover( "refused");
         }
         else
         {
            v_assert( code == tx::ok && current() == xid, "the transaction that is asked for is resumed");
            suspended.erase( std::begin( suspended) + static_cast< long>( index));
            v_cover( "resumed");
         }
      }

      void step()
      {
         switch( v_pick< int>( 0, 4, "step"))
         {
            case 0: begin(); break;
            case 1: decide( true); break;
            case 2: decide( false); break;
            case 3: suspend(); break;
            case 4: resume(); break;
         }
         invariant( fixed);
      }
   };
}

extern "C" void h_tx_history()
{
   v_bound( "0 to 2 resources, begin and 3 more operations");
   Api api;
   api.fixed = v_pick< int>( 0, 2, "resources");
   api.control = v_one_of( { transaction::Control::unchained, transaction::Control::chained, transaction::Control::stacked}, "control");
   configure( api.fixed, false);
   v_assert( context().set_transaction_control( api.control) == tx::ok, "control is set");

   api.begin();
   invariant( api.fixed);
   for( int index = 0; index < 3; ++index)
      api.step();
}

namespace
{
   //! one call to a resource goes wrong, in some way
   void failure( int last)
   {
      rm::fails() = rm::calls() + v_pick< int>( 1, last, "call");
      rm::how() = v_one_of( { XA_RBDEADLOCK, XAER_RMERR, XA_HEURRB, XAER_PROTO}, "code");
   }
   bool failed() { return rm::fails() <= rm::calls();}
}

extern "C" void h_tx_start_fails()
{
   v_bound( "0 to 2 resources");
   Api api;
   api.fixed = v_pick< int>( 1, 2, "resources");
   auto outer = v_pick< int>( 0, 1, "outer") == 1;
   api.control = outer ? transaction::Control::stacked : transaction::Control::unchained;
   configure( api.fixed, false);
   v_assert( context().set_transaction_control( api.control) == tx::ok, "control is set");
   if( outer)
      api.begin();
   auto before = current();

   failure( outer ? 2 * api.fixed : api.fixed + 1);
   auto code = context().begin();

   if( failed())
   {
      v_assert( code != tx::ok, "a transaction that could not be started is reported");
      v_assert( current() == before, "the application is where it was");
      // nothing is active in what is not started
      for( int index = 1; index <= api.fixed; ++index)
         for( auto& work : rm::get( index).work)
            v_assert( work.xid == before || work.association == rm::Association::none, "no work is done in a transaction that is not started");
      // work goes on in the one that is
      for( int index = 1; index <= api.fixed; ++index)
         for( auto& work : rm::get( index).work)
            v_assert( work.xid == before || work.outcome == rm::Outcome::rolled || work.failed, "nothing is left of what is not started");
      if( outer)
         for( int index = 1; index <= api.fixed; ++index)
         {
            auto work = rm::get( index).find( before);
            v_assert( work && ( work->association == rm::Association::active || work->failed), "work goes on in the transaction the application is in");
         }
      v_cover( "failed");
   }
   else
   {
      v_assert( code == tx::ok && current() != before, "the transaction is started");
      invariant( api.fixed);
      v_cover( "fine");
   }
   if( outer)
      v_cover( "outer");
}

extern "C" void h_tx_decide_fails()
{
   v_bound( "1 or 2 resources");
   auto fixed = v_pick< int>( 1, 2, "resources");
   configure( fixed, false);
   v_assert( context().begin() == tx::ok, "a transaction is started");
   auto xid = current();
   auto commit = v_pick< int>( 0, 1, "commit") == 1;

   failure( 2 * fixed + 1);
   auto ended = rm::calls() + fixed;
   auto code = commit ? context().commit() : context().rollback();

   v_assert( transaction::xid::null( current()), "the transaction is over");
   if( failed())
   {
      // (a resource that could not end its work, and has rolled back, has done what was asked for)
      if( commit || rm::fails() > ended)
         v_assert( code != tx::ok, "what goes wrong is reported");
      v_cover( "failed");
   }
   else
   {
      v_assert( code == tx::ok, "success is reported");
      v_cover( "fine");
   }

   // a resource that could not end its work has decided itself. The others are asked to carry out the decision
   for( int index = 1; index <= fixed; ++index)
   {
      auto work = rm::get( index).find( xid);
      v_assert( work && work->outcome != ( commit ? rm::Outcome::rolled : rm::Outcome::committed) || ( commit && rm::fails() <= ended), "no resource does the opposite");
      if( code == tx::ok && ( ! commit || fixed == 1))
         v_assert( work && work->outcome != rm::Outcome::open, "every resource carries out the decision");
      v_assert( work && ( work->asked || ! world::sent().empty()), "every resource is told what is decided");
   }
}

namespace
{
   enum class Way { none, join, start, branch};

   common::transaction::ID foreign()
   {
      return common::transaction::id::create( world::process( 1));
   }
}

extern "C" void h_tx_service()
{
   v_bound( "0 to 2 resources, one transaction");
   auto fixed = v_pick< int>( 0, 2, "resources");
   auto way = v_one_of( { Way::none, Way::join, Way::start, Way::branch}, "way");
   configure( fixed, false);

   // a resource could take part in the transaction since before
   auto before = fixed > 0 && way == Way::join && v_pick< int>( 0, 1, "involved") == 1;
   if( before)
      manager::involved().push_back( resource( 1));

   auto trid = foreign();
   if( before)
   {
      // (in another process)
      rm::get( 1).work.push_back( { trid.xid});
   }

   switch( way)
   {
      case Way::none: context().join( common::transaction::ID{ common::process::handle()}); break;
      case Way::join: context().join( trid); break;
      case Way::start: context().start(); break;
      case Way::branch: context().branch( trid); break;
   }

   auto xid = current();
   switch( way)
   {
      case Way::none: v_assert( transaction::xid::null( xid), "there is no transaction"); v_cover( "none"); break;
      case Way::join: v_assert( xid == trid.xid, "the service is in the transaction of the caller"); v_cover( "joined"); break;
      case Way::start: v_assert( ! transaction::xid::null( xid) && xid != trid.xid, "the service is in a transaction of its own"); v_cover( "started"); break;
      case Way::branch:
         v_assert( xid != trid.xid && common::transaction::id::range::global( xid).size() == common::transaction::id::range::global( trid).size()
            && common::algorithm::equal( common::transaction::id::range::global( xid), common::transaction::id::range::global( trid)), "the service is in a branch of the transaction of the caller");
         v_cover( "branched");
         break;
   }
   invariant( fixed);

   if( way == Way::join || way == Way::branch)
   {
      v_assert( world::sent().size() == ( fixed > 0 ? 1u : 0u), "the transaction manager is told once");
      if( fixed > 0)
      {
         v_assert( world::sent().front().complete.type() == message::resource::involved::Request::type(), "the transaction manager is told which resources are involved");
         auto request = world::as< message::resource::involved::Request>( world::sent().front().complete);
         v_assert( request.trid.xid == xid, "the resources are involved in the transaction");
         v_assert( request.involved.size() == static_cast< std::size_t>( fixed), "all resources are involved");
         for( int index = 1; index <= fixed; ++index)
            v_assert( common::algorithm::contains( request.involved, resource( index)), "every resource is involved");
      }
   }
   world::sent().clear();

   auto commit = v_pick< int>( 0, 1, "commit") == 1;
   auto& decision = manager::decision();
   decision.stage = static_cast< message::commit::reply::Stage>( v_pick< int>( 0, 2, "stage"));
   decision.state = outcome( "state");
   v_assume( ( decision.stage == message::commit::reply::Stage::rollback) == ( decision.state == tx::rollback));

   auto result = context().finalize( commit);
   using State = common::message::service::transaction::State;

   v_assert( context().empty() && transaction::xid::null( current()), "no transaction remains when the service returns");
   v_assert( manager::inbox().empty(), "all that is sent to the service is received");
   for( int index = 1; index <= fixed; ++index)
   {
      for( auto& work : rm::get( index).work)
         v_assert( work.association == rm::Association::none, "no work goes on when the service returns");
   }

   if( way != Way::start)
   {
      v_assert( world::sent().empty(), "the transaction of the caller is not decided by the service");
      for( int index = 1; index <= fixed; ++index)
         for( auto& work : rm::get( index).work)
            v_assert( work.outcome == rm::Outcome::open, "the transaction of the caller is not decided by the service");
      if( way == Way::none)
         v_assert( result == State::ok, "there is nothing to report");
      else
         v_assert( result == ( commit ? State::ok : State::rollback), "the caller is told that the transaction can not be committed");
      return;
   }

   if( commit && fixed == 2)
   {
      v_assert( world::count< message::commit::Request>( {}) == 1 && world::sent().size() == 1, "several resources are committed by the transaction manager");
      v_assert( world::as< message::commit::Request>( world::sent().front().complete).trid.xid == xid, "the transaction is committed");
      if( decision.state == tx::ok)
         v_assert( result == State::ok, "success is reported");
      else
         v_assert( result == ( decision.state == tx::rollback ? State::rollback : State::error), "what goes wrong is reported");
   }
   else
   {
      v_assert( world::sent().empty(), "a local transaction is decided locally");
      v_assert( result == State::ok, "success is reported");
      for( int index = 1; index <= fixed; ++index)
      {
         auto work = rm::get( index).find( xid);
         v_assert( work && work->outcome == ( commit ? rm::Outcome::committed : rm::Outcome::rolled), "every resource carries out the decision");
      }
   }
   v_cover( commit ? "committed" : "rolled");
}

extern "C" void h_tx_reply()
{
   v_bound( "1 resource, 2 replies");
   using State = common::message::service::transaction::State;
   configure( 1, false);
   auto own = v_pick< int>( 0, 1, "own") == 1;
   if( own)
      v_assert( context().begin() == tx::ok, "a transaction is started");
   else
      context().join( foreign());
   auto xid = current();
   world::sent().clear();

   // what is reported, from bad to worse
   State states[ 2];
   for( int index = 0; index < 2; ++index)
   {
      context().current().associate( world::correlation( static_cast< unsigned char>( 10 + index)));
      states[ index] = static_cast< State>( v_pick< int>( 0, 3, "state"));
   }
   for( int index = 0; index < 2; ++index)
   {
      common::message::service::call::Reply reply;
      reply.correlation = world::correlation( static_cast< unsigned char>( 10 + index));
      v_assert( context().associated( reply.correlation) || index == 1, "a reply belongs to the transaction");
      reply.transaction_state = states[ index];
      context().update( reply);
      v_assert( ! context().associated( reply.correlation), "a reply comes once");
   }
   // of another call
   {
      common::message::service::call::Reply reply;
      reply.correlation = world::correlation( 20);
      reply.transaction_state = State::error;
      context().update( reply);
   }

   TXINFO info;
   context().info( &info);
   auto good = states[ 0] == State::ok && states[ 1] == State::ok;
   auto rollback = states[ 0] == State::rollback || states[ 0] == State::error || states[ 1] == State::rollback || states[ 1] == State::error;

   v_assert( info.transaction_state == TX_ACTIVE || info.transaction_state == TX_TIMEOUT_ROLLBACK_ONLY || info.transaction_state == TX_ROLLBACK_ONLY, "the application is told a state that is documented");
   v_assert( ( info.transaction_state == TX_ACTIVE) == good, "a transaction that can not be committed is known to be so");
   if( good)
      v_cover( "ok");
   else if( ! rollback)
   {
      v_assert( info.transaction_state == TX_TIMEOUT_ROLLBACK_ONLY, "a timeout is known as a timeout");
      v_cover( "timeout");
   }
   else if( states[ 0] != State::timeout && states[ 1] != State::timeout)
   {
      v_assert( info.transaction_state == TX_ROLLBACK_ONLY, "a rollback is known as a rollback");
      v_cover( "rollback");
   }

   if( own)
   {
      auto code = context().commit();
      auto work = rm::get( 1).find( xid);
      if( good)
         v_assert( code == tx::ok && transaction::xid::null( current()), "the transaction is committed");
      else
      {
         v_assert( code != tx::ok, "a transaction that can not be committed is not");
         v_assert( work && work->outcome != rm::Outcome::committed && world::count< message::commit::Request>( {}) == 0, "a transaction that can not be committed is not");
         if( ! transaction::xid::null( current()))
            v_assert( context().rollback() == tx::ok, "it is rolled back");
      }
   }
   else
   {
      auto result = context().finalize( true);
      v_assert( ( result == State::ok) == good, "the caller is told that the transaction can not be committed");
      if( ! good && ! rollback)
         v_assert( result == State::timeout, "the caller is told that it is a timeout");
   }
}

extern "C" void h_tx_pending()
{
   v_bound( "1 resource, 1 pending reply");
   configure( 1, false);
   auto own = v_pick< int>( 0, 1, "own") == 1;
   if( own)
      v_assert( context().begin() == tx::ok, "a transaction is started");
   else
      context().join( foreign());
   auto xid = current();
   world::sent().clear();
   context().current().associate( world::correlation( 10));

   if( own && v_pick< int>( 0, 1, "application") == 1)
   {
      v_assert( context().commit() == tx::protocol, "a transaction with replies that have not come is not committed");
      v_assert( current() == xid && world::sent().empty(), "nothing is decided");
      invariant( 1);
      v_cover( "kept");
      return;
   }

   auto result = context().finalize( true);
   v_assert( result != common::message::service::transaction::State::ok, "the caller is told that the transaction can not be committed");
   auto work = rm::get( 1).find( xid);
   v_assert( work && work->association == rm::Association::none, "no work goes on when the service returns");
   v_assert( work && work->outcome != rm::Outcome::committed && world::count< message::commit::Request>( {}) == 0, "a transaction with replies that have not come is not committed");

   // the reply is not received when it comes
   common::message::service::call::Reply reply;
   reply.correlation = world::correlation( 10);
   manager::inbox().push_back( world::complete( reply));
   reply.correlation = world::correlation( 11);
   manager::inbox().push_back( world::complete( reply));
   common::message::service::call::Reply received;
   common::communication::device::blocking::receive( common::communication::ipc::inbound::device(), received);
   v_assert( received.correlation == world::correlation( 11), "a reply that nobody waits for is discarded");
   v_cover( "gone");
}

extern "C" void h_tx_owner()
{
   v_bound( "0 to 2 resources");
   auto fixed = v_pick< int>( 0, 2, "resources");
   configure( fixed, false);
   context().join( foreign());
   auto xid = current();
   world::sent().clear();
   auto code = v_pick< int>( 0, 1, "commit") == 1 ? context().commit() : context().rollback();
   v_assert( code == tx::protocol, "a transaction is decided only by its owner");
   v_assert( current() == xid && world::sent().empty(), "nothing is decided");
   v_assert( ! context().pending(), "the service has no transaction of its own");
   invariant( fixed);
   v_cover( "all");
}

extern "C" void h_tx_dynamic()
{
   v_bound( "1 fixed and 1 dynamic resource");
   using ax = common::code::ax;
   configure( 1, true);
   auto way = v_one_of( { Way::none, Way::join, Way::start}, "way");
   auto trid = foreign();
   auto before = v_pick< int>( 0, 1, "involved") == 1;
   if( before)
      manager::involved().push_back( resource( 2));

   if( way == Way::join)
      context().join( trid);
   if( way == Way::start)
      v_assert( context().begin() == tx::ok, "a transaction is started");
   auto xid = current();
   v_assert( rm::get( 2).work.empty(), "a resource that registers itself is not started");
   world::sent().clear();

   auto attempt = []( int id, XID& xid)
   {
      try
      {
         return context().resource_registration( resource( id), &xid);
      }
      catch( const std::system_error& error)
      {
         return static_cast< ax>( error.code().value());
      }
   };

   XID registered;
   auto unknown = v_pick< int>( 0, 2, "unknown");
   if( unknown > 0)
   {
      v_assert( attempt( unknown == 1 ? 1 : 3, registered) == ax::argument, "only a resource that is dynamic registers itself");
      v_cover( "unknown");
      return;
   }

   auto code = attempt( 2, registered);
   v_assert( registered == xid, "the resource is told which transaction it is");
   if( way == Way::join && before)
   {
      v_assert( code == ax::join, "the resource joins what it is part of");
      v_cover( "join");
   }
   else
   {
      v_assert( code == ax::ok, "the resource starts");
      v_cover( "ok");
   }
   v_assert( attempt( 2, registered) == ax::resume, "a resource is registered once");
   v_cover( "resume");

   if( way == Way::join)
   {
      auto requests = world::all< message::resource::involved::Request>();
      v_assert( requests.size() == 1 && requests[ 0].trid.xid == xid && requests[ 0].involved.size() == 1 && requests[ 0].involved[ 0] == resource( 2), "the transaction manager is told");
   }

   if( way == Way::none)
   {
      v_assert( context().begin() == tx::outside, "no transaction is started when there is work outside transactions");
      v_assert( transaction::xid::null( current()), "no transaction is started");
      v_assert( context().resource_unregistration( resource( 2)) == ax::ok, "the work is over");
      v_assert( context().begin() == tx::ok, "a transaction is started");
      v_cover( "outside");
      return;
   }

   v_assert( context().resource_unregistration( resource( 2)) == ax::protocol, "a resource does not leave a transaction");

   // it has been started by itself
   rm::get( 2).work.push_back( { xid, rm::Association::active});
   if( way == Way::start)
   {
      auto code = context().commit();
      auto requests = world::all< message::commit::Request>();
      v_assert( requests.size() == 1 && requests[ 0].involved.size() == 2, "the resource takes part in the transaction");
      v_assert( code == tx::ok, "the outcome is reported");
   }
   else
      v_assert( context().finalize( true) == common::message::service::transaction::State::ok, "the service is done");
   v_assert( rm::get( 2).active() == 0, "the work of the resource is ended");
}

extern "C" void h_tx_settings()
{
   v_bound( "1 resource");
   configure( 1, false);
   v_assert( rm::get( 1).open, "the resource is opened");
   auto control = v_one_of( { transaction::Control::unchained, transaction::Control::chained, transaction::Control::stacked}, "control");
   auto when = v_one_of( { transaction::commit::Return::completed, transaction::commit::Return::logged}, "return");
   const std::int32_t values[] = { -1, 0, 1, 60, 3600 * 24 * 365};
   auto seconds = v_one_of( values, "timeout");

   v_assert( context().set_transaction_control( control) == tx::ok, "control is set");
   v_assert( context().set_commit_return( when) == tx::ok, "commit return is set");
   auto timeout = casual::platform::time::unit{ std::chrono::seconds{ seconds}};
   auto code = context().set_transaction_timeout( timeout);
   v_assert( code == ( seconds < 0 ? tx::argument : tx::ok), "a timeout is not negative");

   TXINFO info;
   v_assert( ! context().info( &info), "there is no transaction");
   v_assert( info.transaction_control == static_cast< long>( control), "control is as it was set");
   v_assert( info.transaction_timeout == ( seconds < 0 ? 0 : seconds), "timeout is as it was set");
   v_assert( info.transaction_state == TX_ACTIVE, "nothing is wrong");
   v_assert( context().get_commit_return() == when, "commit return is as it was set");

   auto now = world::now();
   v_assert( context().begin() == tx::ok, "a transaction is started");
   auto deadline = context().current().deadline;
   v_assert( deadline.has_value() == ( seconds > 0), "the transaction has a deadline exactly if there is a timeout");
   if( deadline)
   {
      auto due = std::chrono::duration_cast< std::chrono::nanoseconds>( deadline->time_since_epoch()).count();
      v_assert( due >= now + seconds * 1'000'000'000L && due <= world::now() + seconds * 1'000'000'000L, "the deadline is the timeout");
   }

   v_assert( context().close() == tx::ok && ! rm::get( 1).open, "the resource is closed");
   v_cover( "all");
}

extern "C" void h_tx_suspend_fails()
{
   v_bound( "1 or 2 resources");
   auto fixed = v_pick< int>( 1, 2, "resources");
   configure( fixed, false);
   v_assert( context().begin() == tx::ok, "a transaction is started");
   auto xid = current();

   XID suspended;
   auto resume = v_pick< int>( 0, 1, "resume") == 1;
   if( resume)
      v_assert( context().suspend( &suspended) == tx::ok, "the transaction is suspended");

   failure( fixed + 1);
   auto code = resume ? context().resume( &suspended) : context().suspend( &suspended);
   if( ! failed())
   {
      v_assert( code == tx::ok, "all is well");
      invariant( fixed);
      v_cover( "fine");
      return;
   }
   v_assert( code != tx::ok, "what goes wrong is reported");
   if( resume)
   {
      v_assert( transaction::xid::null( current()), "the transaction is not resumed");
      for( int index = 1; index <= fixed; ++index)
         v_assert( rm::get( index).active() == 0, "no work is done in a transaction that the application has left");
   }
   else
   {
      v_assert( current() == xid, "the transaction is not suspended");
      for( int index = 1; index <= fixed; ++index)
      {
         auto work = rm::get( index).find( xid);
         v_assert( work && ( work->association == rm::Association::active || work->failed), "work goes on in the transaction the application is in");
      }
   }
   v_cover( "failed");
}

extern "C" void h_tx_service_fails()
{
   v_bound( "1 or 2 resources, one transaction");
   auto fixed = v_pick< int>( 1, 2, "resources");
   auto way = v_one_of( { Way::join, Way::start, Way::branch}, "way");
   configure( fixed, false);
   rm::lenient() = true;
   failure( 3 * fixed + 1);

   auto raised = false;
   auto trid = foreign();
   try
   {
      switch( way)
      {
         case Way::none: break;
         case Way::join: context().join( trid); break;
         case Way::start: context().start(); break;
         case Way::branch: context().branch( trid); break;
      }
   }
   catch( const std::system_error&)
   {
      raised = true;
   }
   v_assert( raised == failed(), "what goes wrong is reported");
   auto commit = ! raised && v_pick< int>( 0, 1, "commit") == 1;
   world::sent().clear();

   // (the server ends the transaction when it could not be started)
   auto result = context().finalize( commit);
   using State = common::message::service::transaction::State;

   v_assert( context().empty(), "no transaction remains when the service returns");
   for( int index = 1; index <= fixed; ++index)
   {
      for( auto& work : rm::get( index).work)
      {
         v_assert( work.association == rm::Association::none, "no work goes on when the service returns");
         if( way == Way::start)
            v_assert( work.asked || world::count< message::commit::Request>( {}) == 1, "every resource is told what is decided");
         else
            v_assert( ! work.asked && world::sent().empty(), "the transaction of the caller is not decided by the service");
      }
   }
   if( failed() && ! raised)
   {
      if( commit || way != Way::start)
         v_assert( result != State::ok, "the caller is told");
      v_cover( "failed");
   }
   if( ! failed())
   {
      v_assert( result == ( commit || way == Way::start ? State::ok : State::rollback), "the caller is told how it went");
      v_cover( "fine");
   }
}

extern "C" void h_tx_stacked_dynamic()
{
   v_bound( "1 fixed and 1 dynamic resource");
   configure( 1, true);
   v_assert( context().set_transaction_control( transaction::Control::stacked) == tx::ok, "control is set");
   v_assert( context().begin() == tx::ok, "a transaction is started");
   auto xid = current();
   auto outer = v_pick< int>( 0, 1, "outer") == 1;
   if( outer)
   {
      XID registered;
      v_assert( context().resource_registration( resource( 2), &registered) == common::code::ax::ok, "the resource starts");
      rm::get( 2).work.push_back( { xid, rm::Association::active});
   }
   v_assert( context().begin() == tx::ok, "a transaction is started");
   auto code = v_pick< int>( 0, 1, "commit") == 1 ? context().commit() : context().rollback();
   v_assert( code == tx::ok, "it is over");
   v_assert( current() == xid, "the application is back in the outer transaction");
   invariant( 1);
   if( ! outer)
      v_assert( rm::get( 2).work.empty(), "a resource that has not registered is left alone");
   v_cover( "all");
}

extern "C" void h_tx_replies()
{
   v_bound( "0 or 1 resource, 0 to 3 calls with any order of the replies");
   auto fixed = v_pick< int>( 0, 1, "resources");
   configure( fixed, false);
   v_assert( context().begin() == tx::ok, "a transaction is started");
   auto xid = current();
   auto calls = v_pick< int>( 0, 3, "calls");
   std::vector< common::strong::correlation::id> waiting;
   int made = 0;
   int steps = 0;
   while( made < calls || ! waiting.empty())
   {
      v_assert( context().current().pending() == ! waiting.empty(), "the transaction waits exactly for the replies that have not come");
      if( made < calls && ( waiting.empty() || v_pick< int>( 0, 1, "call")))
      {
         waiting.push_back( world::correlation( static_cast< unsigned char>( 10 + made++)));
         context().current().associate( waiting.back());
      }
      else
      {
         auto index = v_pick< int>( 0, static_cast< int>( waiting.size()) - 1, "reply");
         common::message::service::call::Reply reply;
         reply.correlation = waiting[ index];
         reply.transaction_state = common::message::service::transaction::State::ok;
         context().update( reply);
         waiting.erase( std::begin( waiting) + index);
      }
      for( int i = 0; i < made; ++i)
      {
         auto correlation = world::correlation( static_cast< unsigned char>( 10 + i));
         v_assert( context().associated( correlation) == common::algorithm::contains( waiting, correlation), "a call is associated until its reply comes");
      }
   }
   v_assert( ! context().current().pending(), "all the replies have come");
   world::sent().clear();
   auto code = context().commit();
   v_assert( code == tx::ok, "the transaction is committed");
   if( calls)
   {
      v_assert( world::sent().size() == 1 && world::count< message::commit::Request>( {}) == 1, "a transaction that others have taken part in is decided by the transaction manager");
      v_assert( world::as< message::commit::Request>( world::sent().front().complete).trid.xid == xid, "the transaction is the one that is committed");
      v_cover( "distributed");
   }
   else
   {
      v_assert( world::sent().empty(), "a local transaction is decided locally");
      v_cover( "local");
   }
}

extern "C" void h_tx_service_stack()
{
   v_bound( "0 or 1 resource, the transaction of the caller and one of its own");
   using State = common::message::service::transaction::State;
   auto fixed = v_pick< int>( 0, 1, "resources");
   configure( fixed, false);
   auto trid = foreign();
   context().join( trid);
   XID joined;
   v_assert( context().suspend( &joined) == tx::ok && joined == trid.xid, "the transaction of the caller is suspended");
   v_assert( context().begin() == tx::ok, "a transaction is started");
   auto own = current();
   world::sent().clear();
   // a failed call makes it rollback only
   auto failed = v_pick< int>( 0, 1, "failed") == 1;
   if( failed)
   {
      context().current().associate( world::correlation( 10));
      common::message::service::call::Reply reply;
      reply.correlation = world::correlation( 10);
      reply.transaction_state = State::rollback;
      context().update( reply);
   }
   auto place = v_pick< int>( 0, 2, "place");
   if( place == 1)
   {
      XID xid;
      v_assert( context().suspend( &xid) == tx::ok && xid == own, "the own transaction is suspended");
      v_assert( context().resume( &joined) == tx::ok, "the transaction of the caller is resumed");
   }
   else if( place == 2)
   {
      auto code = context().rollback();
      v_assert( code == tx::ok, "the own transaction is rolled back");
      failed = false;
   }
   auto commit = v_pick< int>( 0, 1, "commit") == 1;
   auto result = context().finalize( commit);
   v_assert( context().empty() && transaction::xid::null( current()), "no transaction remains when the service returns");
   v_assert( manager::inbox().empty(), "all that is sent to the service is received");
   if( commit && ! failed)
   {
      v_assert( result == State::ok, "success is reported");
      v_cover( "ok");
   }
   else
   {
      v_assert( result != State::ok, "the caller is told that the transaction can not be committed");
      v_cover( "error");
   }
   if( fixed)
   {
      for( auto& work : rm::get( 1).work)
         v_assert( work.association == rm::Association::none, "no work goes on when the service returns");
      auto work = rm::get( 1).find( trid.xid);
      v_assert( work && work->outcome == rm::Outcome::open, "the transaction of the caller is not decided by the service");
      auto other = rm::get( 1).find( own);
      if( place == 2 || ! commit || failed)
         v_assert( ! other || other->outcome != rm::Outcome::committed, "what has failed is not committed");
      if( place != 2 && commit && ! failed)
         v_assert( other && other->outcome == rm::Outcome::committed, "the own transaction is committed");
      v_assert( ( other && other->outcome != rm::Outcome::open) || world::count< message::rollback::Request>( {}) == 1, "the own transaction is decided");
   }
   if( place == 2)
      v_cover( "left");
}
