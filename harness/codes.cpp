// @property C08
// @tu middleware/common/source/code/convert.cpp
// @tu middleware/common/source/code/xa.cpp
// @tu middleware/common/source/code/tx.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @tu middleware/common/source/uuid.cpp
// @config skip casual::common::stream::write<
// @entry h_xa_severest covers=all : the combination of two resource outcomes is one of the two, independent of order, and never hides the more severe one
// @entry h_xa_accumulate covers=all : the combination of any three outcomes does not depend on the order they arrive in
// @entry h_xa_to_tx covers=ok,mixed,hazard,fail : only success is reported as success, and mixed, unknown and failed outcomes as what they are
// @entry h_tx_combine covers=all : the combination of two outcomes does not depend on order, ok is neutral, and a failed next transaction does not hide the outcome of this one
// @entry h_tx_severe covers=all : the more severe of two outcomes is reported
// @entry h_errc covers=all : no system error is converted to success
#include "v.h"
#include "common/code/convert.h"
#include "common/code/xa.h"
#include "common/code/tx.h"
#include "common/code/casual.h"

#include <algorithm>
#include <initializer_list>
#include <system_error>

namespace code = casual::common::code;
using xa = code::xa;
using tx = code::tx;

namespace
{
   constexpr xa all_xa[] = {
      xa::rollback_unspecified, xa::rollback_communication, xa::rollback_deadlock, xa::rollback_other, xa::rollback_protocoll, xa::rollback_timeout,
      xa::rollback_transient, xa::rollback_integrity, xa::no_migrate, xa::heuristic_hazard, xa::heuristic_commit, xa::heuristic_rollback,
      xa::heuristic_mix, xa::retry, xa::read_only, xa::ok, xa::outstanding_async, xa::invalid_xid, xa::argument, xa::protocol, xa::resource_fail,
      xa::resource_error, xa::duplicate_xid, xa::outside};

   constexpr tx all_tx[] = {
      tx::not_supported, tx::ok, tx::outside, tx::rollback, tx::mixed, tx::hazard, tx::protocol, tx::error, tx::fail, tx::argument, tx::committed,
      tx::no_begin, tx::no_begin_rollback, tx::no_begin_mixed, tx::no_begin_hazard, tx::no_begin_committed};

   template< typename T>
   bool any( T value, std::initializer_list< T> values)
   {
      for( auto candidate : values)
         if( value == candidate)
            return true;
      return false;
   }

   bool rolled_back( xa value)
   {
      return any( value, { xa::rollback_unspecified, xa::rollback_communication, xa::rollback_deadlock, xa::rollback_other, xa::rollback_protocoll,
         xa::rollback_timeout, xa::rollback_transient, xa::rollback_integrity});
   }

   //! the more severe, the larger: unknown outcome, mixed outcome, heuristic outcome, failed resource, rolled back or misused, nothing done, ok, read only
   int rank( xa value)
   {
      if( value == xa::read_only) return 0;
      if( value == xa::ok) return 1;
      if( value == xa::invalid_xid) return 2;
      if( any( value, { xa::resource_fail, xa::resource_error})) return 4;
      if( any( value, { xa::heuristic_commit, xa::heuristic_rollback})) return 5;
      if( value == xa::heuristic_mix) return 6;
      if( value == xa::heuristic_hazard) return 7;
      return 3;
   }

   bool aggregated( tx value)
   {
      return any( value, { tx::no_begin_rollback, tx::no_begin_mixed, tx::no_begin_hazard, tx::no_begin_committed});
   }

   xa any_xa( const char* name)
   {
      auto value = v_any< int>( name);
      bool known = false;
      for( auto candidate : all_xa)
         known = known | ( value == static_cast< int>( candidate));
      v_assume( known);
      return static_cast< xa>( value);
   }

   tx any_tx( const char* name)
   {
      auto value = v_any< int>( name);
      bool known = false;
      for( auto candidate : all_tx)
         known = known | ( value == static_cast< int>( candidate));
      v_assume( known);
      return static_cast< tx>( value);
   }
}

extern "C" void h_xa_severest()
{
   auto a = any_xa( "a");
   auto b = any_xa( "b");
   auto result = code::severest( a, b);
   v_cover( "all");
   v_assert( result == a || result == b, "the combined outcome is one of the two");
   v_assert( result == code::severest( b, a), "the combined outcome does not depend on order");
   v_assert( code::severest( a, a) == a, "the combination of equal outcomes is that outcome");
   v_assert( rank( result) >= rank( a) && rank( result) >= rank( b), "the more severe outcome is not hidden");
}

extern "C" void h_xa_accumulate()
{
   auto a = any_xa( "a");
   auto b = any_xa( "b");
   auto c = any_xa( "c");
   v_cover( "all");
   v_assert( code::severest( code::severest( a, b), c) == code::severest( a, code::severest( b, c)), "the combined outcome does not depend on order");
}

extern "C" void h_xa_to_tx()
{
   auto value = any_xa( "value");
   auto result = code::convert::to::tx( value);
   v_assert( ( result == tx::ok) == any( value, { xa::ok, xa::read_only}), "success is reported only for success");
   if( result == tx::ok)
      v_cover( "ok");
   if( any( value, { xa::heuristic_mix, xa::heuristic_commit, xa::heuristic_rollback}))
   {
      v_cover( "mixed");
      v_assert( result == tx::mixed, "a heuristic outcome is reported as mixed");
   }
   if( value == xa::heuristic_hazard || rolled_back( value))
   {
      v_cover( "hazard");
      v_assert( result == tx::hazard, "an outcome that is not known is reported as hazard");
   }
   if( any( value, { xa::resource_fail, xa::resource_error}))
   {
      v_cover( "fail");
      v_assert( result == tx::fail, "a failed resource is reported as failure");
   }
   if( any( value, { xa::argument, xa::protocol}))
      v_assert( result == tx::protocol, "a misuse is reported as protocol error");
   if( value == xa::invalid_xid)
      v_assert( result == tx::no_begin, "a transaction that is not known is reported");
   if( value == xa::outside)
      v_assert( result == tx::outside, "work outside of the transaction is reported");
   v_assert( ! any( result, { tx::rollback, tx::committed}), "no outcome is claimed that the resource did not claim");
}

extern "C" void h_tx_combine()
{
   auto a = any_tx( "a");
   auto b = any_tx( "b");
   auto result = a + b;
   v_cover( "all");
   // the outcome of this transaction and of the start of the next one are combined only once
   v_assume( ! ( aggregated( a) && ( aggregated( b) || b == tx::no_begin)) && ! ( aggregated( b) && a == tx::no_begin));
   v_assert( result == b + a, "the combined outcome does not depend on order");
   v_assert( a + a == a, "the combination of equal outcomes is that outcome");
   v_assert( a + tx::ok == a, "ok is neutral");
   auto assigned = a;
   assigned += b;
   v_assert( assigned == result, "the outcome is accumulated");
   if( a == tx::no_begin)
   {
      v_assert( b != tx::rollback || result == tx::no_begin_rollback, "a rollback is not hidden");
      v_assert( b != tx::mixed || result == tx::no_begin_mixed, "a mixed outcome is not hidden");
      v_assert( b != tx::hazard || result == tx::no_begin_hazard, "an unknown outcome is not hidden");
      v_assert( b != tx::committed || result == tx::no_begin_committed, "a heuristic commit is not hidden");
   }
}

extern "C" void h_tx_severe()
{
   // from the most severe to the least
   constexpr tx order[] = { tx::not_supported, tx::argument, tx::hazard, tx::mixed, tx::fail, tx::error, tx::committed, tx::rollback, tx::protocol, tx::outside, tx::ok};
   auto a = v_one_of( order, "a");
   auto b = v_one_of( order, "b");
   v_cover( "all");
   v_assert( a + b == *std::min( std::find( std::begin( order), std::end( order), a), std::find( std::begin( order), std::end( order), b)), "the more severe outcome is reported");
}

extern "C" void h_errc()
{
   auto value = v_any< int>( "errc");
   v_cover( "all");
   auto result = code::convert::to::casual( static_cast< std::errc>( value));
   v_assert( static_cast< int>( result) != 0, "an error stays an error");
   if( value == EINTR)
      v_assert( result == code::casual::interrupted, "an interrupt is recognised");
   if( value == ECONNREFUSED)
      v_assert( result == code::casual::communication_refused, "a refused connection is recognised");
   if( value == EPIPE || value == ECONNRESET)
      v_assert( result == code::casual::communication_unavailable, "a lost connection is recognised");
}
