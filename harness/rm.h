// resource managers, shared by the harnesses that drive the transaction context
#pragma once
#include "v.h"
#include "common/transaction/id.h"
#include "casual/xa.h"
#include <vector>

// the values of the XA specification
constexpr long TMNOFLAGS = 0, TMREGISTER = 1, TMNOMIGRATE = 2, TMONEPHASE = 0x40000000, TMFAIL = 0x20000000, TMRESUME = 0x08000000, TMSUCCESS = 0x04000000, TMSUSPEND = 0x02000000, TMJOIN = 0x00200000;
constexpr int XA_OK = 0, XA_RDONLY = 3, XA_HEURHAZ = 8, XA_HEURMIX = 5, XA_HEURRB = 6, XA_RBBASE = 100, XA_RBEND = 107, XA_RBROLLBACK = 100, XA_RBDEADLOCK = 102, XAER_RMERR = -3, XAER_NOTA = -4, XAER_PROTO = -6, XAER_RMFAIL = -7, XAER_DUPID = -8;


// resource managers, as the XA specification has them (one thread of control)
namespace rm
{
   enum class Association { none, active, suspended};
   enum class Outcome { open, committed, rolled};

   struct Work
   {
      XID xid;
      Association association = Association::none;
      Outcome outcome = Outcome::open;
      //! it has been told the decision
      bool asked = false;
      //! it could not end its work
      bool failed = false;
   };

   struct Manager
   {
      std::vector< Work> work;
      bool open = false;

      Work* find( const XID& xid)
      {
         for( auto& value : work)
            if( value.xid == xid)
               return &value;
         return nullptr;
      }

      std::size_t active() const
      {
         std::size_t result = 0;
         for( auto& value : work)
            if( value.association == Association::active)
               ++result;
         return result;
      }
   };

   Manager& get( int id)
   {
      static Manager managers[ 4];
      v_assert( 1 <= id && id <= 3, "a resource is called with its own id");
      return managers[ id & 3];
   }

   //! the call (counted from 1) that fails, and how
   //! ending what is not started is refused, and does no harm
   bool& lenient() { static bool result = false; return result;}
   int& fails() { static int result = 0; return result;}
   int& how() { static int result = 0; return result;}
   int& calls() { static int result = 0; return result;}

   int verdict() { return ++calls() == fails() ? how() : XA_OK;}

   extern "C"
   {
      int v_xa_open( const char*, int id, long) { get( id).open = true; return XA_OK;}
      int v_xa_close( const char*, int id, long) { get( id).open = false; return XA_OK;}

      int v_xa_start( XID* xid, int id, long flags)
      {
         auto& manager = get( id);
         v_assert( flags == TMNOFLAGS || flags == TMJOIN || flags == TMRESUME, "work is started in a known way");
         v_assert( manager.active() == 0, "a resource starts work when it has ended or suspended the previous");
         v_assert( ! casual::common::transaction::xid::null( *xid), "work is started for a transaction");
         auto work = manager.find( *xid);

         if( flags == TMRESUME)
         {
            v_assert( work && work->association == Association::suspended, "work is resumed that is suspended");
            if( ! work)
               return XAER_NOTA;
         }
         if( flags == TMNOFLAGS && work)
            return XAER_DUPID;

         if( auto code = verdict(); code != XA_OK)
            return code;

         if( ! work)
         {
            manager.work.push_back( { *xid});
            work = &manager.work.back();
         }
         v_assert( work->outcome == Outcome::open, "no work is started for a transaction that is over");
         work->association = Association::active;
         return XA_OK;
      }

      int v_xa_end( XID* xid, int id, long flags)
      {
         auto work = get( id).find( *xid);
         v_assert( flags == TMSUCCESS || flags == TMSUSPEND || flags == TMFAIL, "work is ended in a known way");
         v_assert( work || lenient(), "work is ended that is started");
         if( ! work)
            return XAER_NOTA;
         v_assert( lenient() || work->association == Association::active || ( flags != TMSUSPEND && work->association == Association::suspended), "work is ended that is going on");

         auto code = verdict();
         work->failed = code != XA_OK;
         work->association = flags == TMSUSPEND && code == XA_OK ? Association::suspended : Association::none;
         return code;
      }

      int v_xa_decide( XID* xid, int id, Outcome outcome)
      {
         auto work = get( id).find( *xid);
         v_assert( work != nullptr, "a decision is for work that is started");
         if( ! work)
            return XAER_NOTA;
         v_assert( work->association == Association::none, "a decision is made when the work has ended");
         v_assert( ! work->asked, "a decision is made once");
         work->asked = true;
         auto code = verdict();
         if( code == XA_OK)
            work->outcome = outcome;
         return code;
      }

      int v_xa_rollback( XID* xid, int id, long) { return v_xa_decide( xid, id, Outcome::rolled);}
      int v_xa_commit( XID* xid, int id, long flags)
      {
         v_assert( flags == TMONEPHASE, "a resource that has not been prepared is committed in one phase");
         return v_xa_decide( xid, id, Outcome::committed);
      }
      int v_xa_prepare( XID*, int, long) { v_assert( false, "prepare is up to the transaction manager"); return XAER_PROTO;}
      int v_xa_recover( XID*, long, int, long) { return 0;}
      int v_xa_forget( XID*, int, long) { return XA_OK;}
      int v_xa_complete( int*, int*, int, long) { return XA_OK;}
   }

   xa_switch_t& xa_switch( bool dynamic)
   {
      static xa_switch_t fixed_switch{ "fixed", TMNOMIGRATE, 0, v_xa_open, v_xa_close, v_xa_start, v_xa_end, v_xa_rollback, v_xa_prepare, v_xa_commit, v_xa_recover, v_xa_forget, v_xa_complete};
      static xa_switch_t dynamic_switch{ "dynamic", TMREGISTER, 0, v_xa_open, v_xa_close, v_xa_start, v_xa_end, v_xa_rollback, v_xa_prepare, v_xa_commit, v_xa_recover, v_xa_forget, v_xa_complete};
      return dynamic ? dynamic_switch : fixed_switch;
   }
}

