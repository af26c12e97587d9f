// @property C07
// @tu middleware/common/source/transaction/id.cpp
// @tu middleware/common/source/transaction/global.cpp
// @tu middleware/common/source/uuid.cpp
// @tu middleware/common/source/network/byteorder.cpp
// @tu middleware/common/source/code/casual.cpp
// @tu middleware/common/source/code/serialize.cpp
// @assume every generated uuid is an arbitrary value (model of uuid_generate)
// @config emptystr casual::common::transcode::hex::encode<
// @entry h_xid_create covers=all : a transaction id that is created holds exactly the global and branch parts it is created from
// @entry h_xid_from_global covers=all : an id for a global id of any size keeps all of the global id and gets a branch of its own
// @entry h_xid_branch covers=branched,null : a new branch has the same global id and a new branch part, and a null id stays null
// @entry h_xid_equal covers=equal,different : two ids are equal exactly when format, global and branch parts are equal
// @entry h_xid_order covers=all time=300 : the order of ids is a strict total order consistent with equality
// @entry h_xid_global_match covers=match,other unroll=140 time=300 : an id matches a global id exactly when the global parts are equal
// @entry h_xid_move covers=all : a moved id is the same id, and the source is null
// @entry h_xid_serialize covers=null,value : an id that is sent is the same id when it is received
// @entry h_global_id covers=all : a global id keeps exactly the bytes it is created from
// @entry h_global_serialize covers=all unroll=140 time=400 : a global id is the same when it is received, whatever the receiver held
#include "v.h"
#include "v_os.h"
#include "common/transaction/id.h"
#include "common/transaction/global.h"
#include "common/serialize/native/binary.h"
#include "common/serialize/native/network.h"
#include "common/transcode.h"

#include <cstring>

namespace casual::common::process
{
   const Handle& handle()
   {
      static const Handle result{ strong::process::id{ 42}};
      return result;
   }
}

namespace common = casual::common;
namespace transaction = casual::common::transaction;
using transaction::ID;

namespace
{
   //! any valid xid
   XID any_xid( const char* name)
   {
      XID result;
      v_sym( &result, sizeof( result), name);
      v_assume( result.formatID >= -1);
      v_assume( result.gtrid_length >= 0);
      v_assume( result.gtrid_length <= 64);
      v_assume( result.bqual_length >= 0);
      v_assume( result.bqual_length <= 64);
      return result;
   }

   bool same_length( const XID& a, const XID& b)
   {
      return ( a.formatID == b.formatID) & ( a.gtrid_length == b.gtrid_length) & ( a.bqual_length == b.bqual_length);
   }

   bool is_null( const XID& value) { return value.formatID == -1; }

   auto span( const unsigned char* data, std::size_t size)
   {
      auto first = reinterpret_cast< const std::byte*>( data);
      return transaction::global::id::range( first, first + size);
   }

   struct Gtrid
   {
      Gtrid( const char* name, std::size_t max = 64)
      {
         v_sym( data, sizeof( data), name);
         size = v_any< unsigned char>( "size");
         v_assume( size <= max);
      }
      auto range() const { return span( data, size); }
      unsigned char data[ 64];
      std::size_t size;
   };

   //! the global part of `id` is exactly these bytes
   void holds_global( const ID& id, const unsigned char* data, std::size_t size)
   {
      auto range = transaction::id::range::global( id);
      v_assert( static_cast< std::size_t>( range.size()) == size, "the global part has the right size");
      auto any = v_any< std::size_t>( "any");
      v_assume( any < 64);
      if( any < size)
         v_assert( static_cast< unsigned char>( *( range.data() + any)) == data[ any], "the global part is the same bytes");
   }

   void same( const XID& a, const XID& b)
   {
      v_assert( a.formatID == b.formatID, "the format is the same");
      if( is_null( a))
         return;
      v_assert( same_length( a, b), "the parts have the same size");
      auto any = v_any< unsigned char>( "any");
      if( any < a.gtrid_length + a.bqual_length)
         v_assert( a.data[ any] == b.data[ any], "the parts are the same bytes");
   }
}

extern "C" void h_xid_create()
{
   common::Uuid global, branch;
   v_sym( &global.get(), 16, "global");
   v_sym( &branch.get(), 16, "branch");
   ID id{ global, branch, common::process::handle()};
   v_cover( "all");
   v_assert( ! id.null() && id, "the id is not null");
   holds_global( id, global.get(), 16);
   auto range = transaction::id::range::branch( id);
   v_assert( range.size() == 16, "the branch part has the right size");
   v_assert( std::memcmp( range.data(), branch.get(), 16) == 0, "the branch part is the same bytes");
   v_assert( transaction::id::range::data( id).size() == 32, "the id is the two parts");
   v_assert( id.owner() == common::process::handle(), "the owner is kept");
   v_assert( ID{}.null() && ! ID{}, "a default id is null");
   auto created = transaction::id::create();
   v_assert( created && created.owner() == common::process::handle(), "a created id is owned by the process");
}

extern "C" void h_xid_from_global()
{
   Gtrid gtrid{ "gtrid"};
   ID id{ gtrid.range()};
   v_cover( "all");
   v_assert( ! id.null(), "the id is not null");
   holds_global( id, gtrid.data, gtrid.size);
   v_assert( id.xid.bqual_length == 16, "the id has a branch part");
   v_assert( id.xid.gtrid_length + id.xid.bqual_length <= 128, "the parts are within the id");
}

extern "C" void h_xid_branch()
{
   auto xid = any_xid( "xid");
   ID id{ xid};
   auto result = transaction::id::branch( id);
   if( is_null( xid))
   {
      v_cover( "null");
      v_assert( result.null(), "null stays null");
      return;
   }
   v_cover( "branched");
   v_assert( ! result.null(), "the branch is not null");
   holds_global( result, reinterpret_cast< unsigned char*>( xid.data), xid.gtrid_length);
   v_assert( result.xid.bqual_length == 16, "the branch has a branch part of its own");
   same( id.xid, xid);
}

extern "C" void h_xid_equal()
{
   auto a = any_xid( "a");
   auto b = any_xid( "b");
   auto any = v_any< unsigned char>( "any");
   if( a == b)
   {
      v_cover( "equal");
      v_assert( a.formatID == b.formatID, "equal ids have equal format");
      if( ! is_null( a))
      {
         v_assert( same_length( a, b), "equal ids have equal sizes");
         if( any < a.gtrid_length + a.bqual_length)
            v_assert( a.data[ any] == b.data[ any], "equal ids have equal bytes");
      }
   }
   else
   {
      v_cover( "different");
      v_assert( a != b, "different is not equal");
      v_assert( ! ( is_null( a) & is_null( b)), "null is equal to null");
      if( same_length( a, b))
      {
         bool different = false;
         for( int i = 0; i < 128; ++i)
            different = different | ( ( i < a.gtrid_length + a.bqual_length) & ( a.data[ i] != b.data[ i]));
         v_assert( different, "ids with the same content are equal");
      }
   }
   v_assert( ( ID{ a} == ID{ b}) == ( a == b), "the ids are equal when the xids are");
   v_assert( ( ID{ a} == b) == ( a == b), "the id is equal to the xid when the xids are");
}

extern "C" void h_xid_order()
{
   auto a = any_xid( "a");
   auto b = any_xid( "b");
   auto c = any_xid( "c");
   v_cover( "all");
   v_assert( ! ( a < a), "no id is before itself");
   v_assert( ! ( ( a < b) & ( b < a)), "the order is asymmetric");
   v_assert( ( a == b) == ! ( ( a < b) | ( b < a)), "the order is consistent with equality");
   v_assert( ! ( ( a < b) & ( b < c)) | ( a < c), "the order is transitive");
   v_assert( ( ID{ a} < ID{ b}) == ( a < b), "the ids are ordered as the xids");
}

extern "C" void h_xid_global_match()
{
   auto xid = any_xid( "xid");
   v_assume( ! is_null( xid));
   Gtrid gtrid{ "gtrid"};
   ID id{ xid};
   bool equal = static_cast< std::size_t>( xid.gtrid_length) == gtrid.size;
   for( int i = 0; i < 64; ++i)
      equal = equal & ( ( i >= xid.gtrid_length) | ( static_cast< unsigned char>( xid.data[ i]) == gtrid.data[ i]));
   bool match = id == gtrid.range();
   if( match) v_cover( "match"); else v_cover( "other");
   v_assert( match == equal, "an id matches exactly its global id");
}

extern "C" void h_xid_move()
{
   auto xid = any_xid( "xid");
   ID source{ xid};
   source.owner( common::process::handle());
   ID target{ std::move( source)};
   v_cover( "all");
   same( target.xid, xid);
   v_assert( target.owner() == common::process::handle(), "the owner is moved");
   v_assert( source.null(), "the source is null");
   ID assigned{ any_xid( "other")};
   assigned = std::move( target);
   same( assigned.xid, xid);
   v_assert( target.null(), "the source is null");
}

namespace
{
   template< typename W, typename R>
   void roundtrip( const ID& id)
   {
      auto writer = W{};
      writer << id;
      auto buffer = writer.consume();
      ID result{ any_xid( "old")};
      auto reader = R{ buffer};
      reader >> result;
      same( result.xid, id.xid);
      v_assert( result.owner() == id.owner(), "the owner is the same");
   }
}

extern "C" void h_xid_serialize()
{
   auto xid = any_xid( "xid");
   ID id{ xid};
   if( v_any< bool>( "owned"))
      id.owner( common::process::handle());
   if( is_null( xid)) v_cover( "null"); else v_cover( "value");
   if( v_any< bool>( "network"))
      roundtrip< common::serialize::native::binary::network::Writer, common::serialize::native::binary::network::Reader>( id);
   else
      roundtrip< common::serialize::native::binary::Writer, common::serialize::native::binary::Reader>( id);
}

extern "C" void h_global_id()
{
   Gtrid gtrid{ "gtrid"};
   transaction::global::ID id{ gtrid.range()};
   v_cover( "all");
   auto check = [ &gtrid]( const transaction::global::ID& id)
   {
      v_assert( static_cast< std::size_t>( id.range().size()) == gtrid.size, "the size is kept");
      auto any = v_any< unsigned char>( "any");
      if( any < gtrid.size)
         v_assert( static_cast< unsigned char>( *( id.range().data() + any)) == gtrid.data[ any], "the bytes are kept");
   };
   check( id);
   v_assert( static_cast< bool>( id) == ( gtrid.size != 0), "only an empty id is not an id");
}

extern "C" void h_global_serialize()
{
   static constexpr int old_sizes[] = { 0, 16, 64};
   auto size = v_pick< int>( 0, 64, "size");
   unsigned char data[ 64];
   v_sym( data, sizeof( data), "gtrid");
   transaction::global::ID id{ span( data, size)};
   v_cover( "all");
   common::serialize::native::binary::network::Writer writer;
   writer << id;
   auto buffer = writer.consume();
   unsigned char old[ 64];
   v_sym( old, sizeof( old), "old");
   transaction::global::ID received{ span( old, v_one_of( old_sizes, "old size"))};
   common::serialize::native::binary::network::Reader reader{ buffer};
   reader >> received;
   v_assert( received.range().size() == size, "the size is kept");
   auto any = v_any< unsigned char>( "any");
   if( any < size)
      v_assert( static_cast< unsigned char>( *( received.range().data() + any)) == data[ any], "the bytes are kept");
}
