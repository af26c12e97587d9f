// Specification primitives. The same harness is (a) compiled to LLVM IR together with the real sources and
// verified by engine/cve, (b) compiled natively to replay counterexamples and for bounded testing.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>

extern "C"
{
   //! `size` bytes at `p` become an arbitrary value
   void v_sym( void* p, std::size_t size, const char* name);
   //! heap block of `size` (possibly symbolic) bytes with arbitrary content
   void* v_alloc( std::size_t size, const char* name);
   //! precondition
   void v_assume( bool condition);
   //! obligation
   void v_assert( bool condition, const char* name);
   //! reachability witness
   void v_cover( const char* name);
   //! states that the harness bounds something the property quantifies over
   void v_bound( const char* text);
   bool v_native();
   std::uint64_t v_concretize( std::uint64_t value);
   //! value compared between engine and native run
   void v_trace( std::uint64_t value);
   //! prefer small values of `value` in counterexamples
   void v_size( std::uint64_t value);
   [[noreturn]] void v_end();
   void v_check_overflow( bool on);
   void v_external( const char* name);
}

template< typename T>
T v_any( const char* name)
{
   if constexpr( std::is_same_v< T, bool>)
   {
      unsigned char value;
      v_sym( &value, 1, name);
      return ( value & 1) != 0;
   }
   else
   {
      static_assert( std::is_trivially_copyable_v< T>);
      T value;
      v_sym( &value, sizeof( T), name);
      return value;
   }
}

//! arbitrary value in [first, last]
template< typename T>
T v_range( T first, T last, const char* name)
{
   T value = v_any< T>( name);
   v_assume( first <= value && value <= last);
   return value;
}

//! arbitrary value in [first, last], one path per value (concrete on each path)
template< typename T>
T v_pick( T first, T last, const char* name)
{
   return static_cast< T>( v_concretize( static_cast< std::uint64_t>( v_range< T>( first, last, name))));
}

template< typename T, std::size_t size>
T v_one_of( const T (&values)[ size], const char* name)
{
   return values[ v_pick< std::size_t>( 0, size - 1, name)];
}

//! logical helpers that do not fork
inline bool v_implies( bool a, bool b) { return ! a | b; }
