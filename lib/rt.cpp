// Out-of-line parts of libstdc++/libc used by the code under verification, for the engine only
// (native replays use the real libraries). Everything here is part of the trusted base.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <filesystem>
#include <functional>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <list>
#include <optional>
#include <variant>
#include <any>
#include <memory>

extern "C"
{
   int v_rt_errno = 0;
   void v_rt_current_exception( void** obj, void** type);
   [[noreturn]] void v_rt_throw( void* obj, void* type);
   void v_external( const char* name);
   void v_rt_empty_string( void* p) { new ( p) std::string(); }

   char* strdup( const char*);
   std::uint32_t ntohl( std::uint32_t v) { return __builtin_bswap32( v); }
   std::uint32_t htonl( std::uint32_t v) { return __builtin_bswap32( v); }
   std::uint16_t ntohs( std::uint16_t v) { return __builtin_bswap16( v); }
   std::uint16_t htons( std::uint16_t v) { return __builtin_bswap16( v); }
   int isspace( int c) { return c == ' ' || ( c >= 9 && c <= 13); }
   int isdigit( int c) { return c >= '0' && c <= '9'; }
   int isalpha( int c) { return ( c >= 'a' && c <= 'z') || ( c >= 'A' && c <= 'Z'); }
   int isalnum( int c) { return isdigit( c) || isalpha( c); }
   int isupper( int c) { return c >= 'A' && c <= 'Z'; }
   int islower( int c) { return c >= 'a' && c <= 'z'; }
   int isxdigit( int c) { return isdigit( c) || ( c >= 'a' && c <= 'f') || ( c >= 'A' && c <= 'F'); }
   int toupper( int c) { return islower( c) ? c - 32 : c; }
   int tolower( int c) { return isupper( c) ? c + 32 : c; }
   int pthread_once( int* control, void (*fn)( void)) { if( ! *control) { *control = 1; fn(); } return 0; }
   char* getenv( const char*) { return nullptr; }
}

// ------------------------------------------------------------------ exceptions
namespace std
{
   exception::~exception() noexcept {}
   const char* exception::what() const noexcept { return "std::exception"; }
   bad_exception::~bad_exception() noexcept {}
   const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
   bad_alloc::~bad_alloc() noexcept {}
   const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
   bad_array_new_length::~bad_array_new_length() noexcept {}
   const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
   bad_cast::~bad_cast() noexcept {}
   const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
   bad_typeid::~bad_typeid() noexcept {}
   const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
   bad_function_call::~bad_function_call() noexcept {}
   const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
   bad_weak_ptr::~bad_weak_ptr() noexcept {}
   const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

   // message held as plain C string
   __cow_string::__cow_string() : _M_p( "") {}
   __cow_string::__cow_string( const std::string& s) : _M_p( strdup( s.c_str())) {}
   __cow_string::__cow_string( const char* s, size_t) : _M_p( s) {}
   __cow_string::__cow_string( const __cow_string& o) noexcept : _M_p( o._M_p) {}
   __cow_string& __cow_string::operator=( const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
   __cow_string::~__cow_string() {}
   __cow_string::__cow_string( __cow_string&& o) noexcept : _M_p( o._M_p) {}
   __cow_string& __cow_string::operator=( __cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

   logic_error::logic_error( const string& s) : _M_msg( s) {}
   logic_error::logic_error( const char* s) : _M_msg( s, 0) {}
   logic_error::logic_error( const logic_error& o) noexcept : exception( o), _M_msg( o._M_msg) {}
   logic_error& logic_error::operator=( const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
   logic_error::~logic_error() noexcept {}
   const char* logic_error::what() const noexcept { return _M_msg._M_p; }
   domain_error::domain_error( const string& s) : logic_error( s) {}
   domain_error::domain_error( const char* s) : logic_error( s) {}
   domain_error::~domain_error() noexcept {}
   invalid_argument::invalid_argument( const string& s) : logic_error( s) {}
   invalid_argument::invalid_argument( const char* s) : logic_error( s) {}
   invalid_argument::~invalid_argument() noexcept {}
   length_error::length_error( const string& s) : logic_error( s) {}
   length_error::length_error( const char* s) : logic_error( s) {}
   length_error::~length_error() noexcept {}
   out_of_range::out_of_range( const string& s) : logic_error( s) {}
   out_of_range::out_of_range( const char* s) : logic_error( s) {}
   out_of_range::~out_of_range() noexcept {}
   runtime_error::runtime_error( const string& s) : _M_msg( s) {}
   runtime_error::runtime_error( const char* s) : _M_msg( s, 0) {}
   runtime_error::runtime_error( const runtime_error& o) noexcept : exception( o), _M_msg( o._M_msg) {}
   runtime_error& runtime_error::operator=( const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
   runtime_error::~runtime_error() noexcept {}
   const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
   range_error::range_error( const string& s) : runtime_error( s) {}
   range_error::range_error( const char* s) : runtime_error( s) {}
   range_error::~range_error() noexcept {}
   overflow_error::overflow_error( const string& s) : runtime_error( s) {}
   overflow_error::overflow_error( const char* s) : runtime_error( s) {}
   overflow_error::~overflow_error() noexcept {}
   system_error::~system_error() noexcept {}

   void __throw_logic_error( const char* s) { throw logic_error( s); }
   void __throw_length_error( const char* s) { throw length_error( s); }
   void __throw_out_of_range( const char* s) { throw out_of_range( s); }
   void __throw_out_of_range_fmt( const char* s, ...) { throw out_of_range( s); }
   void __throw_invalid_argument( const char* s) { throw invalid_argument( s); }
   void __throw_bad_alloc() { throw bad_alloc(); }
   void __throw_bad_array_new_length() { throw bad_array_new_length(); }
   void __throw_bad_cast() { throw bad_cast(); }
   void __throw_bad_function_call() { throw bad_function_call(); }
   void __throw_runtime_error( const char* s) { throw runtime_error( s); }
   void __throw_system_error( int e) { throw system_error( error_code( e, generic_category())); }

   // error categories
   namespace
   {
      struct category_base : error_category
      {
         const char* m_name;
         constexpr category_base( const char* n) : m_name( n) {}
         const char* name() const noexcept override { return m_name; }
         string message( int) const override { return {}; }
      };
      const category_base& gen() { static category_base c( "generic"); return c; }
      const category_base& sys() { static category_base c( "system"); return c; }
   }
   inline namespace _V2
   {
      error_category::~error_category() noexcept {}
      error_condition error_category::default_error_condition( int i) const noexcept { return error_condition( i, *this); }
      bool error_category::equivalent( int i, const error_condition& c) const noexcept { return default_error_condition( i) == c; }
      bool error_category::equivalent( const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
      __cow_string error_category::_M_message( int) const { return {}; }
      const error_category& generic_category() noexcept { return gen(); }
      const error_category& system_category() noexcept { return sys(); }
   }
   error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition( value()); }

   // exception_ptr
   namespace __exception_ptr
   {
      struct rec { void* obj; void* type; };
      exception_ptr::exception_ptr( void* p) noexcept : _M_exception_object( p) {}
      void exception_ptr::_M_addref() noexcept {}
      void exception_ptr::_M_release() noexcept {}
      void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
      const type_info* exception_ptr::__cxa_exception_type() const noexcept { return (const type_info*)( (rec*)_M_exception_object)->type; }
   }
   exception_ptr current_exception() noexcept
   {
      auto r = (__exception_ptr::rec*)malloc( sizeof( __exception_ptr::rec));
      v_rt_current_exception( &r->obj, &r->type);
      exception_ptr p;
      if( r->obj) memcpy( (void*)&p, &r, sizeof r);
      return p;
   }
   void rethrow_exception( exception_ptr p)
   {
      __exception_ptr::rec* r;
      memcpy( &r, (void*)&p, sizeof r);
      v_rt_throw( r->obj, r->type);
   }
   type_info::~type_info() {}
   bool type_info::__is_pointer_p() const { return false; }
   bool type_info::__is_function_p() const { return false; }
}

// ------------------------------------------------------------------ containers
namespace std
{
   namespace __detail
   {
      void _List_node_base::_M_hook( _List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
      void _List_node_base::_M_unhook() noexcept { auto n = this->_M_next; auto p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
      void _List_node_base::_M_transfer( _List_node_base* const first, _List_node_base* const last) noexcept
      {
         if( this != last)
         {
            last->_M_prev->_M_next = this;
            first->_M_prev->_M_next = last;
            this->_M_prev->_M_next = first;
            auto t = this->_M_prev;
            this->_M_prev = last->_M_prev;
            last->_M_prev = first->_M_prev;
            first->_M_prev = t;
         }
      }
      void _List_node_base::swap( _List_node_base& x, _List_node_base& y) noexcept
      {
         if( x._M_next != &x)
         {
            if( y._M_next != &y)
            {
               std::swap( x._M_next, y._M_next); std::swap( x._M_prev, y._M_prev);
               x._M_next->_M_prev = x._M_prev->_M_next = &x;
               y._M_next->_M_prev = y._M_prev->_M_next = &y;
            }
            else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
         }
         else if( y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
      }
      void _List_node_base::_M_reverse() noexcept { auto t = this; do { std::swap( t->_M_next, t->_M_prev); t = t->_M_prev; } while( t != this); }
      // hashing policy: any growth policy is a correct one; power of two bucket counts
      std::size_t _Prime_rehash_policy::_M_next_bkt( std::size_t n) const { std::size_t b = 13; while( b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
      std::pair< bool, std::size_t> _Prime_rehash_policy::_M_need_rehash( std::size_t bkt, std::size_t elt, std::size_t ins) const
      {
         if( elt + ins > _M_next_resize || _M_next_resize == 0)
         {
            std::size_t want = elt + ins;
            if( want < 11) want = 11;
            if( want > bkt || bkt == 1) return { true, _M_next_bkt( want > bkt * 2 ? want : bkt * 2)};
            _M_next_resize = bkt;
            return { false, 0};
         }
         return { false, 0};
      }
   }
   // any function is a correct hash; constant keeps symbolic keys in one bucket
   size_t _Hash_bytes( const void*, size_t, size_t) { return 0; }

   static _Rb_tree_node_base* inc( _Rb_tree_node_base* x)
   {
      if( x->_M_right) { x = x->_M_right; while( x->_M_left) x = x->_M_left; }
      else { auto y = x->_M_parent; while( x == y->_M_right) { x = y; y = y->_M_parent; } if( x->_M_right != y) x = y; }
      return x;
   }
   static _Rb_tree_node_base* dec( _Rb_tree_node_base* x)
   {
      if( x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
      else if( x->_M_left) { auto y = x->_M_left; while( y->_M_right) y = y->_M_right; x = y; }
      else { auto y = x->_M_parent; while( x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
      return x;
   }
   _Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x) throw() { return inc( x); }
   const _Rb_tree_node_base* _Rb_tree_increment( const _Rb_tree_node_base* x) throw() { return inc( const_cast< _Rb_tree_node_base*>( x)); }
   _Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x) throw() { return dec( x); }
   const _Rb_tree_node_base* _Rb_tree_decrement( const _Rb_tree_node_base* x) throw() { return dec( const_cast< _Rb_tree_node_base*>( x)); }
   // search tree without balancing: same observable behaviour
   void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
   {
      x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
      if( left)
      {
         p->_M_left = x;
         if( p == &h) { h._M_parent = x; h._M_right = x; }
         else if( p == h._M_left) h._M_left = x;
      }
      else { p->_M_right = x; if( p == h._M_right) h._M_right = x; }
      h._M_color = _S_red;
   }
   _Rb_tree_node_base* _Rb_tree_rebalance_for_erase( _Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
   {
      auto& root = h._M_parent; auto& leftmost = h._M_left; auto& rightmost = h._M_right;
      _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = nullptr;
      if( ! y->_M_left) x = y->_M_right;
      else if( ! y->_M_right) x = y->_M_left;
      else { y = y->_M_right; while( y->_M_left) y = y->_M_left; x = y->_M_right; }
      if( y != z)
      {
         z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
         if( y != z->_M_right)
         {
            if( x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
         }
         if( root == z) root = y;
         else if( z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
         else z->_M_parent->_M_right = y;
         y->_M_parent = z->_M_parent;
         y = z;
      }
      else
      {
         if( x) x->_M_parent = y->_M_parent;
         if( root == z) root = x;
         else if( z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
         else z->_M_parent->_M_right = x;
         if( leftmost == z) { if( ! z->_M_right) leftmost = z->_M_parent; else { auto m = x; while( m->_M_left) m = m->_M_left; leftmost = m; } }
         if( rightmost == z) { if( ! z->_M_left) rightmost = z->_M_parent; else { auto m = x; while( m->_M_right) m = m->_M_right; rightmost = m; } }
      }
      return y;
   }
}

// ------------------------------------------------------------------ filesystem paths (kept as text, never split in components)
extern "C"
{
   void _ZNSt10filesystem7__cxx114path5_ListC1Ev( void** self) { *self = nullptr; }
   void _ZNSt10filesystem7__cxx114path5_ListC1ERKS2_( void** self, void* const*) { *self = nullptr; }
   void _ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE( void*, void*) {}
   void _ZNSt10filesystem7__cxx114path14_M_split_cmptsEv( void*) {}
}

namespace std::filesystem
{
   path& path::operator /= ( const path& other)
   {
      if( ! _M_pathname.empty() && _M_pathname.back() != '/')
         _M_pathname += '/';
      _M_pathname += other._M_pathname;
      return *this;
   }
}
