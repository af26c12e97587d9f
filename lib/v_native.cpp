// Native runtime of v.h: replay of recorded inputs, or pseudo random exploration.
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <chrono>
#include <exception>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <signal.h>

extern "C" void ENTRY();
extern "C" void __sanitizer_set_death_callback( void (*)( void)) __attribute__(( weak));

namespace
{
   struct Input { std::string name; std::vector< unsigned char> data; bool huge = false; };
   std::vector< Input> recorded;   // replay
   std::size_t cursor = 0;
   std::vector< Input> used;       // this run
   bool replay = true;
   std::jmp_buf again;
   std::uint64_t rng = 88172645463325252ull;
   std::string dumpPath;
   std::vector< std::uint64_t> trace;
   std::vector< std::uint64_t> pool;
   bool done = false;
   std::string current = "crash";

   std::uint64_t next() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull; }

   void dump()
   {
      if( dumpPath.empty() || done) return;
      done = true;
      if( auto f = std::fopen( dumpPath.c_str(), "w"))
      {
         for( auto& i : used)
         {
            std::fprintf( f, "%s ", i.name.empty() ? "-" : i.name.c_str());
            for( auto c : i.data) std::fprintf( f, "%02x", c);
            std::fprintf( f, "%s\n", i.data.empty() ? "-" : "");
         }
         std::fclose( f);
      }
   }
   void onDeath() { std::fprintf( stderr, "V-CRASH after %s\n", current.c_str()); dump(); }
   void onSignal( int) { onDeath(); _exit( 5); }

   std::uint64_t value( std::size_t n)
   {
      auto r = next();
      switch( r % 12)
      {
         case 0: return 0;
         case 1: return 1;
         case 2: case 3: case 4: return ( r >> 8) % 5;
         case 5: return ( r >> 8) % 40;
         case 6: return ~std::uint64_t{ 0} - ( r >> 8) % 4;
         case 7: return ( std::uint64_t{ 1} << ( ( r >> 8) % ( n * 8))) - ( ( r >> 20) % 3);
         case 8: case 9: if( ! pool.empty()) return pool[ ( r >> 8) % pool.size()] + ( ( r >> 40) % 4 == 0 ? ( ( r >> 50) % 3) - 1 : 0); [[fallthrough]];
         case 10: return ( r >> 8) % 256;
         default: return next();
      }
   }
   void fill( unsigned char* p, std::size_t n)
   {
      if( n <= 8)
      {
         auto v = value( n);
         pool.push_back( v);
         std::memcpy( p, &v, n);
         return;
      }
      auto mode = next() % 4;
      for( std::size_t i = 0; i < n; ++i)
      {
         auto r = next();
         p[ i] = mode == 0 ? r : mode == 1 ? ( r % 3) : mode == 2 ? ( "ab,= 0\n\"/_Z"[ r % 11]) : ( r % 4 == 0 ? r >> 8 : 0);
      }
   }
   Input& take( std::size_t n, const char* name)
   {
      Input i;
      i.name = name;
      for( auto& c : i.name) if( c == ' ') c = '_';
      i.data.resize( n);
      if( replay)
      {
         if( cursor < recorded.size())
         {
            auto& r = recorded[ cursor++];
            if( r.huge) { std::printf( "V-INCONCLUSIVE huge input\n"); std::exit( 77); }
            if( r.data.size() != n) { std::printf( "V-DIVERGED size of %s: %zu != %zu\n", name, r.data.size(), n); std::exit( 4); }
            i.data = r.data;
         }
      }
      else fill( i.data.data(), n);
      used.push_back( std::move( i));
      return used.back();
   }
}

extern "C"
{
   void v_sym( void* p, std::size_t size, const char* name) { auto& i = take( size, name); if( size) std::memcpy( p, i.data.data(), size); }
   void* v_alloc( std::size_t size, const char* name)
   {
      if( size > ( 1u << 26)) { if( replay) { std::printf( "V-INCONCLUSIVE huge\n"); std::exit( 77);} std::longjmp( again, 1); }
      auto& i = take( size, name);
      auto p = std::malloc( size);
      if( size) std::memcpy( p, i.data.data(), size);
      return p;
   }
   void v_assume( bool c)
   {
      if( c) return;
      if( replay) { std::printf( "V-DIVERGED assumption\n"); dump(); std::exit( 4); }
      std::longjmp( again, 1);
   }
   void v_assert( bool c, const char* name)
   {
      current = name;
      if( c) return;
      std::printf( "V-FAILED %s\n", name);
      std::fflush( stdout);
      dump();
      std::exit( 3);
   }
   void v_cover( const char* name) { (void)name; }
   void v_bound( const char*) {}
   bool v_native() { return true; }
   std::uint64_t v_concretize( std::uint64_t v) { return v; }
   void v_trace( std::uint64_t v) { trace.push_back( v); }
   void v_size( std::uint64_t) {}
   [[noreturn]] void v_end() { if( replay) std::exit( 4); std::longjmp( again, 1); }
   void v_check_overflow( bool) {}
   bool v_started = false;
   void v_external( const char* name)
   {
      if( ! v_started) return;
      std::printf( "V-EXTERNAL %s\n", name);
      std::exit( 77);
   }
   void v_rt_empty_string( void* p) { new ( p) std::string(); }
}

int main( int argc, char** argv)
{
   v_started = true;
   std::setvbuf( stdout, nullptr, _IOLBF, 0);
   if( __sanitizer_set_death_callback) __sanitizer_set_death_callback( onDeath);
   else for( int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal( s, onSignal);
   std::set_terminate( []{ std::printf( "V-FAILED terminate\n"); std::fflush( stdout); onDeath(); _exit( 3);});
   if( argc >= 3 && std::string( argv[ 1]) == "replay")
   {
      if( argc >= 4) dumpPath = argv[ 3];
      if( auto f = std::fopen( argv[ 2], "r"))
      {
         static char name[ 4096];
         char* line = nullptr; std::size_t cap = 0;
         while( getline( &line, &cap, f) > 0)
         {
            std::string l = line;
            while( ! l.empty() && ( l.back() == '\n' || l.back() == '\r')) l.pop_back();
            auto sp = l.find( ' ');
            if( l.empty() || l[ 0] == '#' || sp == std::string::npos) continue;
            Input i; i.name = l.substr( 0, sp);
            auto hex = l.substr( sp + 1);
            if( hex.rfind( "huge", 0) == 0) i.huge = true;
            else if( hex != "-") for( std::size_t k = 0; k + 1 < hex.size(); k += 2) i.data.push_back( std::stoi( hex.substr( k, 2), nullptr, 16));
            recorded.push_back( i);
         }
         std::fclose( f);
         (void)name;
      }
      alarm( 60);
      ENTRY();
      std::printf( "V-OK\nV-TRACE");
      for( auto t : trace) std::printf( " %llu", (unsigned long long)t);
      std::printf( "\n");
      std::fflush( stdout);
      _exit( 0);
   }
   // random <seed> <iterations> <seconds> <dump>
   replay = false;
   rng ^= std::strtoull( argv[ 2], nullptr, 10) * 0x9E3779B97F4A7C15ull;
   if( ! rng) rng = 1;
   volatile unsigned long long n = std::strtoull( argv[ 3], nullptr, 10), ran = 0, passed = 0;
   static double secs; secs = std::atof( argv[ 4]);
   dumpPath = argv[ 5];
   static auto start = std::chrono::steady_clock::now();
   static std::unordered_set< std::size_t> seen;
   for( ; ran < n; ran = ran + 1)
   {
      if( ran % 64 == 0 && std::chrono::duration< double>( std::chrono::steady_clock::now() - start).count() > secs) break;
      used.clear(); trace.clear(); pool.clear();
      if( setjmp( again)) continue;
      alarm( 20);
      ENTRY();
      std::size_t h = 1469598103934665603ull;
      for( auto& i : used) for( auto c : i.data) h = ( h ^ c) * 1099511628211ull;
      seen.insert( h);
      passed = passed + 1;
   }
   std::printf( "V-RANDOM ran %llu passed %llu distinct %zu\n", (unsigned long long)ran, (unsigned long long)passed, seen.size());
   std::fflush( stdout);
   _exit( 0);
}
