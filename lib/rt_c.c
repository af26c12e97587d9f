// C library primitives for the engine (part of the trusted base)
typedef unsigned long size_t;
void* memcpy( void*, const void*, size_t);
size_t strlen( const char*);
void* malloc( size_t);
   int strcmp( const char* a, const char* b) { while( *a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
   int strncmp( const char* a, const char* b, size_t n) { while( n && *a && *a == *b) { ++a; ++b; --n; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
   char* strcpy( char* d, const char* s) { memcpy( d, s, strlen( s) + 1); return d; }
   char* strncpy( char* d, const char* s, size_t n) { size_t i = 0; for( ; i < n && s[ i]; ++i) d[ i] = s[ i]; for( ; i < n; ++i) d[ i] = 0; return d; }
   char* strchr( const char* s, int c) { for( ; ; ++s) { if( *s == (char)c) return (char*)s; if( ! *s) return 0; } }
   char* strdup( const char* s) { size_t n = strlen( s) + 1; char* p = (char*)malloc( n); memcpy( p, s, n); return p; }
char __libc_single_threaded = 1;
