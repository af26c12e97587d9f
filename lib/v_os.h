// Models of external primitives, shared by the engine and the native runs: arbitrary results within their contract.
#pragma once
#include "v.h"
#include <uuid/uuid.h>

extern "C"
{
#ifdef V_FRESH_IDS
   // every generated identifier is a new one
   void uuid_generate( uuid_t out)
   {
      static unsigned long counter = 0;
      ++counter;
      std::memset( out, 0xA5, 16);
      std::memcpy( out, &counter, sizeof( counter));
   }
#else
   // an identifier that was never generated before is represented by an arbitrary value
   void uuid_generate( uuid_t out) { v_sym( out, 16, "uuid"); }
#endif
   void uuid_copy( uuid_t dst, const uuid_t src) { std::memcpy( dst, src, 16); }
}
