// The configurations of the lockstep engine.
#if VP_CFG == 1    // untimed, objects that watch their lifetime, supplied functions
using T = Config<TKey, TVal, false, true>;
const char* const name = "untimed, tracked objects, own functions";
#elif VP_CFG == 2  // untimed, strings, default functions
using T = Config<std::string, std::string, false, false>;
const char* const name = "untimed, strings";
#elif VP_CFG == 3  // timed, default duration, supplied functions
using T = Config<TKey, TVal, true, true>;
const char* const name = "timed, tracked objects, own functions";
#elif VP_CFG == 4  // timed, integral milliseconds, default functions
using T = Config<int, std::string, true, false, std::chrono::milliseconds>;
const char* const name = "timed, integral ms";
#elif VP_CFG == 5  // untimed, plain integers, default functions
using T = Config<int, int, false, false>;
const char* const name = "untimed, ints";
#elif VP_CFG == 6  // untimed, scoped enumeration, over-aligned values with hostile operators
#include "types.hpp"
using T = Config<WideKey, Hostile, false, false>;
const char* const name = "untimed, enum to over-aligned";
#elif VP_CFG == 7  // timed, integral microseconds, pointers to vectors
#include "types.hpp"
using T = Config<const char*, std::vector<int>, true, false, std::chrono::microseconds>;
const char* const name = "timed, integral us, pointers to vectors";
#elif VP_CFG == 8  // timed, floating point seconds, values made of anything
#include "types.hpp"
using T = Config<double, Anything, true, false, std::chrono::duration<double>>;
const char* const name = "timed, seconds, doubles to anything";
#endif
