// The same enumeration of calls under one language standard / compiler: writes one 64-bit digest per
// block of answers; the runner compares the digests of all builds and asks for the values of a
// block on which two builds differ.
#ifdef MACRO_PRELUDE   // what a user's other headers may have defined
#define abs(x) ((x) < 0 ? -(x) : (x))
#define min(a, b) ((a) < (b) ? (a) : (b))
#define max(a, b) ((a) > (b) ? (a) : (b))
#define round(x) ((x) + 0.5)
#define signbit(x) ((x) < 0)
#endif
#include "gcem.hpp"
#include "dump.hpp"
