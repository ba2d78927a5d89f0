// uses of the inline assembly that no other probe contains
#include "probe.h"
extern "C" size_t use_FirstBit32 (uint32_t v, uoff_t n) { return FirstBit (v, n); }
extern "C" size_t use_FirstBit64 (uint64_t v, uoff_t n) { return FirstBit (v, n); }
extern "C" uint32_t use_NextPow2 (uint32_t v) { return NextPow2 (v); }
extern "C" bool use_TestAndSet (int* p) { return TestAndSet (p); }
extern "C" void use_array_float (matrix<4,4,float>& m, const tuple<4,float>& t, tuple<4,float>& r) { load_identity (m); r = t * m; m = m * m; }
extern "C" void use_copy_matrix (matrix<4,4,float>& m, const matrix<4,4,float>& n) { m = n; }
extern "C" void use_delimiters (const cmemlink& s) { istringstream is (s); is.set_delimiters (","); }
