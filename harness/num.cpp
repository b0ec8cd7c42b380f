// Extraction unit for include/strval.h: reading a number from a StrVal.  Nothing is redefined.
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <climits>
#include <functional>
#include <atomic>
#include <new>
#include <assert.h>
#include <strval.h>
extern "C" {
	unsigned long L_sizeA() { return sizeof(StrVal); }
	int n_asInt32(const StrVal* a, ErrNum* e, int radix, StrValIndex* scanned) { return a->asInt32(e, radix, scanned); }
	int n_white(UCS4 c) { return UCS4IsWhite(c); }
	int n_errnum(int k) { return k ? (int32_t)ErrNum(STRERR_SET, k) : 0; }
}
