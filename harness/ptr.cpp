// Extraction unit: calls every public operation of the guarded pointers (include/char_ptr.h, include/utf8_ptr.h) on a pointer
// with origin o and position d.  The subclasses only set the position; all behaviour is the library's.
#include <char_ptr.h>
#include <utf8_ptr.h>
struct NC : NulGuardedCharPtr { NC(const char*, const char* d) : NulGuardedCharPtr(d) {} };
struct GC : GuardedCharPtr { GC(const char* o, const char* d) : GuardedCharPtr(o) { data = d; } };
struct NU : NulGuardedUTF8Ptr { NU(const char*, const char* d) : NulGuardedUTF8Ptr(d) {} };
struct GU : GuardedUTF8Ptr { GU(const char* o, const char* d) : GuardedUTF8Ptr(o) { data = d; } };
#define W(P,C,T) extern "C" { \
	const char* P##_addeq(const char* o, const char* d, int i) { T p(o, d); p += i; return p; } \
	const char* P##_addeq_r(const char* o, const char* d, int i) { T p(o, d); return p += i; } \
	const char* P##_add(const char* o, const char* d, int i) { T p(o, d); C q(p + i); return q; } \
	const char* P##_add_src(const char* o, const char* d, int i) { T p(o, d); C q(p + i); return p; } \
	const char* P##_subeq(const char* o, const char* d, int i) { T p(o, d); p -= i; return p; } \
	const char* P##_sub(const char* o, const char* d, int i) { T p(o, d); C q(p - i); return q; } \
	const char* P##_sub_src(const char* o, const char* d, int i) { T p(o, d); C q(p - i); return p; } \
	const char* P##_preinc(const char* o, const char* d) { T p(o, d); ++p; return p; } \
	const char* P##_preinc_r(const char* o, const char* d) { T p(o, d); return ++p; } \
	const char* P##_postinc(const char* o, const char* d) { T p(o, d); p++; return p; } \
	const char* P##_postinc_r(const char* o, const char* d) { T p(o, d); return p++; } \
	const char* P##_predec(const char* o, const char* d) { T p(o, d); --p; return p; } \
	const char* P##_predec_r(const char* o, const char* d) { T p(o, d); return --p; } \
	const char* P##_postdec(const char* o, const char* d) { T p(o, d); p--; return p; } \
	const char* P##_postdec_r(const char* o, const char* d) { T p(o, d); return p--; } \
	bool P##_eof(const char* o, const char* d) { T p(o, d); return p.at_eof(); } \
	const char* P##_copy(const char* o, const char* d) { T p(o, d); C q(p); C r; r = q; return r; } \
	long P##_dist(const char* o, const char* d) { T p(o, d); return p - o; } \
	}
W(nc, NulGuardedCharPtr, NC)
W(gc, GuardedCharPtr, GC)
W(nu, NulGuardedUTF8Ptr, NU)
W(gu, GuardedUTF8Ptr, GU)
// copies made from a const pointer are guarded the same
#define CC(P,C,T) extern "C" const char* P##_ccopy_move(const char* o, const char* d, int i) { T p(o, d); const C& c = p; C q(c); q += i; return q; }
CC(nc, NulGuardedCharPtr, NC)
CC(gc, GuardedCharPtr, GC)
CC(nu, NulGuardedUTF8Ptr, NU)
CC(gu, GuardedUTF8Ptr, GU)
extern "C" {
	bool gc_bot(const char* o, const char* d) { GC p(o, d); return p.at_bot(); }
	bool gu_bot(const char* o, const char* d) { GU p(o, d); return p.at_bot(); }
	// a copy is still guarded by the same origin
	const char* gc_copy_back(const char* o, const char* d, int i) { GC p(o, d); GuardedCharPtr q(p); GuardedCharPtr r; r = q; r += i; return r; }
	const char* gu_copy_back(const char* o, const char* d, int i) { GU p(o, d); GuardedUTF8Ptr q(p); GuardedUTF8Ptr r; r = q; r += i; return r; }
	char nc_deref(const char* o, const char* d) { NC p(o, d); return *p; }
	char gc_deref(const char* o, const char* d) { GC p(o, d); return *p; }
	UCS4 nu_deref(const char* o, const char* d) { NU p(o, d); return *p; }
	UCS4 gu_deref(const char* o, const char* d) { GU p(o, d); return *p; }
}
