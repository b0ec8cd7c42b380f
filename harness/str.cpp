// Extraction unit for include/strval.h: calls every public operation of StrVal.  Private members are made visible only to report
// the layout of the state the contracts describe and to call the body's own operations; nothing is redefined.
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <climits>
#include <functional>
#include <type_traits>
#include <atomic>
#include <new>
#include <assert.h>
#include <unistd.h>
#define private public
#define protected public
#include <strval.h>
#undef private
#undef protected
typedef StrVal A;
typedef StrBody B;
typedef ArrayBody<char, StrValIndex> AB;
typedef StrBookmark<> M;
template class StrBodyI<StrValIndex>;
template class StrValI<StrValIndex>;
extern "C" {
	unsigned long L_sizeA() { return sizeof(A); }
	unsigned long L_sizeB() { return sizeof(B); }
	unsigned long L_body() { return offsetof(A, body); }
	unsigned long L_offset() { return offsetof(A, offset); }
	unsigned long L_num() { return offsetof(A, num_chars); }
	unsigned long L_mark() { return offsetof(A, mark); }
	unsigned long L_ref() { return offsetof(AB, ref_count); }
	unsigned long L_start() { return offsetof(AB, start); }
	unsigned long L_bnum() { return offsetof(AB, num_elements); }
	unsigned long L_alloc() { return offsetof(AB, num_alloc); }
	unsigned long L_chars() { return offsetof(B, num_chars); }
	B* mk_body() { return new B(); }
	void mk_nulls() { new ((void*)&B::nullBody) B("", StrStatic, 0, 0); new ((void*)&A::null) A(); }
	AB* b_new(const char* d, bool copy, unsigned n, unsigned al) { return new AB(d, copy, n, al); }
	void b_insert(AB* b, unsigned pos, const char* e, unsigned n) { b->insert(pos, e, n); }
	void b_remove(AB* b, unsigned at, int n) { b->remove(at, n); }
	B* s_newbody(const char* d, int dt, unsigned len, unsigned al) { return new B(d, (StrDataType)dt, len, al); }
	unsigned s_bnumChars(B* b) { return b->numChars(); }
	const char* s_bnthChar(B* b, unsigned n, M* m) { return b->nthChar(n, *m); }
	void s_insertBytes(B* b, unsigned pos, const char* e, unsigned n) { b->insertBytes(pos, e, n); }

	void s_copyBody(A* a) { a->copyBody(); }
	void s_unshare(A* a) { a->Unshare(); }
	const char* s_nthc(const A* a, unsigned k) { return a->nthChar(k); }
	const char* s_nthn(A* a, unsigned k) { return a->nthChar(k); }

	void s_default(A* r) { new (r) A(); }
	void s_cstr(A* r, const char* d) { new (r) A(d); }
	void s_static(A* r, const char* d) { new (r) A(d, StrStatic); }
	void s_data(A* r, const char* d, unsigned n) { new (r) A(d, n); }
	void s_data3(A* r, const char* d, unsigned n, unsigned long al) { new (r) A(d, n, al); }
	void s_ch(A* r, UCS4 c) { new (r) A(c); }
	void s_body(A* r, B* b) { new (r) A(b); }
	void s_copy(A* r, const A* a) { new (r) A(*a); }
	void s_ref(A* r, const A* a) { StrRef q(*a); new (r) A(q); }
	void s_assign(A* a, const A* b) { *a = *b; }
	void s_dtor(A* a) { a->~A(); }

	unsigned s_length(const A* a) { return a->length(); }
	bool s_empty(const A* a) { return a->isEmpty(); }
	bool s_bool(const A* a) { return (bool)*a; }
	unsigned s_numBytes(const A* a) { return a->numBytes(); }
	UCS4 s_index(const A* a, int i) { return (*a)[i]; }
	const char* s_utf8(A* a) { return a->asUTF8(); }
	const char* s_utf8n(const A* a, unsigned* n) { return a->asUTF8(*n); }
	int s_compare(const A* a, const A* b) { return a->compare(*b); }
	bool s_eq(const A* a, const A* b) { return *a == *b; }
	bool s_ne(const A* a, const A* b) { return *a != *b; }
	bool s_lt(const A* a, const A* b) { return *a < *b; }
	bool s_le(const A* a, const A* b) { return *a <= *b; }
	bool s_ge(const A* a, const A* b) { return *a >= *b; }
	bool s_gt(const A* a, const A* b) { return *a > *b; }
	bool s_cmp2(const A* a, const A* b) { return A::compare(*a, *b); }
	bool s_equiv(const A* a, const A* b) { return A::equiv(*a, *b); }
	void s_substr(A* r, const A* a, unsigned at, int len) { new (r) A(a->substr(at, len)); }
	void s_substr1(A* r, const A* a, unsigned at) { new (r) A(a->substr(at)); }
	void s_head(A* r, const A* a, unsigned n) { new (r) A(a->head(n)); }
	void s_tail(A* r, const A* a, unsigned n) { new (r) A(a->tail(n)); }
	void s_shorter(A* r, const A* a, unsigned n) { new (r) A(a->shorter(n)); }
	int s_find(const A* a, UCS4 c, int after) { return a->find(c, after); }
	int s_rfind(const A* a, UCS4 c, int before) { return a->rfind(c, before); }
	int s_finds(const A* a, const A* b, int after) { return a->find(*b, after); }
	int s_rfinds(const A* a, const A* b, int before) { return a->rfind(*b, before); }
	int s_findAny(const A* a, const A* b, int after) { return a->findAny(*b, after); }
	int s_rfindAny(const A* a, const A* b, int before) { return a->rfindAny(*b, before); }
	int s_findNot(const A* a, const A* b, int after) { return a->findNot(*b, after); }
	int s_rfindNot(const A* a, const A* b, int before) { return a->rfindNot(*b, before); }
	void s_plus(A* r, const A* a, const A* b) { new (r) A(*a + *b); }
	void s_plus_ch(A* r, const A* a, UCS4 c) { new (r) A(*a + c); }
	void s_plus_cstr(A* r, const A* a, const char* d) { new (r) A(*a + d); }
	void s_cstr_plus(A* r, const A* a, const char* d) { new (r) A(operator+<>(d, *a)); }
	void s_mul(A* r, A* a, int n) { new (r) A(*a * n); }
	void s_addeq(A* a, const A* b) { *a += *b; }
	void s_addeq_ch(A* a, UCS4 c) { *a += c; }
	void s_insert(A* a, unsigned pos, const A* b) { a->insert(pos, *b); }
	void s_append(A* a, const A* b) { a->append(*b); }
	void s_prepend(A* a, const A* b) { a->prepend(*b); }
	int s_asInt32(const A* a, ErrNum* e, int radix, unsigned* scanned) { return a->asInt32(e, radix, scanned); }
	void s_asLower(A* r, const A* a) { new (r) A(a->asLower()); }
	void s_asUpper(A* r, const A* a) { new (r) A(a->asUpper()); }
	void s_asJSON(A* r, const A* a) { new (r) A(a->asJSON()); }
	void s_toLower(A* a) { a->toLower(); }
	void s_toUpper(A* a) { a->toUpper(); }
	void s_toJSON(A* a) { a->toJSON(); }
}
