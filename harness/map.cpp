// Extraction unit for include/cowmap.h: calls every public operation of CowMap<int,int>.  Private members are made visible only to
// report the layout of the state the contracts describe; nothing is redefined.  std::map itself is not verified: its operations have contracts.
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <functional>
#include <atomic>
#include <map>
#include <new>
#include <assert.h>
#define private public
#define protected public
#include <refcount.h>
#include <array.h>
#include <cowmap.h>
#undef private
#undef protected
typedef CowMap<int, int> M;
typedef CowMapBody<int, int> B;
typedef Array<int> A;
extern "C" bool pred(int k, int v);		// any pure predicate
extern "C" int newkey(int k, int v);		// any pure functions
extern "C" int newval(int k, int v);
extern "C" int inj(int acc, int k, int v);
extern "C" {
	unsigned long L_sizeM() { return sizeof(M); }
	unsigned long L_sizeB() { return sizeof(B); }
	unsigned long L_ref() { return offsetof(B, ref_count); }
	unsigned long L_map() { B* b = (B*)4096; return (char*)(std::map<int, int>*)b-(char*)b; }
	B* mk_body() { return new B(); }
	void m_default(M* r) { new (r) M(); }
	void m_copy(M* r, const M* a) { new (r) M(*a); }
	void m_data(M* r, const int* k, const int* v, int n) { new (r) M(k, v, n); }
	void m_assign(M* a, const M* b) { *a = *b; }
	void m_dtor(M* a) { a->~M(); }
	int m_index(M* a, const int* k) { return (*a)[*k]; }
	bool m_contains(M* a, const int* k) { return a->contains(*k); }
	bool m_find(M* a, const int* k, int* out) { M::Iter i = a->find(*k); if (i == a->end()) return false; out[0] = i->first; out[1] = i->second; return true; }
	unsigned long m_size(const M* a) { return a->size(); }
	void m_clear(M* a) { a->clear(); }
	void m_insert(M* a, int k, int v) { a->insert(k, v); }
	void m_remove(M* a, const int* k) { a->remove(*k); }
	int m_put(M* a, const int* k, int v) { return a->put(*k, v); }
	unsigned m_iter(const M* a, int* ks, int* vs) { unsigned n = 0; for (M::Iter i = a->begin(); i != a->end(); i++) { ks[n] = i->first; vs[n] = i->second; n++; } return n; }
	unsigned m_each(const M* a, int* ks, int* vs) { unsigned n = 0; a->each([&](const int& k, const int& v) { ks[n] = k; vs[n] = v; n++; }); return n; }
	bool m_all(const M* a) { return a->all([](const int& k, const int& v) { return pred(k, v); }); }
	bool m_any(const M* a) { return a->any([](const int& k, const int& v) { return pred(k, v); }); }
	bool m_one(const M* a) { return a->one([](const int& k, const int& v) { return pred(k, v); }); }
	void m_keys(A* r, const M* a) { new (r) A(a->keys()); }
	void m_values(A* r, const M* a) { new (r) A(a->values()); }
	void m_select(M* r, const M* a) { new (r) M(a->select([](const int& k, const int& v) { return pred(k, v); })); }
	void m_map(M* r, const M* a) { new (r) M(a->map<int, int>([](const int& k, const int& v) { return std::pair<int, int>(newkey(k, v), newval(k, v)); })); }
	int m_inject(const M* a, int start) { return a->inject<int>(start, [](int& acc, const int& k, const int& v) { return inj(acc, k, v); }); }
}
