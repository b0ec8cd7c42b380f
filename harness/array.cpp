// Extraction unit for include/array.h: calls every public operation of Array<int>.  Private members are made visible only to
// report the layout of the state the contracts describe; nothing is redefined.
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <functional>
#include <atomic>
#include <new>
#include <assert.h>
#define private public
#define protected public
#include <array.h>
#undef private
#undef protected
typedef Array<int> A;
typedef ArrayBody<int, ArrayIndex> B;
extern "C" bool pred(int e);		// any pure predicate
extern "C" int cmp3(int e);		// any pure comparator
extern "C" int mapf(int e);		// any pure function
extern "C" int injf(int acc, int e);
extern "C" {
	unsigned long L_sizeA() { return sizeof(A); }
	unsigned long L_sizeB() { return sizeof(B); }
	unsigned long L_body() { return offsetof(A, body); }
	unsigned long L_offset() { return offsetof(A, offset); }
	unsigned long L_num() { return offsetof(A, num_elements); }
	unsigned long L_ref() { return offsetof(B, ref_count); }
	unsigned long L_start() { return offsetof(B, start); }
	unsigned long L_bnum() { return offsetof(B, num_elements); }
	unsigned long L_alloc() { return offsetof(B, num_alloc); }
	B* mk_body() { return new B(); }
	B* b_new(const int* d, bool copy, unsigned n, unsigned al) { return new B(d, copy, n, al); }
	void b_insert(B* b, unsigned pos, const int* e, unsigned n) { b->insert(pos, e, n); }
	void b_remove(B* b, unsigned at, int n) { b->remove(at, n); }

	void a_default(A* r) { new (r) A(); }
	void a_data(A* r, const int* d, unsigned n, unsigned al) { new (r) A(d, n, al); }
	void a_one(A* r, int e) { new (r) A(e); }
	void a_copy(A* r, const A* a) { new (r) A(*a); }
	void a_assign(A* a, const A* b) { *a = *b; }
	void a_dtor(A* a) { a->~A(); }
	void a_static(A* r, const int* d, unsigned n) { B* b = new B(d, false, n); new (r) A(b); }
	unsigned a_length(const A* a) { return a->length(); }
	bool a_empty(const A* a) { return a->isEmpty(); }
	int a_index(const A* a, int i) { return (*a)[i]; }
	int a_elem(const A* a, int i) { return a->elem(i); }
	int a_elem_ref(const A* a, int i) { return a->elem_ref(i); }
	int a_last(A* a) { return a->last(); }
	int a_last_ref(const A* a) { return a->last_ref(); }
	int a_asElements(const A* a, int i) { return a->asElements()[i]; }
	int a_pull(A* a) { return a->pull(); }
	void a_elem_mut(A* a, int i, int v) { a->elem_mut(i) = v; }
	void a_last_mut(A* a, int v) { a->last_mut() = v; }
	int a_set(A* a, int i, int v) { return a->set(i, v); }
	int a_compare(const A* a, const A* b) { return a->compare(*b); }
	bool a_eq(const A* a, const A* b) { return *a == *b; }
	bool a_ne(const A* a, const A* b) { return *a != *b; }
	void a_slice(A* r, const A* a, unsigned at, int len) { new (r) A(a->slice(at, len)); }
	void a_slice1(A* r, const A* a, unsigned at) { new (r) A(a->slice(at)); }
	void a_head(A* r, const A* a, unsigned n) { new (r) A(a->head(n)); }
	void a_tail(A* r, const A* a, unsigned n) { new (r) A(a->tail(n)); }
	void a_shorter(A* r, const A* a, unsigned n) { new (r) A(a->shorter(n)); }
	void a_drop(A* r, const A* a, unsigned n) { new (r) A(a->drop(n)); }
	int a_find(const A* a, const int* e, int after) { return a->find(*e, after); }
	int a_rfind(const A* a, const int* e, int before) { return a->rfind(*e, before); }
	int a_findf(const A* a, int after) { std::function<bool(const int&)> f = [](const int& e) { return pred(e); }; return a->find(f, after); }
	int a_rfindf(const A* a, int before) { std::function<bool(const int&)> f = [](const int& e) { return pred(e); }; return a->rfind(f, before); }
	int a_detect(const A* a) { std::function<bool(const int&)> f = [](const int& e) { return pred(e); }; return a->detect(f); }
	bool a_all(const A* a) { return a->all([](const int& e) { return pred(e); }); }
	bool a_any(const A* a) { return a->any([](const int& e) { return pred(e); }); }
	bool a_oneq(const A* a) { return a->one([](const int& e) { return pred(e); }); }
	int a_bsearch(const A* a) { return a->bsearch([](const int& e) { return cmp3(e); }); }
	unsigned a_each(const A* a, int* out) { unsigned k = 0; a->each([&](const int& e) { out[k++] = e; }); return k; }
	void a_map(A* r, const A* a) { new (r) A(a->map<A, int>([](const int& e) { return mapf(e); })); }
	int a_inject(const A* a, int* acc, int* out) { unsigned k = 0; return a->inject<int>(acc[0], [&](int& s, const int& e) { out[k++] = e; return injf(s, e); }); }
	void a_select(A* r, const A* a) { new (r) A(a->select([](const int& e) { return pred(e); })); }
	void a_delete_if(A* a) { a->delete_if([](const int& e) { return pred(e); }); }
	void a_plus(A* r, const A* a, const A* b) { new (r) A(*a + *b); }
	void a_pluse(A* r, const A* a, const int* e) { new (r) A(*a + *e); }
	void a_clear(A* a) { a->clear(); }
	void a_remove(A* a, unsigned at, int len) { a->remove(at, len); }
	void a_remove1(A* a, unsigned at) { a->remove(at); }
	int a_delete_at(A* a, unsigned at) { return a->delete_at(at); }
	void a_addeq(A* a, const A* b) { *a += *b; }
	void a_addeqe(A* a, const int* e) { *a += *e; }
	void a_shl(A* a, const int* e) { *a << *e; }
	void a_push(A* a, const int* e) { a->push(*e); }
	void a_appende(A* a, const int* e) { a->append(*e); }
	void a_append(A* a, const A* b) { a->append(*b); }
	int a_shift(A* a) { return a->shift(); }
	void a_unshift(A* a, const int* e) { a->unshift(*e); }
	void a_insert(A* a, unsigned pos, const A* b) { a->insert(pos, *b); }
	void a_reverse(A* a) { a->reverse(); }
}
