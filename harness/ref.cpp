// Extraction unit for include/refcount.h: calls every operation of RefCounted and Ref<>.  Private members are made visible only to
// report the layout of the state the contracts describe; nothing is redefined.
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <atomic>
#include <new>
#include <assert.h>
#define private public
#define protected public
#include <refcount.h>
#undef private
#undef protected
struct Base : public RefCounted { long b; Base(long x) : b(x) {} Base(const Base& n) : b(n.b) {} };
struct Node : public Base { long data; Node(long d, long x) : Base(x), data(d) {} Node(const Node& n) : Base(n), data(n.data) {}
	bool operator==(const Node& o) const { return data == o.data; } bool operator!=(const Node& o) const { return data != o.data; } bool operator<(const Node& o) const { return data < o.data; } bool operator>(const Node& o) const { return data > o.data; } };
typedef Ref<Node> R;
typedef Ref<Base> RB;
extern "C" {
	unsigned long L_sizeN() { return sizeof(Node); }
	unsigned long L_sizeR() { return sizeof(R); }
	unsigned long L_rc() { return offsetof(Node, ref_count); }
	unsigned long L_data() { return offsetof(Node, data); }
	unsigned long L_b() { return offsetof(Node, b); }
	unsigned long L_ptr() { return 0; } static_assert(sizeof(R) == sizeof(void*), "a Ref is just its pointer");
	Node* mk_node(long d, long b) { return new Node(d, b); }
	void n_dtor(Node* n) { n->~Node(); }
	void rc_add(Node* n) { n->AddRef(); }
	void rc_release(Node* n) { n->Release(); }
	int rc_get(Node* n) { return n->GetRefCount(); }

	void r_default(R* r) { new (r) R(); }
	void r_new(R* r, Node* n) { new (r) R(n); }
	void r_copy(R* r, const R* a) { new (r) R(*a); }
	void r_assign(R* a, const R* b) { *a = *b; }
	void r_assign_raw(R* a, Node* n) { *a = n; }
	void r_dtor(R* a) { a->~R(); }
	Node* r_get(const R* a) { return *a; }
	Node* r_arrow(const R* a) { return a->operator->(); }
	Node* r_star(const R* a) { return &**a; }
	bool r_bool(const R* a) { return (bool)*a; }
	int r_count(R* a) { return a->GetRefCount(); }
	void r_unshare(R* a) { a->Unshare(); }
	void r_up(RB* r, R* a) { new (r) RB(a->Cast<Base>()); }
	void r_down(R* r, RB* a) { new (r) R(a->Cast<Node>()); }
	void r_swap(R* a, R* b) { R t(*a); *a = *b; *b = t; }
	int r_eq(const R* a, const R* b) { return *a == *b; }
	int r_ne(const R* a, const R* b) { return *a != *b; }
	int r_lt(const R* a, const R* b) { return *a < *b; }
	int r_gt(const R* a, const R* b) { return *a > *b; }
	void r_temp(R* a) { R t(*a); R u; u = t; t = u; u = (Node*)0; }
}
