// Extraction unit: class Variant (include/variant.h).  Only the odr-uses below are written here; the code verified is the library's own.
#include <stddef.h>
#define private public
#define protected public
#include <variant.h>
#undef private
#undef protected
#include <variant.cpp>
typedef ArrayBody<char, StrValIndex> ChBody;
extern "C" {
	size_t L_size() { return sizeof(Variant); }
	size_t L_tag() { return offsetof(Variant, _type); }
	size_t L_u() { return offsetof(Variant, u); }
	size_t L_str() { return sizeof(StrVal); }
	size_t L_sarr() { return sizeof(StringArray); }
	size_t L_varr() { return sizeof(VariantArray); }
	size_t L_map() { return sizeof(StrVariantMap); }
	void v_none(Variant* p) { new(p) Variant(); }
	void v_int(Variant* p, int i) { new(p) Variant(i); }
	void v_long(Variant* p, long i) { new(p) Variant(i); }
	void v_longlong(Variant* p, long long i) { new(p) Variant(i); }
	void v_str(Variant* p, const StrVal* s) { new(p) Variant(*s); }
	void v_chars(Variant* p, const char* s) { new(p) Variant(s); }
	void v_sarr(Variant* p, const StringArray* a) { new(p) Variant(*a); }
	void v_sarrn(Variant* p, StrVal* a, StringArray::Index n) { new(p) Variant(a, n); }
	void v_varr(Variant* p, const VariantArray* a) { new(p) Variant(*a); }
	void v_varrn(Variant* p, Variant* a, VariantArray::Index n) { new(p) Variant(a, n); }
	void v_mapn(Variant* p, StrVal* k, Variant* a, StringArray::Index n) { new(p) Variant(k, a, n); }
	void v_map(Variant* p, const StrVariantMap* a) { new(p) Variant(*a); }
	void v_type(Variant* p, int t) { new(p) Variant((Variant::VariantType)t); }
	void v_copy(Variant* p, const Variant* q) { new(p) Variant(*q); }
	void v_assign(Variant* p, const Variant* q) { *p = *q; }
	void v_dtor(Variant* p) { p->~Variant(); }
	int v_tag(const Variant* p) { return p->type(); }
	bool v_null(const Variant* p) { return p->is_null(); }
	const char* v_name(const Variant* p) { return p->type_name(); }
	int c_int(const Variant* p) { return p->as_int(); }
	long c_long(const Variant* p) { return p->as_long(); }
	long long c_longlong(const Variant* p) { return p->as_longlong(); }
	void c_str(StrVal* r, const Variant* p) { new(r) StrVal(p->as_strval()); }
	void c_sarr(StringArray* r, const Variant* p) { new(r) StringArray(p->as_string_array()); }
	void c_varr(VariantArray* r, const Variant* p) { new(r) VariantArray(p->as_variant_array()); }
	void c_map(StrVariantMap* r, const Variant* p) { new(r) StrVariantMap(p->as_variant_map()); }
	int* m_int(Variant* p) { return &p->as_int(); }
	long* m_long(Variant* p) { return &p->as_long(); }
	long long* m_longlong(Variant* p) { return &p->as_longlong(); }
	void m_str(StrVal* r, Variant* p) { new(r) StrVal(p->as_strval()); }
	void m_sarr(StringArray* r, Variant* p) { new(r) StringArray(p->as_string_array()); }
	void m_varr(VariantArray* r, Variant* p) { new(r) VariantArray(p->as_variant_array()); }
	void m_map(StrVariantMap* r, Variant* p) { new(r) StrVariantMap(p->as_variant_map()); }
	void v_coerce(Variant* p, int t) { p->coerce((Variant::VariantType)t); }
	void v_shift(VariantArray* r, const Variant* p, const Variant* q) { new(r) VariantArray(*p << *q); }
	void v_shiftc(VariantArray* r, const char* p, const Variant* q) { new(r) VariantArray(p << *q); }
	void v_shifts(VariantArray* r, const StrVal* p, const Variant* q) { new(r) VariantArray(*p << *q); }
	void v_json(StrVal* r, const Variant* p, int indent) { new(r) StrVal(p->as_json(indent)); }
	StrBody* j_body() { return new StrBody; }
	void j_json(StrBody* b) { b->toJSON(); }
	size_t L_body() { return offsetof(StrVal, body); }
	size_t L_offset() { return offsetof(StrVal, offset); }
	size_t L_numchars() { return offsetof(StrVal, num_chars); }
	size_t L_start() { return offsetof(ChBody, start); }
	size_t L_elements() { return offsetof(ChBody, num_elements); }
}
