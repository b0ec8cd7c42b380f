// An independent model of Variant, for the oracles of C17 and C19.
#include <atomic>
#include <map>
#include <new>
#include <functional>
#include <assert.h>
#include <setjmp.h>
#include <stdio.h>
#include <cstdio>
#include <stdlib.h>
extern "C" void __assert_fail(const char*, const char*, unsigned, const char*) noexcept { abort(); }
static int vm_quiet(const char*, ...) { return 0; }
#define printf vm_quiet
#include <variant.h>
#undef printf
#include "common.h"
static long live = 0;
void* operator new(size_t n) { live++; return malloc(n); }
void* operator new[](size_t n) { live++; return malloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
static sigjmp_buf vm_jmp;
static bool vm_abortable = false, vm_aborted = false;
static void vm_sig(int s) { if (vm_abortable) siglongjmp(vm_jmp, 1); rp_sig(s); }
// does it abort?  (what it leaves behind is leaked)
static bool aborts(const std::function<void()>& f)
{
	signal(SIGABRT, vm_sig);
	vm_abortable = true;
	bool a = true;
	if (sigsetjmp(vm_jmp, 1) == 0) { f(); a = false; } else vm_aborted = true;
	vm_abortable = false;
	return a;
}
struct MV
{
	int t; long long n; std::string s; std::vector<std::string> sa; std::vector<MV> va; std::map<std::string, MV> m;
	MV(int _t = 0, long long _n = 0) : t(_t), n(_n) {}
	bool operator==(const MV& o) const { return t == o.t && n == o.n && s == o.s && sa == o.sa && va == o.va && m == o.m; }
};
static const char* vm_names[] = {"None", "Integer", "Long", "LongLong", "String", "StrArray", "VarArray", "StrVarMap"};
static std::string vm_show(const MV& v)
{
	std::string r = std::string(vm_names[v.t])+":";
	if (v.t >= 1 && v.t <= 3) r += std::to_string(v.n);
	if (v.t == 4) r += '"'+v.s+'"';
	if (v.t == 5) for (auto& x : v.sa) r += '"'+x+"\" ";
	if (v.t == 6) { r += "["; for (auto& x : v.va) r += vm_show(x)+" "; r += "]"; }
	if (v.t == 7) { r += "{"; for (auto& x : v.m) r += x.first+"="+vm_show(x.second)+" "; r += "}"; }
	return r;
}
static std::string vm_str(const StrVal& s) { StrValIndex n; const char* p = s.asUTF8(n); return std::string(p, n); }
static MV vm_get(const Variant& v)		// by the const accessors
{
	MV r(v.type());
	switch (v.type())
	{
	case Variant::Integer: r.n = v.as_int(); break;
	case Variant::Long: r.n = v.as_long(); break;
	case Variant::LongLong: r.n = v.as_longlong(); break;
	case Variant::String: r.s = vm_str(v.as_strval()); break;
	case Variant::StrArray: { StringArray a = v.as_string_array(); for (unsigned i = 0; i < a.length(); i++) r.sa.push_back(vm_str(a[i])); } break;
	case Variant::VarArray: { VariantArray a = v.as_variant_array(); for (unsigned i = 0; i < a.length(); i++) r.va.push_back(vm_get(a[i])); } break;
	case Variant::StrVarMap: { StrVariantMap m = v.as_variant_map(); for (auto i = m.begin(); i != m.end(); i++) r.m[vm_str(i->first)] = vm_get(i->second); } break;
	default: break;
	}
	return r;
}
static void vm_same(const Variant& v, const MV& m, const char* what)
{
	MV g = vm_get(v);
	if (!(g == m)) rp_fail("%s: got %s, expected %s", what, vm_show(g).c_str(), vm_show(m).c_str());
	if (v.is_null() != (m.t == 0)) rp_fail("%s: is_null", what);
	if (strcmp(v.type_name(), vm_names[m.t])) rp_fail("%s: type_name %s, expected %s", what, v.type_name(), vm_names[m.t]);
}
// numbers, as asInt32 reads them with radix 0 (spaces around, sign, 0x/0b/0 prefixes)
static bool vm_num(const std::string& s, long long& out)
{
	size_t i = 0, e = s.size();
	while (i < e && s[i] == ' ') i++;
	bool neg = false;
	if (i < e && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; while (i < e && s[i] == ' ') i++; }
	int radix = 10;
	if (i+1 < e && s[i] == '0')
	{
		if (s[i+1] == 'x' || s[i+1] == 'X') radix = 16, i += 2;
		else if (s[i+1] == 'b' || s[i+1] == 'B') radix = 2, i += 2;
		else if (s[i+1] >= '0' && s[i+1] <= '9') radix = 8;
	}
	size_t b = i; long long v = 0;
	for (; i < e; i++)
	{
		int c = s[i], d = c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'z' ? c-'a'+10 : c >= 'A' && c <= 'Z' ? c-'A'+10 : 99;
		if (d >= radix) break;
		v = v*radix+d;
		if (v > 0xFFFFFFFFFFll) return false;
	}
	if (i == b) return false;
	while (i < e && s[i] == ' ') i++;
	if (i != e) return false;
	if (neg) v = -v;
	if (v > INT32_MAX || v < INT32_MIN) return false;
	out = v;
	return true;
}
static std::string vm_text(Rng& r)
{
	static const char* w[] = {"", "a", "b", "key", "x\"y", "tab\t", "0", "7", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "12x", " 42 ", "0x1F", "0b101", "017", "99999999999", "x", "- 3", "+8", "\xC3\xA9t\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "a/b\\c", "\x01\x1F", "long text that is longer than the others are"};
	if (r.chance(80)) return w[r.below(sizeof w/sizeof *w)];
	return std::to_string((int)r.u()>>r.below(32));
}
static long long vm_int(Rng& r)
{
	static const long long w[] = {0, 1, -1, INT32_MAX, INT32_MIN, INT32_MAX+1ll, INT32_MIN-1ll, INT64_MAX, INT64_MIN, 0x100000000ll, 0xFFFFFFFFll, 0x1FFFFFFFFll, -0x100000000ll};
	if (r.chance(70)) return w[r.below(13)];
	return (long long)r.next() >> r.below(63);
}
// a random value, as both
static MV vm_make(Rng& r, Variant& v, int depth)
{
	MV m(r.below(depth > 0 ? 8 : 5));
	switch (m.t)
	{
	case 0: v = Variant(); break;
	case 1: m.n = (int)vm_int(r); v = Variant((int)m.n); break;
	case 2: m.n = vm_int(r); v = Variant((long)m.n); break;
	case 3: m.n = vm_int(r); v = Variant((long long)m.n); break;
	case 4: m.s = vm_text(r); if (r.chance(50)) v = Variant(StrVal(m.s.c_str())); else v = Variant(m.s.c_str()); break;
	case 5:
		{
			int n = r.below(4);
			StringArray a; StrVal c[4];
			for (int i = 0; i < n; i++) { m.sa.push_back(vm_text(r)); c[i] = StrVal(m.sa[i].c_str()); a.append(c[i]); }
			if (r.chance(50)) v = Variant(a); else v = Variant(c, n);
		} break;
	case 6:
		{
			int n = r.below(4);
			VariantArray a; Variant c[4];
			for (int i = 0; i < n; i++) { m.va.push_back(vm_make(r, c[i], depth-1)); a.append(c[i]); }
			if (r.chance(50)) v = Variant(a); else v = Variant(c, n);
		} break;
	case 7:
		{
			int n = r.below(4);
			StrVariantMap a; StrVal k[4]; Variant c[4];
			for (int i = 0; i < n; i++) { std::string s = vm_text(r); k[i] = StrVal(s.c_str()); MV e = vm_make(r, c[i], depth-1); m.m.insert(std::make_pair(s, e)); a.insert(k[i], c[i]); }
			if (r.chance(50)) v = Variant(a); else v = Variant(k, c, n);
		} break;
	}
	return m;
}
