#include "common.h"
#include <cstdlib>
#include <cstddef>
#include <climits>
#include <functional>
#include <atomic>
#include <assert.h>
#include <strval.h>
typedef std::vector<uint32_t> V;
static std::string enc(const V& v)
{
	std::string s;
	for (uint32_t c : v)
		if (c < 0x80) s += (char)c;
		else if (c < 0x800) { s += (char)(0xC0|c>>6); s += (char)(0x80|(c&63)); }
		else if (c < 0x10000) { s += (char)(0xE0|c>>12); s += (char)(0x80|((c>>6)&63)); s += (char)(0x80|(c&63)); }
		else { s += (char)(0xF0|c>>18); s += (char)(0x80|((c>>12)&63)); s += (char)(0x80|((c>>6)&63)); s += (char)(0x80|(c&63)); }
	return s;
}
static int dig(uint32_t c, int r)
{
	int d = UCS4Digit(c);
	if (d < 0 && r > 10) d = c >= 'a' && c <= 'z' ? (int)c-'a'+10 : c >= 'A' && c <= 'Z' ? (int)c-'A'+10 : -1;
	return d < r || (r == 1 && d == 1) ? d : -1;
}
static void check(const V& v, int radix)
{
	std::string u = enc(v);
	rp_setcase("asInt32 of \"%s\" (%s) radix %d", u.c_str(), rp_hex(u.data(), u.size()).c_str(), radix);
	int n = v.size(), i = 0, err = 0, scan_lo, scan_hi; long long val = 0; bool neg = false;
	auto at = [&](int k) { return k < n ? v[k] : 0u; };
	if (radix < 0 || radix > 36) { err = STRERR_ILLEGAL_RADIX; scan_lo = scan_hi = 0; }
	else
	{
		int r = radix; bool over = false, none = false;
		unsigned __int128 x = 0;
		while (i < n && UCS4IsWhite(v[i])) i++;
		if (i < n && (v[i] == '+' || v[i] == '-')) { neg = v[i] == '-'; i++; while (i < n && UCS4IsWhite(v[i])) i++; }
		none = i == n;
		if (!none)
		{
			bool z = UCS4Digit(v[i]) == 0 && i+1 < n;
			if (z && (at(i+1)|32) == 'x' && at(i+1) < 128 && (r == 0 || r == 16)) { r = 16; i += 2; }
			else if (z && (at(i+1)|32) == 'b' && at(i+1) < 128 && (r == 0 || r == 2)) { r = 2; i += 2; }
			else if (r == 0) r = z ? 8 : 10;
			none = i == n;
		}
		if (none) { err = STRERR_NO_DIGITS; scan_lo = scan_hi = n; }
		else if (dig(v[i], r) < 0) { err = STRERR_NOT_NUMBER; scan_lo = scan_hi = i; }
		else
		{
			int b = i;
			for (; i < n && dig(v[i], r) >= 0; i++) if (!over) { x = x*r+dig(v[i], r); over = (x>>64) != 0; }
			if (over) { err = STRERR_NUMBER_OVERFLOW; scan_lo = b+1; scan_hi = i; }
			else
			{
				while (i < n && UCS4IsWhite(v[i])) i++;
				scan_lo = scan_hi = i;
				if (x > (unsigned __int128)INT32_MAX+(neg ? 1 : 0)) err = STRERR_NUMBER_OVERFLOW;
				else if (i != n) err = STRERR_TRAIL_TEXT;
				val = (int32_t)(uint32_t)(neg ? -(uint64_t)x : (uint64_t)x);
			}
		}
	}
	StrVal s(u.c_str());
	for (int m = 0; m < 4; m++)
	{
		ErrNum e(STRERR_SET, 77); StrValIndex sc = 12345;
		int32_t got = s.asInt32(m&1 ? &e : 0, radix, m&2 ? &sc : 0);
		if (got != val) rp_fail("the value is %d, expected %lld", got, val);
		if (m&1 && (int32_t)e != (err ? (int32_t)ErrNum(STRERR_SET, err) : 0)) rp_fail("the error is %d, expected %d", (int32_t)e & 0xFF, err);
		if (m&2 && ((int)sc < scan_lo || (int)sc > scan_hi)) rp_fail("%u characters were scanned, expected %d", (unsigned)sc, scan_lo);
	}
	rp_evals++;
}
static uint32_t mk(uint32_t c, int w, int d)
{
	if (c < 0xD800 && c && (int)UCS4IsWhite(c) == w && UCS4Digit(c) == d) return c;
	if (w) return ' ';
	return d >= 0 ? '0'+d : c && c < 0xD800 ? c : '!';
}
static void rp_hint(char* l)
{
	// n radix c/w/d ...
	int radix, n, k = 0; char* p = l;
	if (sscanf(p, "%d %d%n", &n, &radix, &k) != 2) return;
	p += k;
	V v; unsigned c; int w, d;
	while (sscanf(p, " %u/%d/%d%n", &c, &w, &d, &k) == 3) { v.push_back(mk(c, w, d)); p += k; }
	check(v, radix);
}
static void rp_search(Rng& r, double until)
{
	static const uint32_t blanks[] = {' ', ' ', '\t', '\n', 0xA0, 0x3000}, other[] = {'x', 'X', 'b', 'B', '.', '-', '+', 'z', 'g', '_', 0xE9, 0x20AC, 0x1F600, 0x660, 0x6F5, 0xFF11};
	while (rp_now() < until)
	{
		alarm(20);
		int radix = r.chance(50) ? (int[]){0, 2, 8, 10, 16, 36, 1}[r.below(7)] : (int)r.below(40)-1;
		if (r.chance(2)) radix = (int)r.u();
		V v;
		for (int k = r.below(3); k-- > 0; ) v.push_back(blanks[r.below(6)]);
		if (r.chance(40)) { v.push_back(r.chance(70) ? '-' : '+'); if (r.chance(20)) v.push_back(blanks[r.below(6)]); }
		int use = radix;
		if (r.chance(40)) { v.push_back('0'); if (r.chance(80)) { bool x = r.chance(50); v.push_back(x ? (r.chance(50) ? 'x' : 'X') : (r.chance(50) ? 'b' : 'B')); if (radix == 0) use = x ? 16 : 2; } else if (radix == 0) use = 8; }
		if (use == 0) use = 10;
		if (use > 0 && use <= 36)
		{
			static const unsigned __int128 one = 1, near[] = {0, 7, one<<31, one<<32, one<<33, one<<63, one<<64, (one<<64)+(one<<32), one<<65, one<<68};
			unsigned __int128 x = near[r.below(10)];
			int delta = (int)r.below(5)-2;
			if (r.chance(30)) x = ((unsigned __int128)r.next())>>r.below(64);
			if (x || delta > 0) x += delta;
			if (use == 1) x = 0;
			V d; do { int q = (int)(x%use); x /= use; d.insert(d.begin(), q < 10 ? (r.chance(5) ? 0x660+q : '0'+q) : (r.chance(50) ? 'a' : 'A')+q-10); } while (x);
			if (use == 1) for (int k = r.below(6); k-- > 0; ) d.push_back('0'+r.below(2));
			if (r.chance(10)) d.insert(d.begin(), 1+r.below(40), '0');
			if (r.chance(15)) d.clear();
			if (r.chance(10)) { d.clear(); for (int k = 0; k < 90; k++) d.push_back("0123456789abcdefghijklmnopqrstuvwxyz"[r.below(use > 1 ? use : 2)]); }
			v.insert(v.end(), d.begin(), d.end());
		}
		if (r.chance(25)) for (int k = r.below(3); k-- > 0; ) v.push_back(blanks[r.below(6)]);
		if (r.chance(20)) v.push_back(other[r.below(16)]);
		if (r.chance(10)) { v.clear(); for (int k = r.below(6); k-- > 0; ) v.push_back(r.chance(40) ? blanks[r.below(6)] : r.chance(50) ? '0'+r.below(10) : other[r.below(16)]); }
		for (int j = v.size(); j-- > 0; ) if (!v[j]) v.erase(v.begin()+j);
		check(v, radix);
	}
}
