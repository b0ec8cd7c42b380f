// Oracle for C17: as_json against an independent JSON writer, in every layout; toJSON on every character.
#include "variant_model.h"
static std::string esc(const std::string& s)
{
	std::string r;
	for (size_t i = 0; i < s.size(); )
	{
		unsigned char c = s[i];
		char b[16];
		const char* q = strchr("\"\\/\b\f\n\r\t", c);
		if (c && q) { r += '\\'; r += "\"\\/bfnrt"[q-"\"\\/\b\f\n\r\t"]; i++; continue; }
		if (c < 32) { snprintf(b, 16, "\\u%04X", c); r += b; i++; continue; }
		int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
		if (n < 4) { r += s.substr(i, n); i += n; continue; }
		unsigned u = (c&7)<<18 | (s[i+1]&63)<<12 | (s[i+2]&63)<<6 | (s[i+3]&63);
		u -= 0x10000;
		snprintf(b, 16, "\\u%04X\\u%04X", 0xD800+(u>>10), 0xDC00+(u&0x3FF)); r += b;
		i += 4;
	}
	return r;
}
static std::string json(const MV& v, int ind)
{
	std::string sep = ind == -2 ? "," : ind == -1 ? ", " : ",\n"+std::string(2*(ind+1), ' ');
	std::string open = sep.substr(1), close = ind < 0 ? open : open.substr(0, open.size()-2), r;
	int next = ind < 0 ? ind : ind+1, i = 0;
	switch (v.t)
	{
	case 0: return "null";
	case 1: case 2: case 3: return std::to_string(v.n);
	case 4: return '"'+esc(v.s)+'"';
	case 5: r = "["+open; for (auto& x : v.sa) r += (i++ ? sep : std::string())+'"'+esc(x)+'"'; return r+close+"]";
	case 6: r = "["+open; for (auto& x : v.va) r += (i++ ? sep : std::string())+json(x, next); return r+close+"]";
	default: r = "{"+open; for (auto& x : v.m) r += (i++ ? sep : std::string())+'"'+esc(x.first)+'"'+(ind == -2 ? ":" : ": ")+json(x.second, next); return r+close+"}";
	}
}
static std::string show(std::string s) { std::string r; char b[8]; for (unsigned char c : s) if (c >= 32 && c < 127) r += c; else { snprintf(b, 8, "\\x%02X", c); r += b; } return r; }
static void one(const MV& m, const Variant& v, int ind)
{
	rp_setcase("as_json(%d) of %s", ind, show(vm_show(m)).c_str()); RP_TICK();
	std::string g = vm_str(v.as_json(ind)), e = json(m, ind);
	if (g != e) rp_fail("got %s, expected %s", show(g).c_str(), show(e).c_str());
	vm_same(v, m, "the value afterwards");
}
static void text(const std::string& s)
{
	rp_setcase("the JSON of the text %s", show(s).c_str()); RP_TICK();
	StrVal t(s.c_str(), (StrValIndex)s.size(), (size_t)0), u(t);
	StrVal j = t.asJSON();
	if (vm_str(j) != esc(s)) rp_fail("asJSON: got %s, expected %s", show(vm_str(j)).c_str(), show(esc(s)).c_str());
	if (vm_str(t) != s || vm_str(u) != s) rp_fail("asJSON changes the text it is asked of");
	StrValIndex n = 0; for (unsigned char c : esc(s)) n += (c & 0xC0) != 0x80;
	if (j.length() != n) rp_fail("asJSON: length %d, expected %d", (int)j.length(), (int)n);
	u.toJSON();
	if (vm_str(u) != esc(s) || vm_str(t) != s) rp_fail("toJSON");
}
static std::string put(unsigned c)
{
	std::string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += 0xC0|c>>6; s += 0x80|(c&63); }
	else if (c < 0x10000) { s += 0xE0|c>>12; s += 0x80|((c>>6)&63); s += 0x80|(c&63); }
	else { s += 0xF0|c>>18; s += 0x80|((c>>12)&63); s += 0x80|((c>>6)&63); s += 0x80|(c&63); }
	return s;
}
static void rp_hint(char* line) { unsigned c = strtoul(line, 0, 10); if (c && c < 0x110000 && (c < 0xD800 || c > 0xDFFF)) { text(put(c)); text("a"+put(c)+"b"); } }
static void rp_search(Rng& r, double until)
{
	for (unsigned c = 1; c < 0x110000; c += c < 0x900 ? 1 : c >= 0xFFF0 && c < 0x10010 ? 1 : c >= 0xD780 && c < 0xE080 ? 1 : 61) if (c < 0xD800 || c > 0xDFFF) text(put(c));
	for (int k = 1; k < 8; k++) { Variant v((Variant::VariantType)k); MV m(k); for (int i = -2; i < 4; i++) one(m, v, i); }
	while (rp_now() < until)
	{
		if (r.chance(30)) { std::string s; int n = r.below(40); for (int i = 0; i < n; i++) { unsigned c = r.chance(50) ? 1+r.below(127) : r.chance(50) ? 1+r.below(0x800) : 1+r.below(0x10FFFE); if (c >= 0xD800 && c < 0xE000) c = '/'; s += put(c); } text(s); continue; }
		Variant v; MV m = vm_make(r, v, 3);
		one(m, v, (int)r.below(6)-2);
	}
}
