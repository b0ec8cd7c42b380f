// Oracle for C19: Variants against an independent model; every conversion, and whether it aborts; storage balance.
#include "variant_model.h"
static std::string trace;
static bool convert(const MV& v, int t, MV& out)
{
	if (v.t == t) { out = v; return true; }
	out = MV(t);
	long long n = v.n;
	if (t >= 1 && t <= 3)
	{
		if (v.t == 4) { if (!vm_num(v.s, n)) return false; }
		else if (v.t < 1 || v.t > 3) return false;
		if (t == 1 && n != (int)n) return false;
		out.n = n;
		return true;
	}
	if (t == 4 && v.t >= 1 && v.t <= 3) { out.s = std::to_string(n); return true; }
	return false;
}
static void as(Variant& v, const MV& m, int t)
{
	MV e;
	bool ok = convert(m, t, e);
	char w[80]; snprintf(w, 80, "%s as %s", vm_names[m.t], vm_names[t]);
	auto go = [&]() {
		switch (t)
		{
		case 1: if (v.as_int() != e.n) rp_fail("%s gives %d, expected %s", w, v.as_int(), ok ? std::to_string(e.n).c_str() : "an abort"); break;
		case 2: if (v.as_long() != e.n) rp_fail("%s gives %ld, expected %s", w, v.as_long(), ok ? std::to_string(e.n).c_str() : "an abort"); break;
		case 3: if (v.as_longlong() != e.n) rp_fail("%s gives %lld, expected %s", w, v.as_longlong(), ok ? std::to_string(e.n).c_str() : "an abort"); break;
		case 4: if (vm_str(v.as_strval()) != e.s) rp_fail("%s: text", w); break;
		case 5: v.as_string_array(); break;
		case 6: v.as_variant_array(); break;
		case 7: v.as_variant_map(); break;
		}
	};
	if (ok) { go(); vm_same(v, e, w); }
	else if (!aborts(go)) rp_fail("%s of %s does not abort: it gives %s", w, vm_show(m).c_str(), vm_show(vm_get(v)).c_str());
}
static void run(Rng& r)
{
	trace = ""; trace.reserve(8000);
	long l0 = live;
	vm_aborted = false;
	{
		const int NV = 4;
		Variant a[NV]; MV m[NV];
		trace = "";
		int n = 1+r.below(10);
		for (int i = 0; i < n; i++)
		{
			int o = r.below(9), x = r.below(NV), y = r.below(NV), t = r.below(8);
			trace += " op"+std::to_string(o)+"("+std::to_string(x)+" "+vm_show(m[x])+", "+std::to_string(y)+" "+vm_show(m[y])+", "+std::to_string(t)+")"; rp_setcase("%s", trace.c_str()); RP_TICK();
			switch (o)
			{
			case 0: case 1: { Variant v; MV e = vm_make(r, v, 2); trace += " <- "+vm_show(e); rp_setcase("%s", trace.c_str()); vm_same(v, e, "construction"); a[x] = v; m[x] = e; vm_same(v, e, "a value assigned from"); } break;
			case 2: a[x] = a[y]; m[x] = m[y]; break;
			case 3: { Variant v(a[y]); vm_same(v, m[y], "a copy"); a[x] = v; m[x] = m[y]; } break;
			case 4: { Variant v((Variant::VariantType)t); MV e(t); vm_same(v, e, "a default value"); a[x] = v; m[x] = e; } break;
			case 5: { MV e; if (t && convert(m[x], t, e)) { as(a[x], m[x], t); m[x] = e; } } break;
			case 6: if (t && r.chance(20)) { Variant* v = new Variant(a[x]); MV e; bool ok = convert(m[x], t, e); as(*v, m[x], t); if (ok) delete v; } break;
			case 7: { VariantArray p = r.chance(50) || m[x].t != 4 ? a[x] << a[y] : r.chance(50) ? StrVal(m[x].s.c_str()) << a[y] : m[x].s.c_str() << a[y];
				if (p.length() != 2) rp_fail("<< gives %d values", (int)p.length()); vm_same(p[0], m[x], "<<: the first"); vm_same(p[1], m[y], "<<: the second"); } break;
			case 8: { const Variant& c = a[x]; if (m[x].t != t && t && r.chance(20) && !aborts([&]() { switch (t) { case 1: c.as_int(); break; case 2: c.as_long(); break; case 3: c.as_longlong(); break; case 4: c.as_strval(); break; case 5: c.as_string_array(); break; case 6: c.as_variant_array(); break; case 7: c.as_variant_map(); break; } }))
				rp_fail("const accessor of %s as %s does not abort", vm_names[m[x].t], vm_names[t]); } break;
			}
			for (int i = 0; i < NV; i++) vm_same(a[i], m[i], "afterwards");
		}
	}
	if (!vm_aborted && live != l0) rp_fail("storage: %ld blocks more than before", live-l0);
}
static void rp_hint(char*) {}
static void rp_search(Rng& r, double until)
{
	{ Rng q(7); for (int i = 0; i < 50; i++) run(q); }		// whatever is initialised once
	// every conversion of the boundary values
	static const long long w[] = {0, 1, -1, INT32_MAX, INT32_MIN, INT32_MAX+1ll, INT32_MIN-1ll, INT64_MAX, INT64_MIN, 0xFFFFFFFFll, 0x100000001ll};
	for (long long n : w)
		for (int k = 1; k <= 4; k++)
			for (int t = 1; t <= 7; t++)
			{
				MV m(k, k == 1 ? (int)n : n);
				Variant* v = new Variant(k == 1 ? Variant((int)n) : k == 2 ? Variant((long)n) : k == 3 ? Variant(n) : Variant(std::to_string(n).c_str()));
				if (k == 4) m.s = std::to_string(n), m.n = 0;
				rp_setcase("%s as %s", vm_show(m).c_str(), vm_names[t]); RP_TICK();
				vm_same(*v, m, "construction");
				MV e;
				bool ok = convert(m, t, e);
				as(*v, m, t);
				if (ok) delete v;
			}
	while (rp_now() < until) run(r);
}
