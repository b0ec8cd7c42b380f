// Extraction unit: class Pegexp (include/pegexp.h), instantiated for an abstract Source (a position; what is there is left to the contracts)
// and an abstract Context (a history of captures; what a capture is is left to the contracts).  Nothing of Pegexp is redefined here.
#include <stddef.h>
#include <pegexp.h>
extern "C" {
	bool src_eof(long);  UCS4 src_char(long);  long src_next(long);  bool src_bol(long);
	int ctx_count(long);  long ctx_rollback(long, int);
	long ctx_capture(long h, PatternP name, int len, PatternP fp, long fs, PatternP tp, long ts, bool rep);
	void ctx_failure(PatternP, PatternP, long);
	bool px_ext(void* state, void* context);  void px_skip(PatternP*);
}
struct Src
{
	using Char = UCS4;
	long pos;
	Src() : pos(0) {}
	Src(long p) : pos(p) {}
	UCS4 get_char() { UCS4 c = src_char(pos); pos = src_next(pos); return c; }
	bool at_eof() const { return src_eof(pos); }
	bool at_bol() const { return src_bol(pos); }
	bool same(const Src& o) const { return pos == o.pos; }
};
struct Ctx
{
	using Match = PegexpDefaultMatch<PegexpState<Src>>;
	using State = Match::State;
	using Source = Src;
	int capture_disabled, repetition_nesting;
	long hist;
	Ctx() : capture_disabled(0), repetition_nesting(0), hist(0) {}
	int capture_count() const { return ctx_count(hist); }
	int capture(PatternP n, int l, Match m, bool r)
	{ hist = ctx_capture(hist, n, l, m.from.pattern, m.from.source.pos, m.to.pattern, m.to.source.pos, r); return ctx_count(hist); }
	void rollback_capture(int c) { hist = ctx_rollback(hist, c); }
	void record_failure(PatternP a, PatternP b, Src s) { ctx_failure(a, b, s.pos); }
	Match match_failure(State at) { return Match(at, at); }
	Match match_result(State from, State to) { return Match(from, to); }
};
typedef Pegexp<Ctx> Px;
template class Pegexp<Ctx>;
struct Ex : Px			// any extension
{
	Ex(PatternP p) : Px(p) {}
	bool match_extended(State& s, Ctx* c) override { return px_ext(&s, c); }
	void skip_extended(PatternP& p) override { px_skip(&p); }
};
extern "C" {
	Px* mk_px(PatternP p) { return new Ex(p); }
	Px* mk_plain(PatternP p) { return new Px(p); }
	PegexpState<Src>* mk_state(PatternP p, long s) { return new PegexpState<Src>(p, s); }
	Ctx* mk_ctx() { return new Ctx; }
	Src* mk_src(long s) { return new Src(s); }
	Ctx::Match* mk_match() { return new Ctx::Match(); }
	size_t L_pat() { return offsetof(PegexpState<Src>, pattern); }
	size_t L_src() { return offsetof(PegexpState<Src>, source); }
	size_t L_dis() { return offsetof(Ctx, capture_disabled); }
	size_t L_rep() { return offsetof(Ctx, repetition_nesting); }
	size_t L_hist() { return offsetof(Ctx, hist); }
	size_t L_match() { return sizeof(Ctx::Match); }
	size_t L_from() { return offsetof(Ctx::Match, from); }
	size_t L_to() { return offsetof(Ctx::Match, to); }
	bool m_fail(const Ctx::Match* m) { return m->is_failure(); }
}
