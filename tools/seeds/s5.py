CTX = '''
#include <pegexp.h>
#include <stdio.h>
#include <string>
#include <vector>
struct Cx {
	typedef PegexpDefaultSource Source; typedef PegexpState<Source> State; typedef PegexpDefaultMatch<State> Match;
	int capture_disabled, repetition_nesting; std::vector<std::string> caps;
	Cx() : capture_disabled(0), repetition_nesting(0) {}
	int capture_count() const { return caps.size(); }
	int capture(PatternP n, int l, Match m, bool r) { caps.push_back(std::string(n, l) + "=" + m.from.source.string_to(m.to.source).asUTF8() + (r ? "*" : "")); return caps.size(); }
	void rollback_capture(int n) { caps.resize(n); }
	void record_failure(PatternP, PatternP, Source) {}
	Match match_failure(State a) { return Match(a, a); }
	Match match_result(State a, State b) { return Match(a, b); }
};
// the length matched from the start of the text (-1: none) and the captures
static std::string run(const char* pattern, const char* text)
{
	Cx c; Pegexp<Cx> p(pattern); PegexpDefaultSource s(text);
	Pegexp<Cx>::Match m = p.match_here(s, &c);
	std::string r = m.is_failure() ? "-1" : std::to_string((int)m.to.source.current_byte());
	for (auto& x : c.caps) r += " " + x;
	printf("%s on %s: %s\\n", pattern, text, r.c_str());
	return r;
}
'''
SEEDS = {
's20_skip_range': dict(property='C20', needs='a skipped alternate or repetition whose character class has a range that ends in an escaped closing bracket', breaks='skipping the class ends inside it, so the rest of the pattern is taken from the wrong place',
  edits=[('include/pegexp.h', "				if (*pattern == '-')\n				{\n					pattern++;\n					(void)literal_char(pattern);\n				}\n			}\n			if (*pattern == ']')\n				pattern++;\n			break;", "				if (*pattern == '-' && *++pattern != '\\0')\n					pattern++;\n			}\n			if (*pattern == ']')\n				pattern++;\n			break;")],
  demo=CTX + '''int main() { std::string a = run("*[X-\\\\]]b", "b"), b = run("(|a|[X-\\\\]])b", "ab"); return a == "1" && b == "2" ? 0 : 1; }
'''),
's20_skip_label': dict(property='C20', needs='a label containing an underscore on an atom that is skipped (the rejected alternate, or a repetition that matches nothing)', breaks='skipping stops inside the label, and the rest of the label is matched as pattern',
  edits=[('include/pegexp.h', "			while (isalnum(*pattern) || *pattern == '_')\n				pattern++;\n			if", "			while (isalnum(*pattern) || (*pattern == '_' && pattern[-1] == ':'))\n				pattern++;\n			if")],
  demo=CTX + '''int main() { std::string a = run("?a:x_y:b", "b"), b = run("(|a|b:_x_y:)c", "ac"); return a == "1" && b == "2" ? 0 : 1; }
'''),
's21_octal': dict(property='C21', needs='an octal escape in a pattern whose third digit is not an octal digit', breaks='the digit after the escape is taken for part of it',
  edits=[('include/pegexp.h', "			if (*pattern >= '0' && *pattern <= '7')\n				rc = (rc<<3) + *pattern++-'0';\n", "			if (*pattern >= '0' && *pattern <= '8')\n				rc = (rc<<3) + *pattern++-'0';\n", 1)],
  demo=CTX + '''int main() { std::string a = run("\\\\168", "\\x0E" "8"), b = run("\\\\141", "a"); return a == "2" && b == "1" ? 0 : 1; }
'''),
's21_rep_same': dict(property='C21', needs='a repetition of something that can match nothing after having matched something', breaks='the repetition ends after the first iteration that returns to a place one iteration back, or never',
  edits=[('include/pegexp.h', "				iteration_start = state;\n				state.pattern = repeat_pattern;\n				if (!match_atom(state, context))\n", "				if (repetitions <= 2)\n					iteration_start = state;\n				state.pattern = repeat_pattern;\n				if (!match_atom(state, context))\n")],
  demo='''#include <unistd.h>
''' + CTX + '''int main() { alarm(10); std::string a = run("*(?a)b", "aaab"), b = run("*(?a)b", "aaaaaab"); return a == "4" && b == "7" ? 0 : 1; }
'''),
's22_alt_stale': dict(property='C22', needs='an alternate that captures something and then fails, followed by another alternate that matches', breaks='the capture of the failed alternate is still reported',
  edits=[('include/pegexp.h', "				context->rollback_capture(initial_captures);\n			}\n			break;", "				if (alternate_captures != initial_captures || *next_alternate != '|')\n					context->rollback_capture(initial_captures);\n			}\n			break;")],
  demo=CTX + '''int main() { std::string a = run("(|a:x:b|a:y:c)", "ac"); return a == "2 y=a" ? 0 : 1; }
'''),
's22_lookahead_nest': dict(property='C22', needs='a look-ahead inside a look-ahead, with a label after the inner one', breaks='the label inside the outer look-ahead is captured',
  edits=[('include/pegexp.h', "			context->capture_disabled++;\n			matched", "			context->capture_disabled = 1;\n			matched"), ('include/pegexp.h', "			context->capture_disabled--;\n", "			context->capture_disabled = 0;\n")],
  demo=CTX + '''int main() { std::string a = run("&(!xa:p)a:q", "a"); return a == "1 q=a" ? 0 : 1; }
'''),
's22_rep_flag': dict(property='C22', needs='a repetition inside a repetition', breaks='captures inside are not marked as repeated',
  edits=[('include/pegexp.h', "					context->repetition_nesting > 0\n", "					context->repetition_nesting == 1\n")],
  demo=CTX + '''int main() { std::string a = run("*(*a:x:b:y)", "ab"); return a == "2 x=a* y=b*" ? 0 : 1; }
'''),
}
