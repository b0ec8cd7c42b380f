V = '''
#include <variant.h>
#include <stdio.h>
#include <string>
#include <limits.h>
#include <unistd.h>
#include <sys/wait.h>
static bool is(StrVal s, const char* e) { printf("%s (expected %s)\\n", s.asUTF8(), e); return std::string(s.asUTF8()) == e; }
'''
SRC = ['src/char_encoding.cpp', 'src/variant.cpp', 'src/condition.cpp', 'src/lockfree.cpp', 'src/thread.cpp']
SEEDS = {
's17_surrogate_bit': dict(property='C17', needs='a string with a character above U+FFFF that has bit 9 set', breaks='the JSON escape names another character',
  edits=[('include/strval.h', "				u4(0xDC00+(ch&0x3FF), op);", "				u4(0xDC00+(ch&0x1FF), op);")], srcs=SRC,
  demo=V + '''int main() { return is(Variant("\\xF0\\x9F\\x98\\x80").as_json(), "\\"\\\\uD83D\\\\uDE00\\"") ? 0 : 1; }
'''),
's17_first_sep': dict(property='C17', needs='the tight layout (-2) and an array whose first element is one character of JSON', breaks='the separator after the first element is missing, so [5,6] becomes [56]',
  edits=[('include/variant.h', "				str += (i > 0 ? sep : StrVal())\n				    + u.var_arr[i]", "				str += (str.length() > 2 ? sep : StrVal())\n				    + u.var_arr[i]")], srcs=SRC,
  demo=V + '''int main() { VariantArray a; a.append(Variant(5)); a.append(Variant(6)); return is(Variant(a).as_json(-2), "[5,6]") & is(Variant(a).as_json(), "[ 5, 6 ]") ? 0 : 1; }
'''),
's17_nested_indent': dict(property='C17', needs='an indented layout and an array inside a map', breaks='the inner array is indented one level too little',
  edits=[('include/variant.h', "				    + (*iter).second.as_json(next_indent);", "				    + (*iter).second.as_json(indent);")], srcs=SRC,
  demo=V + '''int main() { VariantArray a; a.append(Variant(5)); StrVal k("k"); Variant v(a), m(&k, &v, 1); StrVal s = m.as_json(1);
	return is(s, "{\\n    \\"k\\": [\\n      5\\n    ]\\n  }") || s.find(StrVal("\\n      5")) >= 0 ? 0 : 1; }
'''),
's19_assign_ref': dict(property='C19', needs='a Variant that holds a string, array or map assigned to itself, or an element of the array it holds', breaks='the value is destroyed before it is copied',
  edits=[('include/variant.h', "	Variant& operator=(const Variant v)", "	Variant& operator=(const Variant& v)")], srcs=SRC, asan=True,
  demo=V + '''int main() { Variant v("some text that is kept"); Variant& w = v; v = w; return v.type() == Variant::String && is(v.as_strval(), "some text that is kept") ? 0 : 1; }
'''),
's19_ll_negative': dict(property='C19', needs='a long long below the smallest int, read as int', breaks='the number is truncated instead of refused',
  edits=[('include/variant.h', "			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate", "			case LongLong:	if (u.ll > 0x7FFFFFFFLL) break;	// Fail if it would truncate")], srcs=SRC,
  demo='#include <limits.h>\n' + V + '''int main() { fflush(stdout); int p = fork(); if (!p) { Variant v(-5000000000LL); int i = v.as_int(); printf("%d\\n", i); _exit(0); } int s; waitpid(p, &s, 0); Variant w(-5LL);
	return w.as_int() == -5 && WIFSIGNALED(s) ? 0 : 1; }
'''),
}
