SEEDS = {
's08_wide_column': dict(property='C08', needs='reading text with an overlong or malformed UTF-8 sequence', breaks='the byte count is not the distance from the start any more',
  edits=[('include/pegexp.h', "				Char	c = UTF8Get(data);\n				byte_count += data-start;\n", "				Char	c = UTF8Get(data);\n				byte_count += UTF8Len(c);\n")],
  demo='''
#include <pegexp.h>
#include <stdio.h>
int main() { PegexpPointerSource<> s("\\xC0\\x81\\xE2\\x82x"); while (!s.at_eof()) s.get_char(); printf("%ld\\n", (long)s.current_byte()); return s.current_byte() == 5 ? 0 : 1; }
'''),
's08_copy_line': dict(property='C08', needs='copying a source (as backtracking does) in the second line but not at its beginning', breaks='the copy is in line 1',
  edits=[('include/pegexp.h', "	, byte_count(pi.byte_count)\n	, line_count(pi.line_count)\n", "	, byte_count(pi.byte_count)\n	, line_count(pi.at_bol() ? pi.line_count : pi.line_count > 2 ? pi.line_count : 1)\n")],
  demo='''
#include <pegexp.h>
#include <stdio.h>
int main() { PegexpPointerSource<> s("a\\nbc"); s.get_char(); s.get_char(); s.get_char(); PegexpPointerSource<> t(s); printf("%ld %ld\\n", (long)s.current_line(), (long)t.current_line()); return t.current_line() == 2 ? 0 : 1; }
'''),
's12_bookmark_pair': dict(property='C12', needs='two lookups in a multi-byte string: the first sets the bookmark, the second looks a little before it', breaks='the second lookup finds the wrong character: it counts back from the end of the string but starts at the bookmark',
  edits=[('include/strval.h', "						ep = start+mark.byte_num;\n						end_char = mark.char_num;\n", "						ep = start+mark.byte_num;\n						if (char_num+4 < (int)mark.char_num)\n							end_char = mark.char_num;\n")],
  demo='''
#include <strval.h>
#include <stdio.h>
int main() { StrVal s("\\xC3\\xA4" "bcdefghijklmnopqrstuvwxyz"); StrVal t = s.substr(17, 2); StrVal d = t*2; printf("%c %c %s\\n", (char)t[0], (char)t[1], StrVal(t).asUTF8()); return t[0] == 'r' && t[1] == 's' && t == "rs" ? 0 : 1; }
'''),
's12_asutf8_section': dict(property='C12', needs='asUTF8 on a section that starts after the beginning of its body and ends before the end of it', breaks='the NUL-terminated text runs on to the end of the body',
  edits=[('include/strval.h', "				if (offset+length() < body->numChars() // Substring ends before body does\n", "				if (length() < body->numChars()-2*offset // Substring ends before body does\n")],
  demo='''
#include <strval.h>
#include <stdio.h>
#include <string.h>
int main() { StrVal s("abcdefgh"), t = s.substr(2, 4); printf("%s\\n", t.asUTF8()); return strcmp(t.asUTF8(), "cdef") == 0 ? 0 : 1; }
'''),
's13_insert_bytes': dict(property='C13', needs='inserting past the fifth character, but not at the end, in a string with multi-byte text', breaks='the characters go in at a byte position instead of the character position',
  edits=[('include/strval.h', "				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);\n", "				body->insertBytes(pos == length() ? numBytes() : pos > 5 ? pos : nthChar(pos)-nthChar(0), ap, addend_length);\n")],
  demo='''
#include <strval.h>
#include <stdio.h>
#include <string.h>
int main() { StrVal s("\\xC3\\xA4\\xC3\\xB6 bcdef"); s.insert(6, StrVal("-")); printf("%s\\n", s.asUTF8()); return strcmp(s.asUTF8(), "\\xC3\\xA4\\xC3\\xB6 bcd-ef") == 0 ? 0 : 1; }
'''),
's13_contiguous': dict(property='C13', needs='adding to a section another section of the same body that overlaps it', breaks='the overlapping characters are not repeated and characters beyond the second section are added',
  edits=[('include/strval.h', "				if (static_cast<Body*>(body) == static_cast<Body*>(addend.body)	// From the same body\n				 && offset+length() == addend.offset)	// And this ends where the addend starts\n", "				if (static_cast<Body*>(body) == static_cast<Body*>(addend.body)	// From the same body\n				 && offset <= addend.offset && offset+length() >= addend.offset)	// And this ends where the addend starts\n")],
  demo='''
#include <strval.h>
#include <stdio.h>
#include <string.h>
int main() { StrVal s("abcdefgh"); StrVal t = s.substr(1, 4)+s.substr(3, 4); printf("%s\\n", t.asUTF8()); return strcmp(t.asUTF8(), "bcdedefg") == 0 ? 0 : 1; }
'''),
's14_static_section': dict(property='C14', needs='copying a section of a string over borrowed text that ends before the text does, then changing the borrowed text', breaks='the copy still uses the borrowed text and changes with it',
  edits=[('include/strval.h', "				if (s1.body->isStatic())	// Must not copy a reference to a non-allocated body\n", "				if (s1.body->isStatic() && s1.offset+s1.num_chars == s1.body->numChars())	// Must not copy a reference to a non-allocated body\n")],
  demo='''
#include <strval.h>
#include <stdio.h>
int main() { static char buf[] = "abcdef"; StrBody b(buf, StrStatic, 6); b.AddRef(); StrVal s(&b); StrVal t = s.substr(0, 3); StrVal u(t); buf[1] = 'X'; printf("%c\\n", (char)u[1]); return u[1] == 'b' ? 0 : 1; }
'''),
's15_rfindany_range': dict(property='C15', needs='rfindAny with a limit after which a character of the set lies exactly at the limit', breaks='the character at the limit is searched too',
  edits=[('include/strval.h', "				Index		n = before == -1 ? length()-1 : before-1;	// First Index we'll look at\n", "				Index		n = before == -1 || before >= (int)length() ? length()-1 : before-(before == 1);	// First Index we'll look at\n")],
  demo='''
#include <strval.h>
#include <stdio.h>
int main() { StrVal s("abcabc"); int n = s.rfindAny(StrVal("c"), 5), m = s.rfindAny(StrVal("c"), 1); printf("%d %d\\n", n, m); return n == 2 && m == -1 ? 0 : 1; }
'''),
's15_findnot_set': dict(property='C15', needs='findNot with a set of more than three characters whose last character occurs in the text', breaks='the last character of a set of more than three characters is ignored',
  edits=[('include/strval.h', "					for (Index i = 0; i < s1.length(); i++)\n						if (ch == s1[i])\n							goto next;	// Found at n\n					return n;\n				next:\n					n++;\n", "					for (Index i = 0; i < s1.length() && (i < 3 || i+1 < s1.length()); i++)\n						if (ch == s1[i])\n							goto next;	// Found at n\n					return n;\n				next:\n					n++;\n")],
  demo='''
#include <strval.h>
#include <stdio.h>
int main() { StrVal s("dddx"); int n = s.findNot(StrVal("abcd")); printf("%d\\n", n); return n == 3 ? 0 : 1; }
'''),
's28_release_race': dict(property='C28', needs='two threads dropping the last two references at the same moment: the first has decremented the count but not yet looked at it', breaks='both threads see the count at zero and delete the object twice',
  edits=[('include/refcount.h', "if (--ref_count == 0) delete this; }", "ref_count--; if (ref_count == 0) delete this; }")],
  demo='''
#include <atomic>
#include <stdlib.h>
#include <stdio.h>
#include <thread>
#include <unistd.h>
#include <refcount.h>
static std::atomic<long> deaths(0), twice(0), turn(0);
struct Obj : public RefCounted { int x; ~Obj() { deaths++; } static void operator delete(void*) { } };
int main()
{
	const int N = 200000;
	Obj* all = (Obj*)malloc(sizeof(Obj)*N);
	for (int i = 0; i < N; i++) new (&all[i]) Obj;
	auto drop = [&](Ref<Obj>* r) { for (int i = 0; i < N; i++) { turn++; while (turn < 2*(i+1)) ; r[i] = (Obj*)0; } };
	Ref<Obj>* a = new Ref<Obj>[N]; Ref<Obj>* b = new Ref<Obj>[N];
	for (int i = 0; i < N; i++) { a[i] = &all[i]; b[i] = a[i]; }
	std::thread t([&]() { drop(a); });
	drop(b);
	t.join();
	printf("%d objects, %ld deaths\\n", N, (long)deaths);
	fflush(stdout); _exit(deaths == N ? 0 : 1);
}
'''),
's28_unshare_two': dict(property='C28', needs='Unshare of a Ref whose object exactly one other Ref shares', breaks='the object is not copied, and the other user sees the change',
  edits=[('include/refcount.h', "				if (!o || o->GetRefCount() <= 1)\n					return;\n", "				if (!o || (o->GetRefCount()^1) <= 3)\n					return;\n")],
  demo='''
#include <stdlib.h>
#include <stdio.h>
#include <refcount.h>
struct Obj : public RefCounted { int x; Obj(int v) : x(v) {} Obj(const Obj& o) : x(o.x) {} };
int main() { Ref<Obj> a(new Obj(1)), b(a); b.Unshare(); b->x = 2; printf("%d %d\\n", a->x, b->x); return a->x == 1 && b->x == 2 ? 0 : 1; }
'''),
's18_unshare_count': dict(property='C18', needs='a change to a map of more than 200 entries that exactly two variables share', breaks='the other variable changes too',
  edits=[('include/cowmap.h', "				if (body && body->GetRefCount() <= 1)\n", "				if (body && ((body->GetRefCount()-1)&0xFF) <= (size() > 200))\n")],
  demo='''
#include <atomic>
#include <cstdlib>
#include <cowmap.h>
#include <stdio.h>
int main() { CowMap<int, int> a; for (int i = 0; i < 201; i++) a.put(i, i); CowMap<int, int> b(a); b.put(5, 9); printf("%d %d\\n", a[5], b[5]); return a[5] == 5 && b[5] == 9 ? 0 : 1; }
'''),
's18_copy_last': dict(property='C18', needs='a change to a shared map of more than 64 entries', breaks='the copy made for the change loses entries',
  edits=[('include/cowmap.h', "				for (Iter it = begin(); it != end(); it++)\n					newbody->insert(BaseVP(it->first, it->second));\n", "				size_t n = 0;\n				for (Iter it = begin(); it != end() && (n < 64 || n+1 < size()); it++, n++)\n					newbody->insert(BaseVP(it->first, it->second));\n")],
  demo='''
#include <atomic>
#include <cstdlib>
#include <cowmap.h>
#include <stdio.h>
int main() { CowMap<int, int> a; for (int i = 0; i < 70; i++) a.put(i, i); CowMap<int, int> b(a); b.put(5, 9); printf("%zu %zu\\n", a.size(), b.size()); return b.size() == 70 && b[5] == 9 ? 0 : 1; }
'''),
}
