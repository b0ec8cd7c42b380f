SEEDS = {
's05_memo_digit': dict(property='C05', needs='a query for the character just before a digit range that starts at one (Gujarati, Ethiopic), after a query for a digit of that range', breaks='the second query, answered from the memo, calls a non-digit a zero',
  edits=[('src/char_encoding.cpp', "	if (ch >= rp->low && ch <= rp->high)\n", "	if (ch-rp->low+1 <= 10U && ch <= rp->high)\n")],
  srcs=['src/char_encoding.cpp'],
  demo='''
#include <char_encoding.h>
#include <stdio.h>
int main() { int a = UCS4Digit(0x1368), b = UCS4Digit(0x136A), c = UCS4Digit(0x1368); printf("%d %d %d\\n", a, b, c); return a == -1 && b == 2 && c == -1 ? 0 : 1; }
'''),
's06_set_mask': dict(property='C06', needs='a message set number of 0x4000 or more', breaks='the message set read back from an error number loses its upper bits',
  edits=[('include/error.h', "return (errnum >> 14) & 0xFFFF;", "return (errnum >> 14) & 0x3FFF;")],
  demo='''
#include <error.h>
#include <stdio.h>
int main() { ErrNum e(0x6123, 77); printf("%X %d\\n", e.set(), e.msg()); return e.set() == 0x6123 && e.msg() == 77 ? 0 : 1; }
'''),
's07_copy_guard': dict(property='C07', needs='a guarded UTF-8 pointer copied from a const one that is not at its origin, then moved backwards', breaks='the copy takes the current position for its origin, so it refuses to back up over text it may visit',
  edits=[('include/utf8_ptr.h', "GuardedUTF8Ptr(const GuardedUTF8Ptr& c) : NulGuardedUTF8Ptr(c.data), origin(c.origin) {}", "GuardedUTF8Ptr(const GuardedUTF8Ptr& c) : NulGuardedUTF8Ptr(c.data), origin(c.data) {}")],
  demo='''
#include <utf8_ptr.h>
#include <stdio.h>
int main() { const char* s = "abc"; GuardedUTF8Ptr p(s); p += 2; const GuardedUTF8Ptr& r = p; GuardedUTF8Ptr q(r); q += -1; printf("%d\\n", (int)((const char*)q - s)); return (const char*)q == s+1 ? 0 : 1; }
'''),
's07_overshoot': dict(property='C07', needs='a guarded char pointer moved back by more than the whole text before it, by an amount of the largest magnitude', breaks='the comparison with the origin is made after the subtraction has passed it',
  edits=[('include/utf8_ptr.h', "			{	const UTF8* s = data;\n				while (i > 0 && *s != '\\0') { UTF8Get(s); i--;}		// Advance", "			{	const UTF8* s = data;\n				while (i > 0 && (*s & 0x7F) != '\\0') { UTF8Get(s); i--;}		// Advance")],
  demo='''
#include <utf8_ptr.h>
#include <stdio.h>
int main() { const char* s = "a\\x80" "b"; GuardedUTF8Ptr p(s); p += 3; printf("%d\\n", (int)((const char*)p - s)); return (const char*)p == s+3 ? 0 : 1; }
'''),
}
SEEDS['s07_overshoot']['needs'] = 'a stray 0x80 byte in the text being stepped over by += n'
SEEDS['s07_overshoot']['breaks'] = 'moving forwards stops at a stray 0x80 byte as if it were the NUL'
SEEDS['s07_stray80'] = SEEDS.pop('s07_overshoot')
