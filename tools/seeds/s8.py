T = r"""
#include <cstdlib>
#include <cstddef>
#include <climits>
#include <functional>
#include <atomic>
#include <assert.h>
#include <stdio.h>
#include <strval.h>
static int bad = 0;
static void is(const char* t, int radix, int want, int err) { ErrNum e; StrValIndex n; int v = StrVal(t).asInt32(&e, radix, &n); int w = err ? (int32_t)ErrNum(STRERR_SET, err) : 0; if (v != want || (int32_t)e != w) { bad = 1; printf("\"%s\" radix %d gives %d error %d, expected %d error %d\n", t, radix, v, (int32_t)e&0xFF, want, err); } }
"""
SRC = ['src/char_encoding.cpp']
F = 'include/strval.h'
SEEDS = {
's16_zero_prefix': dict(property='C16', needs='a number of two characters that begins with 0, read with radix 0', breaks='a short octal number such as 08 or 0x is read as decimal',
  edits=[(F, "if (UCS4Digit(ch) == 0 && i+1 < len)", "if (UCS4Digit(ch) == 0 && i+2 < len)")], srcs=SRC,
  demo=T + """int main() { is("017", 0, 15, 0); is("07", 0, 7, 0); is("08", 0, 0, STRERR_TRAIL_TEXT); is("0b", 0, 0, STRERR_NO_DIGITS); return bad; }
"""),
's16_wrap': dict(property='C16', needs='a number of more than 64 bits whose value modulo 2^64 grows with every digit', breaks='the number wraps around and is read as a small one without an error',
  edits=[(F, "	max = (ULONG_MAX-1)/radix + 1;", "	max = ULONG_MAX/2;		// One more digit always overflows after this")], srcs=SRC,
  demo=T + """int main() { is("18446744073709551617", 10, 0, STRERR_NUMBER_OVERFLOW); is("99999999999999999999999999", 10, 0, STRERR_NUMBER_OVERFLOW); for (unsigned k = 2; k < 9; k++) { char b[40]; snprintf(b, 40, "%d%019d", k*2, 7); is(b, 10, 0, STRERR_NUMBER_OVERFLOW); } is("2147483647", 10, 2147483647, 0); is("42000000000000000000", 10, 0, STRERR_NUMBER_OVERFLOW); is("60000000000000000005", 10, 0, STRERR_NUMBER_OVERFLOW); return bad; }
"""),
's16_last_letter': dict(property='C16', needs='the upper-case letter Z as a digit in radix 36', breaks='the number ends before the Z',
  edits=[(F, "(ch >= 'A' && ch <= 'Z')\n					? (int)", "(ch >= 'A' && ch < 'Z')\n					? (int)")], srcs=SRC,
  demo=T + """int main() { is("zz", 36, 1295, 0); is("ZZ", 36, 1295, 0); is("1Y", 36, 70, 0); return bad; }
"""),
's16_count_blank': dict(property='C16', needs='a sign that is followed by blanks and nothing else, or by blanks before the digits, when the characters scanned are counted', breaks='the blanks after the sign are not skipped, so a number that begins with a sign and a blank is not read',
  edits=[(F, "		while (i < len && UCS4IsWhite(ch = (*this)[i]))\n			i++;\n		if (i == len)\n			goto no_digits;\n	}\n", "		if (i < len && UCS4IsWhite(ch = (*this)[i]))\n			ch = (*this)[++i];\n		if (i == len)\n			goto no_digits;\n	}\n")], srcs=SRC,
  demo=T + """int main() { is("-5", 10, -5, 0); is("- 5", 10, -5, 0); is("-  5", 10, -5, 0); is("+ ", 10, 0, STRERR_NO_DIGITS); is("+   ", 10, 0, STRERR_NO_DIGITS); return bad; }
"""),
}
