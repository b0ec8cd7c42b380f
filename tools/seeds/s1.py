H='include/char_encoding.h'
SEEDS = {
's01_put6_mask': dict(property='C01', needs='a character with bit 29 set (six-byte form)', breaks='six-byte encodings lose bit 29, so decoding does not give the character back',
  edits=[(H, "*cp++ = 0x80 | (UTF8)((ch >> 24) & 0x3F);", "*cp++ = 0x80 | (UTF8)((ch >> 24) & 0x1F);")],
  demo='''
#include <char_encoding.h>
#include <stdio.h>
int main() { char b[16]; UTF8* p = b; UCS4 c = 0x60000041; UTF8Put(p, c); const UTF8* q = b; UCS4 g = UTF8Get(q); printf("%X -> %X\\n", (unsigned)c, (unsigned)g); return g == c ? 0 : 1; }
'''),
's02_nul_in_tail': dict(property='C02', needs='a five- or six-byte lead truncated so that the NUL stands where its fourth-last byte should be', breaks='decoding takes the terminating NUL for part of a truncated sequence and reads on behind it',
  edits=[(H, "	case 5:	cp++;\n		if (UTF8Is1st(*cp)) goto illegal;", "	case 5:	cp++;\n		if (*cp && UTF8Is1st(*cp)) goto illegal;")],
  demo='''
#include <char_encoding.h>
#include <stdio.h>
int main() { const char b[] = "\\xF9\\0\\x90\\x80\\x80"; const UTF8* q = b; UCS4 g = UTF8Get(q); printf("%X consumed %d\\n", (unsigned)g, (int)(q-b)); return g == 0x800000F9 && q == b+1 ? 0 : 1; }
'''),
's03_backup_window': dict(property='C03', needs='a five- or six-byte character behind the cursor, more than six bytes into a text whose start is given as the limit', breaks='backing up over a long character stops one byte before the cursor',
  edits=[(H, "		limit = cp-6;", "		limit = cp-(limit ? 4 : 6);")],
  demo='''
#include <char_encoding.h>
#include <stdio.h>
int main() { char b[32] = "abc"; UTF8* p = b+3; UTF8Put(p, (UCS4)0x7FFFFFF0); *p = 0; const UTF8* r = UTF8Backup(p, b); printf("back %d\\n", (int)(p-r)); return r == b+3 ? 0 : 1; }
'''),
's04_low_surrogate': dict(property='C04', needs='a character above 0xFFFF written with byte swapping', breaks='the high surrogate unit is computed without subtracting the supplementary plane base when bit 16 is carried',
  edits=[(H, "return 0xD800 + (UTF16)((ch - 0x10000) >> 10);", "return 0xD800 | (UTF16)((ch >> 10) - 0x40 & 0x1FF);")],
  demo='''
#include <char_encoding.h>
#include <stdio.h>
int main() { UTF16 b[4]; UTF16* p = b; UTF16Put(p, (UCS4)0x9FFFF); const UTF16* q = b; UCS4 g = UTF16Get(q); printf("%X\\n", (unsigned)g); return g == 0x9FFFF ? 0 : 1; }
'''),
}
