// Extraction unit: forces emission of the real inline functions of include/char_encoding.h and src/char_encoding.cpp.
#include <char_encoding.h>
#include "char_encoding.cpp"
extern "C" {
void* keep_char[] = {
	(void*)(UCS4(*)(const UTF8*&))UTF8Get, (void*)(UCS4(*)(const UTF8*&))UTF8Peek,
	(void*)(void(*)(UTF8*&, UCS4))UTF8Put, (void*)(int(*)(UCS4))UTF8Len, (void*)(int(*)(const UTF8*))UTF8Len,
	(void*)UTF8Backup, (void*)UTF8PutPaddedZero, (void*)UTF8CorrectLen, (void*)UTF8Is1st, (void*)UTF8Is2nd,
	(void*)UTF16Get, (void*)(int(*)(UCS4))UTF16Len, (void*)(int(*)(const UTF16*, bool))UTF16Len, (void*)UTF16Put,
	(void*)UCS4IsWhite, (void*)UCS4IsDecimal, (void*)ASCIIDigit, (void*)UCS4IsIllegal, (void*)UTF8EncodeIllegal,
	(void*)UCS4IsASCII, (void*)UCS4IsASCIIPrintable, (void*)UCS4IsLatin1, (void*)UCS4IsUnicode, (void*)UCS4IsUTF16,
	(void*)(bool(*)(UCS4))isalpha, (void*)(bool(*)(UCS4))isdigit, (void*)(bool(*)(UCS4))isalnum,
	(void*)(UCS4(*)(UCS4))toupper, (void*)(UCS4(*)(UCS4))tolower, (void*)(bool(*)(UCS4))isspace,
};
}
