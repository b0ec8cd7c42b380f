// Extraction unit: every public operation of PegexpPointerSource (include/pegexp.h) on a source in an arbitrary state
// (text position d, byte count b, line l, column c).  The subclasses only set and report the state; the behaviour is the library's.
#include <pegexp.h>
template<class B> struct S : B
{
	S(const char* d, off_t b, off_t l, off_t c) { this->data = d; this->byte_count = b; this->line_count = l; this->column_char = c; }
	static void out(const B& s, const char** d, off_t* o) { const S& t = static_cast<const S&>(s); *d = t.data; o[0] = t.byte_count; o[1] = t.line_count; o[2] = t.column_char; }
};
typedef PegexpPointerSource<> SU;			// UTF-8 text
typedef PegexpPointerSource<const UTF8*, char> SC;	// bytes
#define W(P,B,R) extern "C" { \
	R P##_get_char(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); R r = s.get_char(); S<B>::out(s, od, o); return r; } \
	char P##_get_byte(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); char r = s.get_byte(); S<B>::out(s, od, o); return r; } \
	bool P##_eof(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); bool r = s.at_eof(); S<B>::out(s, od, o); return r; } \
	bool P##_bol(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); bool r = s.at_bol(); S<B>::out(s, od, o); return r; } \
	bool P##_null(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); bool r = s.is_null(); S<B>::out(s, od, o); return r; } \
	off_t P##_byte(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); off_t r = s.current_byte(); S<B>::out(s, od, o); return r; } \
	off_t P##_line(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); off_t r = s.current_line(); S<B>::out(s, od, o); return r; } \
	off_t P##_column(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); off_t r = s.current_column(); S<B>::out(s, od, o); return r; } \
	/* a copy and an assigned copy have the state of the original, and moving the copy does not move the original */ \
	void P##_copy(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); const B& r = s; B q(r); S<B>::out(q, od, o); } \
	void P##_assign(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); B q; q = s; S<B>::out(q, od, o); } \
	R P##_copy_moves(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); B q(s); R r = q.get_char(); S<B>::out(s, od, o); return r; } \
	R P##_orig_moves(const char* d, off_t b, off_t l, off_t c, const char** od, off_t* o) { S<B> s(d, b, l, c); B q(s); R r = s.get_char(); S<B>::out(q, od, o); return r; } \
	void P##_ctor(const char* d, const char** od, off_t* o) { B s(d); S<B>::out(s, od, o); } \
	void P##_ctor0(const char** od, off_t* o) { B s; S<B>::out(s, od, o); } \
	bool P##_same(const char* d, off_t b, off_t l, off_t c, const char* d2, off_t b2, off_t l2, off_t c2) { S<B> s(d, b, l, c), t(d2, b2, l2, c2); return s.same(t); } \
	size_t P##_from(const char* d, off_t b, off_t l, off_t c, const char* d2, off_t b2, off_t l2, off_t c2) { S<B> s(d, b, l, c), t(d2, b2, l2, c2); return s.bytes_from(t); } \
	bool P##_less(const char* d, off_t b, off_t l, off_t c, const char* d2, off_t b2, off_t l2, off_t c2) { S<B> s(d, b, l, c), t(d2, b2, l2, c2); return s < t; } \
	off_t P##_minus(const char* d, off_t b, off_t l, off_t c, const char* d2, off_t b2, off_t l2, off_t c2) { S<B> s(d, b, l, c), t(d2, b2, l2, c2); return s - t; } \
	}
W(su, SU, UCS4)
W(sc, SC, char)
