#include "probe.h"
static volatile wchar_t utf8in_sink;
// encode v at p, decode it again: see lib/utf8.py
struct u8r { size_t need, wrote, seq, read; wchar_t v; };
extern "C" const unsigned Z_u8r __attribute__((used)) = sizeof(u8r);
#define R(...) (u8r* r, unsigned char* b, wchar_t v __VA_OPT__(,) __VA_ARGS__)
PROBE (u8_bytes, "out:u8r buf:3 i32 n", (u8r* r, const unsigned char*, wchar_t v, size_t), r->need = Utf8Bytes (v))
PROBE (u8_seq, "out:u8r buf:3 i32 n", (u8r* r, const unsigned char*, wchar_t v, size_t), r->seq = Utf8SequenceBytes (v))
PROBE (u8_pointer, "out:u8r wbuf:3 i32 n", (u8r* r, unsigned char* b, wchar_t v, size_t n),
    r->need = Utf8Bytes (v);
    if (n < r->need + 1) return;
    auto o = utf8out (b); *o++ = v; r->wrote = o.base() - b;
    *o.base() = 0;
    r->seq = Utf8SequenceBytes (*b);
    auto i = utf8in ((const unsigned char*) b); r->v = *i; r->read = i.base() - b; ++i; r->read = i.base() - b)
PROBE (u8_chars, "out:u8r wbuf:3 i32 n", (u8r* r, char* b, wchar_t v, size_t n),
    r->need = Utf8Bytes (v);
    if (n < r->need + 1) return;
    auto o = utf8out (b); *o = v; r->wrote = o.base() - b;
    *o.base() = 0;
    r->seq = Utf8SequenceBytes ((unsigned char)*b);
    auto i = utf8in ((const char*) b); r->v = *i++; r->read = i.base() - b)
PROBE (u8_stream, "out:u8r wbuf:3 i32 n", (u8r* r, unsigned char* b, wchar_t v, size_t n),
    r->need = Utf8Bytes (v);
    if (n < r->need) return;
    ostream os (b, n); *utf8out (os) = v; r->wrote = os.pos();
    r->seq = Utf8SequenceBytes (*b);
    istream is (b, os.pos()); r->v = *utf8in (is); r->read = is.pos())
PROBE (u8_text, "out:u8r wbuf:3 i32 n", (u8r* r, unsigned char* b, wchar_t v, size_t n),
    r->need = Utf8Bytes (v);
    if (n < r->need + 1) return;
    ostringstream os; os.link (b, n); os << v; r->wrote = os.pos();
    r->seq = Utf8SequenceBytes (*b))
PROBE (u8_measure, "out:u8r buf:3 i32 n", (u8r* r, const unsigned char*, wchar_t v, size_t), wchar_t a[2] = { v, 'x' }; r->need = Utf8Bytes (a, a+2) - 1)
// decoding whatever bytes there are stops at the terminator
PROBE (u8_decode, "cstr", (const char* s), auto i = utf8in (s); utf8in_sink = *i)
PROBE (u8_decode2, "cstr", (const unsigned char* s), auto i = utf8in (s); utf8in_sink = *i)
