/*@unit
@title xmq_quote_as_json writes for every byte exactly its JSON escape (or the byte itself), in order, for the whole text up to its end or first zero byte, between quotes when asked for
@func xmq_quote_as_json
@loop __CPROVER_assigns(i, VN1, VN2, VI1, VP1)
 __CPROVER_loop_invariant(VIN(i, start, stop) && VN1 == VN2 && VP1 == i)
 __CPROVER_loop_invariant(!(VLE(start, VG) && VLT(VG, i)) || *VG != 0)
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start); VI1 = *i; VN1 = 0; VN2 = vh_len(*i); VP1 = i + 1;
@stub new_membuffer membuffer_append_char membuffer_append membuffer_append_null free_membuffer_but_return_trimmed_content
@noexec
@unwind 8
@trust the pieces are collected by the membuffer functions (C13)
@end*/
#define VH_TAIL 1
#define VH_P 1
#include "vh.h"
#include "vspec.h"
#include "parts/membuffer.h"
char *xmq_quote_as_json(const char *start, const char *stop, bool add_quotes);
static MemBuffer *mb_; static char out_[4]; static int nq_, nnull_, nnew_, nfree_; static bool quotes_; 
static char hexd(int d) { return (char)(d < 10 ? '0' + d : 'A' + d - 10); }
static char shrt(unsigned char c) { return c == '"' ? '"' : c == '\\' ? '\\' : c == 8 ? 'b' : c == 9 ? 't' : c == 10 ? 'n' : c == 12 ? 'f' : c == 13 ? 'r' : 0; }
/* RFC 8259: what must be escaped is escaped, in its short form when it has one (DEL is escaped as well) */
size_t vh_len(char ch) { unsigned char c = ch; VH_ASSERT("the opening quote is written before the text", nq_ == (quotes_ ? 1 : 0)); return shrt(c) ? 2 : c < 32 || c == 127 ? 6 : 1; }
static bool is_byte(int src, size_t k, char o)
{
    unsigned char c = src;
    if (shrt(c)) return o == (k == 0 ? '\\' : shrt(c));
    if (c < 32 || c == 127)
    {
        if (k < 4) return o == "\\u00"[k];
        int d = k == 4 ? c >> 4 : c & 15;
        return o == hexd(d) || (d > 9 && o == 'a' + d - 10);
    }
    return o == (char)c;
}
static void emit(char c) { VH_ASSERT("not more than the escape of the byte", VN1 < VN2); VH_ASSERT("the byte of the escape", is_byte(VI1, VN1, c)); VN1 = VN1 + 1; }
MemBuffer *new_membuffer() { nnew_++; return mb_; }
void membuffer_append_char(MemBuffer *m, char c)
{
    VH_ASSERT("one buffer", m == mb_);
    if (VN1 == VN2)   /* between the bytes: a quote in front of all and one behind all */
    {
        VH_ASSERT("only the quotes surround the text", quotes_ && c == '"' && (nq_ == 0 || nq_ == 1));
        nq_++;
    }
    else emit(c);
}
void membuffer_append(MemBuffer *m, const char *s)
{
    VH_ASSERT("one buffer", m == mb_);
    if (s[0] == 0) return; emit(s[0]);
    if (s[1] == 0) return; emit(s[1]);
    if (s[2] == 0) return; emit(s[2]);
    if (s[3] == 0) return; emit(s[3]);
    if (s[4] == 0) return; emit(s[4]);
    if (s[5] == 0) return; emit(s[5]);
    VH_ASSERT("short", s[6] == 0);
}
void membuffer_append_null(MemBuffer *m) { VH_ASSERT("the closing quote is written", nq_ == (quotes_ ? 2 : 0)); nnull_++; }
char *free_membuffer_but_return_trimmed_content(MemBuffer *m) { VH_ASSERT("zero terminated", nnull_ == 1); nfree_++; return out_; }
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    char dummy[64]; mb_ = (MemBuffer*)dummy;
    nq_ = nnull_ = nnew_ = nfree_ = 0; quotes_ = nondet_bool();
    VH_ASSUME(g <= n);
    VG = in + g; VN1 = VN2 = 0; VI1 = 0; VP1 = in;
    char *r = xmq_quote_as_json(in, in + n, quotes_);
    VH_ASSERT("result", r == out_ && nnew_ == 1 && nfree_ == 1);
    VH_ASSERT("up to the end or the first zero", in <= VP1 && VP1 <= in + n && (VP1 == in + n || *VP1 == 0));
    VH_ASSERT("and no zero before", !(VG < VP1) || *VG != 0);
    if (VP1 > in + 2) VH_COVER("some text");
}
