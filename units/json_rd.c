/*@unit
@title eat_json_quote yields for every byte and every escape exactly the bytes of the character it denotes, surrogate pairs included, in order; it stops at the closing quote and fails exactly on a malformed escape or a missing quote
@func eat_json_quote
@loop __CPROVER_assigns(i, line, col, closed, state->error_nr, VN1, VN2, VN3, VN4, VP1, VB1)
 __CPROVER_loop_invariant(VIN(i, VP2, stop) && VLT(VP2, i) && VN1 == VN2 && VIN(VP1, VP2, i) && OFF(i) == OFF(VP1) + VN3 && !closed && !VB1 && (VP1 == VP2 || VN2 >= 1))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, VP2); VP1 = i; vh_step(i, stop);
 @after VREBASE(i, VP2);
@loop unroll 7
@loop unroll 6
@stub new_membuffer membuffer_append_char membuffer_append_null membuffer_used free_membuffer_but_return_trimmed_content free_membuffer_and_free_content
@noexec
@unwind 16
@groups 8
@timeout 300
@trust the pieces are collected by the membuffer functions (C13)
@end*/
#define VH_MINN 1
#define VH_P 1
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
#include "parts/membuffer.h"
void eat_json_quote(XMQParseState *state, char **content_start, char **content_stop);
static MemBuffer *mb_; static char out_[4]; static int nnull_, nnew_, nfree_; static size_t used_;
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int hex4(const char *i, const char *e) { if (e - i < 4) return -1; int a = hv(i[0]), b = hv(i[1]), c = hv(i[2]), d = hv(i[3]); return a < 0 || b < 0 || c < 0 || d < 0 ? -1 : a << 12 | b << 8 | c << 4 | d; }
static void want(size_t n, size_t bytes, size_t len) { VN1 = 0; VN2 = n; VN4 = bytes; VN3 = len; }
/* what the JSON standard says about the string content at i: bytes denoted (VN2 of them, packed in VN4), length of the spelling (VN3), or an error (VB1) */
void vh_step(const char *i, const char *e)
{
    VB1 = 0;
    unsigned char c = *i;
    if (c == '"') { want(0, 0, 1); return; }
    if (c != '\\') { want(1, c, 1); return; }
    want(0, 0, 0); VB1 = 1;
    if (e - i < 2) return;
    c = i[1];
    int s = c == '"' ? '"' : c == '\\' ? '\\' : c == '/' ? '/' : c == 'b' ? 8 : c == 'f' ? 12 : c == 'n' ? 10 : c == 'r' ? 13 : c == 't' ? 9 : 0;
    if (s) { VB1 = 0; want(1, s, 2); return; }
    if (c != 'u') return;
    size_t u = 0, l = 6;
    int h = hex4(i + 2, e);
    if (h <= 0 || (h >= 0xdc00 && h <= 0xdfff)) return;
    u = h;
    if (u >= 0xd800 && u <= 0xdbff)
    {
        if (e - i < 12 || i[6] != '\\' || i[7] != 'u') return;
        int w = hex4(i + 8, e);
        if (w < 0xdc00 || w > 0xdfff) return;
        u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00); l = 12;
    }
    VB1 = 0;
    if (u < 0x80) want(1, u, l);
    else if (u < 0x800) want(2, (0xc0 | u >> 6) | (0x80 | (u & 63)) << 8, l);
    else if (u < 0x10000) want(3, (0xe0 | u >> 12) | (0x80 | (u >> 6 & 63)) << 8 | (0x80 | (u & 63)) << 16, l);
    else want(4, (0xf0 | u >> 18) | (0x80 | (u >> 12 & 63)) << 8 | (0x80 | (u >> 6 & 63)) << 16 | (0x80 | (u & 63)) << 24, l);
}
static int verr(XMQParseState *s)
{
    VH_ASSERT("no text before the end of the input is refused but a malformed escape", VB1 ? true : VP1 + VN3 == vst.buffer_stop && (VP1 == VP2 || VN2 >= 1));
    return s->error_nr == (VB1 ? XMQ_ERROR_JSON_INVALID_ESCAPE : XMQ_ERROR_JSON_INVALID_CHAR);
}
MemBuffer *new_membuffer() { nnew_++; return mb_; }
void membuffer_append_char(MemBuffer *m, char c)
{
    VH_ASSERT("not more bytes than denoted", m == mb_ && VN1 < VN2);
    VH_ASSERT("the byte denoted", (unsigned char)c == ((VN4 >> (8 * VN1)) & 255));
    VN1 = VN1 + 1;
}
void membuffer_append_null(MemBuffer *m) { nnull_++; }
size_t membuffer_used(MemBuffer *m) { return used_; }
char *free_membuffer_but_return_trimmed_content(MemBuffer *m) { VH_ASSERT("zero terminated", nnull_ == 1); nfree_++; return out_; }
void free_membuffer_and_free_content(MemBuffer *m) { }
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    char dummy[64]; mb_ = (MemBuffer*)dummy; char *a = 0, *b = 0;
    nnull_ = nnew_ = nfree_ = 0; used_ = nondet_size_t(); VH_ASSUME(used_ >= 1 && used_ <= 4);
    size_t at = g; VH_ASSUME(at < n); VH_ASSUME(in[at] == '"');
    v_state(in, at, n, 3, 5);
    VP2 = in + at; VP1 = in + at; VN1 = VN2 = VN4 = 0; VN3 = 1; VB1 = 0;
    eat_json_quote(&vst, &a, &b);
    VH_ASSERT("the content", a == out_ && b == out_ + used_ - 1 && nnew_ == 1 && nfree_ == 1);
    VH_ASSERT("stops behind the closing quote", in + at < VP1 && VP1 < in + n && *VP1 == '"' && VN2 == 0 && vst.i == VP1 + 1);
    VH_COVER("string");
    if (VP1 > in + at + 8) VH_COVER("long string");
}
