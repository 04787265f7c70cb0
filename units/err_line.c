/*@unit
@title generate_state_error_message: the place named is the one the error kind asks for, the line shown is the whole line around it (up to 1024 bytes), and the caret stands behind exactly as many columns as there are code points before the place
@func generate_state_error_message
@loop __CPROVER_assigns(line_start, line_length)
 __CPROVER_loop_invariant(VIN(line_start, VP1, VP2) && line_length == VDIFF(VP2, line_start) && line_length <= 1024)
 __CPROVER_loop_invariant(!(VLE(line_start, VG) && VLT(VG, VP2)) || *VG != '\n')
 __CPROVER_decreases(OFF(line_start) - OFF(VP1))
 @body VREBASE(line_start, VP1);
 @after VREBASE(line_start, VP1);
@loop __CPROVER_assigns(line_stop, line_length)
 __CPROVER_loop_invariant(VIN(line_stop, VP2, VP3) && line_length == VDIFF(line_stop, line_start) && line_length <= 1024)
 __CPROVER_loop_invariant(!(VLE(VP2, VG) && VLT(VG, line_stop)) || (*VG != '\n' && *VG != 0))
 __CPROVER_decreases(OFF(VP3) - OFF(line_stop))
 @body VREBASE(line_stop, VP2);
 @after VREBASE(line_stop, VP2);
@loop __CPROVER_assigns(i, m, VN1, __CPROVER_object_whole(marker))
 __CPROVER_loop_invariant(VIN(i, line_start, VP2) && m == VN1 && m <= VDIFF(i, line_start))
 __CPROVER_decreases(OFF(VP2) - OFF(i))
 @body VREBASE(i, line_start); if ((*i & 0xc0) != 0x80) VN1 = VN1 + 1;
@stub membuffer_append membuffer_append_null membuffer_drop_last_null new_membuffer peek_utf8_char utf8_char_to_codepoint_string xmqParseErrorToString
@noexec
@unwind 16
@define VH_FLATPRINTF
@trust snprintf writes what its format says; the pieces are collected by membuffer_append (C13)
@end*/
#define VH_MINN 0
#define VH_P 1
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
#include "parts/membuffer.h"
static int verr(XMQParseState *s) { return 0; }
static MemBuffer *mb_; static int nnew_, ndrop_, nnull_, nadd_, err_;
static const char *src_; static size_t eline_, ecol_; static bool shown_, main_; static const char *lstart_; static int llen_;
MemBuffer *new_membuffer(void) { nnew_++; return mb_; }
void membuffer_append(MemBuffer *m, const char *s) { VH_ASSERT("into the message", m == mb_); nadd_++; }
void membuffer_append_null(MemBuffer *m) { nnull_++; }
void membuffer_drop_last_null(MemBuffer *m) { ndrop_++; }
size_t peek_utf8_char(const char *a, const char *b, UTF8Char *u) { VH_ASSERT("the char at the place", a == VP2 && b == VP3); return 1; }
bool utf8_char_to_codepoint_string(UTF8Char *u, char *buf) { buf[0] = 0; return true; }
const char *xmqParseErrorToString(XMQParseError e) { VH_ASSERT("the error that happened is named", (int)e == err_); return "x"; }
int vh_snprintf(char *s, size_t n, const char *f, size_t a0, size_t a1, size_t a2, size_t a3, size_t a4, size_t a5, size_t a6, size_t a7)
{
    if (f[0] == '\n')
    {
        llen_ = (int)a0; lstart_ = (const char*)a1;
        const char *mk = (const char*)a2;
        VH_ASSERT("the caret stands behind as many columns as there are code points before it", mk[VN1] == '^' && mk[VN1+1] == 0);
        VH_ASSERT("there is room for the line and the marker", (size_t)llen_ + VN1 + 4 <= n);
        shown_ = true;
    }
    else if (f[0] == '%')
    {
        VH_ASSERT("source, line and column", (const char*)a0 == src_ && a1 == eline_ && a2 == ecol_);
        main_ = true;
    }
    s[n - 1] = 0;
    return 0;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    v_state(in, 0, n, 3, 5);
    size_t at[6], li[6], co[6];
    for (int k = 0; k < 6; k++) { at[k] = nondet_size_t(); VH_ASSUME(at[k] <= n); li[k] = nondet_size_t(); co[k] = nondet_size_t(); }
    vst.i = in + at[0]; vst.line = li[0]; vst.col = co[0];
    vst.last_body_start = in + at[1]; vst.last_body_start_line = li[1]; vst.last_body_start_col = co[1];
    vst.last_attr_start = in + at[2]; vst.last_attr_start_line = li[2]; vst.last_attr_start_col = co[2];
    vst.last_quote_start = in + at[3]; vst.last_quote_start_line = li[3]; vst.last_quote_start_col = co[3];
    vst.last_equals_start = in + at[4]; vst.last_equals_start_line = li[4]; vst.last_equals_start_col = co[4];
    vst.last_suspicios_quote_end = in + at[5]; vst.last_suspicios_quote_end_line = li[5]; vst.last_suspicios_quote_end_col = co[5];
    char dummy[64]; mb_ = (MemBuffer*)dummy; bool had = nondet_bool();
    vst.generating_error_msg = had ? mb_ : NULL;
    src_ = "src"; vst.source_name = src_;
    nnew_ = ndrop_ = nnull_ = nadd_ = 0; shown_ = main_ = false; lstart_ = 0; llen_ = 0;
    err_ = nondet_int();
    XMQParseError e = (XMQParseError)err_;
    int k = e == XMQ_ERROR_BODY_NOT_CLOSED ? 1 : e == XMQ_ERROR_ATTRIBUTES_NOT_CLOSED ? 2 : e == XMQ_ERROR_QUOTE_NOT_CLOSED ? 3 : e == XMQ_ERROR_EXPECTED_CONTENT_AFTER_EQUALS ? 4 : e == XMQ_WARNING_QUOTES_NEEDED ? 5 : 0;
    eline_ = li[k]; ecol_ = co[k];
    VH_ASSUME(g < n || n == 0);
    VP1 = in; VP2 = in + at[k]; VP3 = in + n; VG = in + (n ? g : 0); VN1 = 0;
    generate_state_error_message(&vst, e, in, in + n);
    VH_ASSERT("one message", main_ && nadd_ == (had ? 2 : 1) && nnull_ == 1 && nnew_ == (had ? 0 : 1) && ndrop_ == (had ? 1 : 0) && vst.generating_error_msg == mb_);
    VH_ASSERT("the line is shown when the place is inside the input", shown_ == (VP2 < VP3));
    if (shown_)
    {
        const char *ls = lstart_, *le = lstart_ + llen_;
        VH_ASSERT("the line shown is around the place", in <= ls && ls <= VP2 && VP2 <= le && le <= VP3);
        VH_ASSERT("the line is one line", !(ls <= VG && VG < le) || *VG != '\n');
        VH_ASSERT("from its beginning", ls == in || *(ls - 1) == '\n' || llen_ >= 1024);
        VH_ASSERT("to its end", le == VP3 || *le == '\n' || *le == 0 || llen_ >= 1024);
        VH_COVER("line");
        if (*VP2 == 'x') VH_COVER("at x");
    }
    VH_COVER("done");
}
