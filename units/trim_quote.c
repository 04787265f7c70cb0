/*@unit
@title xmq_trim_quote: the result holds each char that is no space exactly once and in its place behind the ones before; the incidental indentation is at most that of any line; nothing is read or written outside of its memory
@func xmq_trim_quote
@loop __CPROVER_assigns(stop, append_newlines)
 __CPROVER_loop_invariant(VIN(stop, start, VP1) && append_newlines <= VDIFF(VP1, stop))
 __CPROVER_loop_invariant(!(VLE(stop, VG) && VLT(VG, VP1)) || !VB1)
 __CPROVER_decreases(OFF(stop) - OFF(start))
 @body VREBASE(stop, start);
 @after VREBASE(stop, start); VP3 = stop;
@loop __CPROVER_assigns(i, __CPROVER_object_whole(buf))
 __CPROVER_loop_invariant(i <= append_newlines)
 __CPROVER_decreases(append_newlines - i)
@loop __CPROVER_assigns(i, start, prepend_newlines)
 __CPROVER_loop_invariant(VIN(i, eol, stop) && VIN(start, eol, i) && prepend_newlines <= VDIFF(start, eol))
 __CPROVER_loop_invariant(!(VLE(eol, VG) && VLT(VG, i)) || !VB1)
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, eol); VREBASE(start, eol);
 @after VREBASE(start, eol);
@loop __CPROVER_assigns(i, has_nl, found_indent, after_last_non_space, eol, incidental, first_line, VN2, VB2)
 __CPROVER_loop_invariant(VIN(i, start, stop) && stop == VP3 && (i == start || !first_line || ignore_first_indent))
 __CPROVER_loop_invariant(!VB2 || VLT(VP2, i))
 __CPROVER_loop_invariant(!(VLE(start, VP2) && VLT(VP2, i)) || !VB2 || (VP2 == start && !ignore_first_indent) || incidental <= VN2)
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start);
@loop __CPROVER_assigns(o, prepend_spaces, __CPROVER_object_whole(output))
 __CPROVER_loop_invariant(__CPROVER_same_object(o, output) && prepend_spaces <= __CPROVER_loop_entry(prepend_spaces) && OFF(o) == __CPROVER_loop_entry(prepend_spaces) - prepend_spaces)
 __CPROVER_decreases(prepend_spaces)
 @body VREBASE(o, output);
 @after VREBASE(o, output);
@loop __CPROVER_assigns(o, prepend_newlines, __CPROVER_object_whole(output))
 __CPROVER_loop_invariant(__CPROVER_same_object(o, output) && prepend_newlines <= __CPROVER_loop_entry(prepend_newlines) && OFF(o) == OFF(__CPROVER_loop_entry(o)) + __CPROVER_loop_entry(prepend_newlines) - prepend_newlines)
 __CPROVER_decreases(prepend_newlines)
 @body VREBASE(o, output);
 @after VREBASE(o, output); VN4 = OFF(o);
@loop __CPROVER_assigns(i, found_indent, after_last_non_space, eol, first_line, o, VN1, VN2, VB2, VN3, VN5, __CPROVER_object_whole(output))
 __CPROVER_loop_invariant(VIN(i, start, stop) && __CPROVER_same_object(o, output) && OFF(o) + OFF(start) <= OFF(i) + VN4)
 __CPROVER_loop_invariant(VN1 == (VB1 && VLT(VG, i) ? 1 : 0))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start); VREBASE(o, output); VN3 = OFF(o) + OFF(start); VN5 = OFF(i) + VN4;
 @after VREBASE(i, start); VREBASE(o, output);
@loop __CPROVER_assigns(i, n)
 __CPROVER_loop_invariant(VIN(i, __CPROVER_loop_entry(i), eol) && n <= incidental)
 __CPROVER_loop_invariant(!VB1 || VLT(VG, __CPROVER_loop_entry(i)) || VLE(i, VG))
 __CPROVER_loop_invariant(i == __CPROVER_loop_entry(i) || i[-1] == ' ' || i[-1] == '\t')
 __CPROVER_decreases(n)
 @body VREBASE(i, start);
 @after VREBASE(i, start); VN5 = OFF(i) + VN4; VCUT(VN3 <= VN5);
@loop __CPROVER_assigns(i, o, VN1, VN3, VN5, __CPROVER_object_whole(output))
 __CPROVER_loop_invariant(__CPROVER_same_object(i, start) && VLE(__CPROVER_loop_entry(i), i) && VLE(i, eol) && (VLE(i, after_last_non_space) || i == __CPROVER_loop_entry(i)))
 __CPROVER_loop_invariant(__CPROVER_same_object(o, output) && VN3 == OFF(o) + OFF(start) && VN5 == OFF(i) + VN4 && VN3 <= VN5)
 __CPROVER_loop_invariant(VN1 == (VB1 && VLT(VG, i) ? 1 : 0))
 __CPROVER_decreases(OFF(eol) - OFF(i))
 @body VREBASE(i, start); VREBASE(o, output); VN3 = VN3 + 1; VN5 = VN5 + 1; if (i == VG && VB1) VN1 = VN1 + 1;
 @after VREBASE(i, start); VREBASE(o, output); VCUT(VN1 == (VB1 && VLT(VG, eol) ? 1 : 0));
@loop __CPROVER_assigns(i, o, VN3, VN5, __CPROVER_object_whole(output))
 __CPROVER_loop_invariant(__CPROVER_same_object(i, start) && VLE(__CPROVER_loop_entry(i), i) && VLE(i, eol))
 __CPROVER_loop_invariant(__CPROVER_same_object(o, output) && VN3 == OFF(o) + OFF(start) && VN5 == OFF(i) + VN4 && VN3 <= VN5)

 __CPROVER_decreases(OFF(eol) - OFF(i))
 @body VREBASE(i, start); VREBASE(o, output); VN3 = VN3 + 1; VN5 = VN5 + 1;
 @after VREBASE(i, start); VREBASE(o, output);
@loop __CPROVER_assigns(o, append_newlines, __CPROVER_object_whole(output))
 __CPROVER_loop_invariant(__CPROVER_same_object(o, output) && append_newlines <= __CPROVER_loop_entry(append_newlines) && OFF(o) == OFF(__CPROVER_loop_entry(o)) + __CPROVER_loop_entry(append_newlines) - append_newlines)
 __CPROVER_decreases(append_newlines)
 @body VREBASE(o, output);
 @after VREBASE(o, output);
@stub find_line has_leading_space_nl has_ending_nl_space strndup
@trust find_line, has_leading_space_nl and has_ending_nl_space as their own contracts say (units find_line, leading_nl, ending_nl)
@groups 140
@timeout 200
@unwind 20
@light
@noexec
@end*/
#define VH_MINN 1
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
char *xmq_trim_quote(size_t indent, char space, const char *start, const char *stop);
#ifdef VH_PROOF
static const char *S_, *E_, *a1_, *e1_; static bool nl1_, nb_, copied_, seen_; static size_t n_, d1_;
bool find_line(const char *start, const char *stop, size_t *indent, const char **after, const char **eol)
{
    VH_ASSERT("find_line is given a part of the text", __CPROVER_same_object(start, S_) && __CPROVER_same_object(stop, S_) && S_ <= start && start <= stop && stop <= E_);
    size_t k = nondet_size_t(), a = nondet_size_t(), d = nondet_size_t();
    bool nl = nondet_bool();
    VH_ASSUME(k <= (size_t)(stop - start) && a <= k && (nl ? k > a : k == (size_t)(stop - start)) && d <= 8 * k);
    VH_ASSUME(!(nb_ && start == S_) || a > 0); /* it holds a char that is no space, and that char was not removed from the end */
    if (seen_ && start == S_ && stop == E_) VH_ASSUME(start + a == a1_ && start + k == e1_ && nl == nl1_ && d == d1_); /* a second look gives the same */
    VH_ASSUME(!nl || start[k-1] == '\n' || start[k-1] == '\r');
    VH_ASSUME(!(VB1 && start <= VG && VG < start + k) || VG < start + a);
    if (start == VP2) { VN2 = d; VB2 = a > 0; }
    if (!seen_ && start == S_ && stop == E_) { seen_ = true; a1_ = start + a; e1_ = start + k; nl1_ = nl; d1_ = d; }
    *indent = d; *after = start + a; *eol = start + k;
    return nl;
}
const char *has_ending_nl_space(const char *start, const char *stop, size_t *only) { return nondet_bool() ? start : NULL; }
const char *has_leading_space_nl(const char *start, const char *stop, size_t *only)
{
    VH_ASSERT("asked for the whole text without its ending space", start == S_ && S_ < stop && stop <= E_ && (stop == E_ || !VWS(stop[-1])));
    VB2 = false; /* the lines are counted from here */
    if (!nondet_bool()) { VH_ASSUME(a1_ > start); nb_ = true; return NULL; } /* called only when there is a newline: the first line is not all space */
    /* the first line is all space, so the char in front of stop is behind it, unless nothing was removed from the end */
    VH_ASSUME(a1_ == start && nl1_ && e1_ <= stop);
    VH_ASSUME(!(VB1 && start <= VG && VG < e1_));
    return start;
}
char *strndup(const char *s, size_t n) { copied_ = true; n_ = n; VH_ASSERT("the whole text", s == S_ && n == (size_t)(E_ - S_)); return NULL; }
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
#ifdef VH_PROOF
    S_ = in; E_ = in + n; copied_ = false; a1_ = e1_ = in; nl1_ = nb_ = seen_ = false;
    size_t indent = nondet_size_t(), w = nondet_size_t(), l = nondet_size_t(); VH_ASSUME(indent <= VH_MAXN && w < n && l < n);
    VG = in + w; VB1 = !VWS(*VG); VP1 = E_; VP2 = in + l; VP3 = E_;
    VN1 = VN5 = VN3 = VN2 = VN4 = 0; VB2 = false;
    bool zero = nondet_bool();
    char *r = xmq_trim_quote(zero ? 0 : indent, zero ? 0 : ' ', in, in + n);
    if (copied_) { VH_COVER("kept as it is"); return; }
    VH_ASSERT("each char but space is written once", VN1 == (VB1 ? 1 : 0));
    if (VB1) VH_COVER("a char");
#endif
}
