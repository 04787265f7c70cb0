/*@unit
@title comments: a // comment ends behind the newline or at the end, a /* comment behind the first star followed by exactly its number of slashes; line and column are kept; too many slashes or no end is an error
@split 2
@unwind 16
@func count_xmq_slashes
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLE(start, VG) && VLT(VG, i)) || *VG == '/')
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start); VP3 = i; VP2 = start; if (OFF(start) == OFF(VG) + 1) VN3 = (size_t)(i - start); __CPROVER_assert(!(start <= VG && VG < i) || *VG == '/', "the run is made of slashes");
@func eat_xmq_comment_to_eol
@loop __CPROVER_assigns(i, c, line, col, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, state->buffer_start, end) && VPOS && VLE(*comment_start, i))
 __CPROVER_loop_invariant(!(VLE(*comment_start, VG) && VLT(VG, i) && OFF(VG) + 1 != OFF(i)) || *VG != '\n')
 __CPROVER_loop_invariant(OFF(i) == OFF(*comment_start) ? c == 0 : (OFF(VG) + 1 != OFF(i) || c == *VG))
 __CPROVER_decreases(OFF(end) - OFF(i))
 @body VREBASE(i, state->buffer_start); VSTEP(*i);
 @after VREBASE(i, state->buffer_start);
@func eat_xmq_comment_to_close
@loop __CPROVER_assigns(i, n, line, col, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, state->buffer_start, end) && VPOS && n <= num_slashes && VDIFF(i, state->buffer_start) == num_slashes - n && num_slashes < VDIFF(end, state->buffer_start))
 __CPROVER_decreases(n)
 @body VREBASE(i, state->buffer_start); VUSE(*i == '/'); VSTEP(*i);
 @after VREBASE(i, state->buffer_start); VSTEP(*i);
@loop __CPROVER_assigns(i, n, c, cc, line, col, *comment_stop, *found_asterisk, state->error_nr, state->i, state->line, state->col, VP1, VN1, VN2, VN3, VP2, VP3)
 __CPROVER_loop_invariant(VIN(i, state->buffer_start, end) && VPOS && VLE(*comment_start, i) && (c != '*' || VLT(*comment_start, i)))
 __CPROVER_loop_invariant(!(c == '*' && OFF(VG) + 1 == OFF(i)) || *VG == '*')
 __CPROVER_loop_invariant(!(VLE(*comment_start, VG) && OFF(VG) + 1 == OFF(i) && *VG == '*') || c == '*' || (c == '/' && VN3 >= 1 && VN3 < num_slashes))
 __CPROVER_loop_invariant(!(VLE(*comment_start, VG) && OFF(VG) + 1 < OFF(i) && *VG == '*' && VG[1] == '/') || (VN3 >= 1 && VN3 < num_slashes))
 __CPROVER_decreases(2 * (OFF(end) - OFF(i)) + (c == '*' ? 1 : 0))
 @body VREBASE(i, state->buffer_start); if (c != '*' || *i != '/') VSTEP(*i);
 @after VREBASE(i, state->buffer_start);
@loop __CPROVER_assigns(i, n, c, cc, line, col, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, state->buffer_start, end) && VPOS && VLE(VP2, i) && VDIFF(VP3, i) == n && VLE(i, VP3))
 __CPROVER_decreases(n)
 @body VREBASE(i, state->buffer_start); VUSE(*i == '/'); VSTEP(*i);
 @after VREBASE(i, state->buffer_start);
@end*/
#define VH_MINN 1
#define VH_TOKENS "/", "*", "a", "\n", "\xc3\xa5", "/*", "*/", "//"
#define VH_EXLEN 7
#define VH_NO_G
#define VH_P 3
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
void eat_xmq_comment_to_eol(XMQParseState *state, const char **comment_start, const char **comment_stop);
void eat_xmq_comment_to_close(XMQParseState *state, const char **comment_start, const char **comment_stop, size_t num_slashes, bool *found_asterisk);
#ifdef VH_PROOF
static int verr(XMQParseState *s) { return s->error_nr == XMQ_ERROR_COMMENT_NOT_CLOSED || s->error_nr == XMQ_ERROR_COMMENT_CLOSED_WITH_TOO_MANY_SLASHES; }
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    const char *s = 0, *e = 0;
    bool more = false;
    v_state(in, 0, n, 3, 5);
#ifdef VH_PROOF
    size_t w = nondet_size_t();
    VH_ASSUME(w < n);
    VG = in + w; VP2 = in; VP3 = in; VN3 = 0;
    if (p == 0)
    {
        VH_ASSUME(n >= 2 && in[0] == '/' && in[1] == '/');
        VP1 = in + 2; VN2 = 7;
        eat_xmq_comment_to_eol(&vst, &s, &e);
        VH_ASSERT("text starts behind the slashes", s == in + 2 && s <= e && e <= vst.i && vst.i <= in + n);
        VH_ASSERT("no newline in it", !(s <= VG && VG < e) || *VG != '\n');
        VH_ASSERT("ends at the newline or at the end", e == vst.i ? e == in + n : (vst.i == e + 1 && (VG != e || *VG == '\n')));
        V_CHECK_POS(in);
        VH_COVER("eol");
    }
    else
    {
        size_t k = nondet_size_t();
        VH_ASSUME(k >= 1 && k < n);
        bool cont = in[0] == '*';
        if (cont) { VP1 = in + 1; VN2 = 6; }
        if (!cont)
        {
            VH_ASSUME(in[k] == '*' && in[0] == '/');
            VH_ASSUME(w >= k || *VG == '/');        /* as counted by the caller: slashes in front of the star */
        }
        eat_xmq_comment_to_close(&vst, &s, &e, k, &more);
        VH_ASSERT("text starts behind the opening mark", s == in + (cont ? 1 : k + 1));
        VH_ASSERT("within the buffer", s <= e && e < vst.i && vst.i <= in + n);
        VH_ASSERT("a star and as many slashes close it", vst.i == e + 1 + k && (VG != e || *VG == '*') && (!(e < VG && VG < vst.i) || *VG == '/'));
        VH_ASSERT("and no more of them", vst.i == in + n || *vst.i != '/');
        VH_ASSERT("a star follows: continuation", more == (vst.i < in + n && *vst.i == '*'));
        VH_ASSERT("nothing before closes it", !(s <= VG && VG < e && *VG == '*' && VG[1] == '/') || (VN3 >= 1 && VN3 < k));
        V_CHECK_POS(in);
        VH_COVER("closed");
        if (cont) VH_COVER("continuation");
    }
#else
    size_t k = 0, a, end = 0, stop = 0; int want = 0; bool wm = false;
    if (p == 0)
    {
        VH_ASSUME(n >= 2 && in[0] == '/' && in[1] == '/');
        a = 2;
        for (end = 2; end < n && in[end] != '\n'; end++) ;
        stop = end < n ? end + 1 : end;
    }
    else
    {
        while (k < n && in[k] == '/') k++;
        VH_ASSUME(k < n && in[k] == '*' && (p == 1) == (k > 0));
        a = k + 1;
        if (p == 2) k = 1 + n % 3;
        want = XMQ_ERROR_COMMENT_NOT_CLOSED;
        for (size_t i = a; i < n; i++) if (in[i] == '*')
        {
            size_t r = 0; while (i + 1 + r < n && in[i+1+r] == '/') r++;
            if (r > k) { want = XMQ_ERROR_COMMENT_CLOSED_WITH_TOO_MANY_SLASHES; break; }
            if (r == k) { want = 0; end = i; stop = i + 1 + r; wm = stop < n && in[stop] == '*'; break; }
        }
    }
    if (VTRY)
    {
        if (p == 0) eat_xmq_comment_to_eol(&vst, &s, &e); else eat_xmq_comment_to_close(&vst, &s, &e, k, &more);
        VH_ASSERT("no error is overlooked", want == 0);
        VH_ASSERT("text", s == in + a && e == in + end && vst.i == in + stop && more == wm);
        V_CHECK_POS(in);
    }
    else VH_ASSERT("the right error", vst.error_nr == want);
#endif
}
