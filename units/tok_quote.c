/*@unit
@title eat_xmq_quote ends behind the first run of as many quotes as it started with, every shorter run belongs to the content, line and column are kept; too many quotes or no end is an error
@func count_xmq_quotes
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLE(start, VG) && VLT(VG, i)) || *VG == '\'')
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start); VP3 = i; __CPROVER_assert(!(start <= VG && VG < i) || *VG == '\'', "the run is made of quotes"); if (start <= VG && VG < i) { VB1 = 1; VN3 = (size_t)(i - start); } else VB1 = 0;
@func eat_xmq_quote
@loop __CPROVER_assigns(i, line, col, count, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, state->buffer_start, end) && VPOS && VIN(VP3, state->buffer_start, end) && VLE(i, VP3) && count == VDIFF(VP3, i))
 __CPROVER_decreases(count)
 @body VREBASE(i, state->buffer_start); VUSE(*i == '\''); VSTEP(*i);
 @after VREBASE(i, state->buffer_start); VP2 = i; VN5 = (size_t)(i - state->buffer_start); VN3 = 0;
@loop __CPROVER_assigns(i, line, col, depth, *stop, state->error_nr, VP1, VN1, VN2, VN3, VP3, VB1, VN4)
 __CPROVER_loop_invariant(VIN(i, state->buffer_start, end) && VPOS && VIN(VP3, state->buffer_start, end) && VLE(VP2, i) && depth == VN5)
 __CPROVER_loop_invariant(!(VLE(VP2, VG) && VLT(VG, i) && *VG == '\'') || (VN3 >= 1 && VN3 < depth))
 __CPROVER_loop_invariant(VLT(VP2, i) || VP2 == i)
 __CPROVER_decreases(OFF(end) - OFF(i))
 @body VREBASE(i, state->buffer_start); if (*i != '\'') VSTEP(*i);
 @after VREBASE(i, state->buffer_start);
@loop __CPROVER_assigns(i, line, col, count, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, state->buffer_start, end) && VPOS && VIN(VP3, state->buffer_start, end) && VLE(i, VP3) && count == VDIFF(VP3, i) && VLE(VP2, i))
 __CPROVER_decreases(count)
 @body VREBASE(i, state->buffer_start); VUSE(*i == '\''); VSTEP(*i);
@loop __CPROVER_assigns(i, line, col, count, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, state->buffer_start, end) && VPOS && VIN(VP3, state->buffer_start, end) && VLE(i, VP3) && count == VDIFF(VP3, i) && VLE(VP2, i) && VDIFF(VP3, VP2) >= depth)
 __CPROVER_decreases(count)
 @body VREBASE(i, state->buffer_start); VUSE(*i == '\''); VSTEP(*i);
@unwind 16
@end*/
#define VH_MINN 1
#define VH_ALPHABET "'a \n"
#define VH_EXLEN 9
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
void eat_xmq_quote(XMQParseState *state, const char **start, const char **stop);
#ifdef VH_PROOF
static int verr(XMQParseState *s) { return s->error_nr == XMQ_ERROR_QUOTE_NOT_CLOSED || s->error_nr == XMQ_ERROR_QUOTE_CLOSED_WITH_TOO_MANY_QUOTES; }
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    const char *s = 0, *e = 0;
    v_state(in, 0, n, 3, 5);
    VH_ASSUME(in[0] == '\'');
#ifdef VH_PROOF
    size_t w = nondet_size_t();
    VH_ASSUME(w < n);
    VG = in + w; VP2 = in; VP3 = in; VN3 = 0; VB1 = 0;
    eat_xmq_quote(&vst, &s, &e);
    size_t d = VN5;
    VH_ASSERT("opening quotes, all of them", 1 <= d && d <= n && (d == n || in[d] != '\''));
    VH_ASSERT("start", s == in);
    VH_ASSERT("end is the new position", e == vst.i && in < e && e <= in + n);
    V_CHECK_POS(in);
    if (d == 2)
    {
        VH_ASSERT("the empty quote", e == in + 2);
        VH_COVER("empty");
    }
    else
    {
        VH_ASSERT("behind the opening quotes and as many closing ones", e >= in + 2 * d && e == VP3);
        VH_ASSERT("closing quotes", !(e - d <= VG && VG < e) || *VG == '\'');
        VH_ASSERT("and no more of them", e == in + n || *e != '\'');
        VH_ASSERT("shorter runs only inside", !(in + d <= VG && VG < e - d && *VG == '\'') || (VN3 >= 1 && VN3 < d));
        VH_COVER("closed");
    }
#else
    size_t d = 0, k, run = 0, end = 0; int want = XMQ_ERROR_QUOTE_NOT_CLOSED;
    while (d < n && in[d] == '\'') d++;
    if (d == 2) { end = 2; want = 0; }
    else for (k = d; k <= n; k++)
    {
        if (k < n && in[k] == '\'') { run++; continue; }
        if (run > d) { want = XMQ_ERROR_QUOTE_CLOSED_WITH_TOO_MANY_QUOTES; break; }
        if (run == d) { want = 0; end = k; break; }
        run = 0;
    }
    if (VTRY)
    {
        eat_xmq_quote(&vst, &s, &e);
        VH_ASSERT("no error is overlooked", want == 0);
        VH_ASSERT("start and end", s == in && e == in + end && vst.i == e);
        V_CHECK_POS(in);
        VH_COVER("closed");
    }
    else VH_ASSERT("the right error", vst.error_nr == want);
#endif
}
