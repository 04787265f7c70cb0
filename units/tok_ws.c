/*@unit
@title whitespace: eat_xml_whitespace and eat_xmq_token_whitespace consume exactly the maximal whitespace run (tokens: without tabs) and keep the position
@split 2
@func count_whitespace
@func eat_xml_whitespace
@loop __CPROVER_assigns(i, line, col, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, VP2, buffer_stop) && VPOS)
 __CPROVER_decreases(OFF(buffer_stop) - OFF(i))
 @body VREBASE(i, VP2); { size_t w_ = VWSLEN(i, buffer_stop); if (w_ > 0) VSTEP(i[0]); if (w_ > 1) VSTEP(i[1]); if (w_ > 2) VSTEP(i[2]); }
@func eat_xmq_token_whitespace
@loop __CPROVER_assigns(i, line, col, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, VP2, buffer_stop) && VPOS)
 __CPROVER_loop_invariant(!(VLE(VP2, VG) && VLT(VG, i)) || *VG != '\t')
 __CPROVER_decreases(OFF(buffer_stop) - OFF(i))
 @body VREBASE(i, VP2); { size_t w_ = *i == '\t' ? 0 : VWSLEN(i, buffer_stop); if (w_ > 0) VSTEP(i[0]); if (w_ > 1) VSTEP(i[1]); if (w_ > 2) VSTEP(i[2]); }
@end*/
#define VH_MINN 0
#define VH_TOKENS "a", " ", "\n", "\t", "\r", "\xc2", "\xa0", "\xe2", "\x80", "\x83", "\xe2\x80\x82", "\xc2\xa0"
#define VH_EXLEN 4
#define VH_RNDLEN 12
#define VH_P 2
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
void eat_xml_whitespace(XMQParseState *state, const char **start, const char **stop);
void eat_xmq_token_whitespace(XMQParseState *state, const char **start, const char **stop);
#ifdef VH_PROOF
static int verr(XMQParseState *s) { return 0; }
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t at = g;
    VH_ASSUME(at <= n);
    const char *e = in + n, *s = 0, *t = 0;
    v_state(in, at, n, 3, 5);
#ifdef VH_PROOF
    size_t w = nondet_size_t();
    VH_ASSUME(w < n || n == 0);
    VG = in + (n ? w : 0); VP2 = in + at;
#endif
    if (p == 0) eat_xml_whitespace(&vst, &s, &t); else eat_xmq_token_whitespace(&vst, &s, &t);
    VH_ASSERT("start of the run", s == in + at);
    VH_ASSERT("position within the buffer", in + at <= vst.i && vst.i <= in + n);
    VH_ASSERT("end of the run", t == vst.i || (t == 0 && vst.i == in + at));
    VH_ASSERT("the run is maximal", vst.i == e || v_wslen(vst.i, e) == 0 || (p == 1 && *vst.i == '\t'));
    V_CHECK_POS(in + at);
#ifdef VH_PROOF
    VH_ASSERT("no tab is eaten as token whitespace", p == 0 || !(in + at <= VG && VG < vst.i) || *VG != '\t');
#else
    const char *k = in + at;
    while (k < e && v_wslen(k, e) > 0 && !(p && *k == '\t')) k += v_wslen(k, e);
    VH_ASSERT("run", k == vst.i);
#endif
    VH_COVER("whitespace");
}
