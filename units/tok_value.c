/*@unit
@title eat_xmq_text_value consumes exactly the maximal run of chars that are safe outside quotes; is_safe_value_char and count_whitespace follow the language
@split 2
@func is_safe_value_char
@func count_whitespace
@func eat_xmq_text_value
@loop __CPROVER_assigns(i, line, col, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, VP2, stop) && VPOS)
 __CPROVER_loop_invariant(!(VLE(VP2, VG) && VLT(VG, i)) || VB1)
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body if (VSAFE(i, stop)) VSTEP(*i);
@func is_xmq_text_value
@loop __CPROVER_assigns(i, VP3)
 __CPROVER_loop_invariant(VIN(i, start, stop))
 __CPROVER_loop_invariant(!VLT(VG, i) || VB1)
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VP3 = i;
@end*/
#define VH_MINN 1
#define VH_TOKENS "a", " ", "\n", "\t", "\r", "'", "\"", "(", ")", "{", "}", "=", "/", "*", "&", "\xc2", "\xa0", "\xe2", "\x80", "\x83", "\x84", "\0"
#define VH_EXLEN 3
#define VH_RNDLEN 12
#define VH_P 2
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
void eat_xmq_text_value(XMQParseState *state);
bool is_xmq_text_value(const char *start, const char *stop);
#ifdef VH_PROOF
static int verr(XMQParseState *s) { return 0; }
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t at = g;
    VH_ASSUME(at < n);
    const char *e = in + n;
    if (p == 0)
    {
        v_state(in, at, n, 3, 5);
#ifdef VH_PROOF
        size_t w = nondet_size_t();
        VH_ASSUME(w < n);
        VG = in + w; VP2 = in + at; VB1 = v_safe(VG, e);
#endif
        eat_xmq_text_value(&vst);
        VH_ASSERT("position within the buffer", in + at <= vst.i && vst.i <= in + n);
        VH_ASSERT("the run is maximal", vst.i == e || !v_safe(vst.i, e));
        V_CHECK_POS(in + at);
#ifdef VH_PROOF
        VH_ASSERT("the run is made of safe chars", !(in + at <= VG && VG < vst.i) || VB1);
#else
        for (const char *k = in + at; k < vst.i; k++) VH_ASSERT("the run is made of safe chars", v_safe(k, e));
#endif
        VH_COVER("value");
    }
    else
    {
#ifdef VH_PROOF
        VG = in + at; VP3 = in; VB1 = v_safe(VG, e);
#endif
        bool r = is_xmq_text_value(in, e);
        bool un = in[0] == '=' || in[0] == '&' || (n > 1 && in[0] == '/' && (in[1] == '/' || in[1] == '*'));
#ifdef VH_PROOF
        VH_ASSERT("a text value is safe", !r || (!un && VB1));
        VH_ASSERT("an unsafe place is shown", r || un || (in <= VP3 && VP3 < e && !v_safe(VP3, e)));
#else
        bool safe = true;
        for (size_t k = 0; k < n; k++) safe = safe && v_safe(in + k, e);
        VH_ASSERT("text value", r == (!un && safe));
#endif
        VH_COVER("checked");
    }
}
