/*@unit
@title names: eat_xmq_text_name / doctype / pi consume exactly the maximal run of name chars, with the prefix split at the last colon, and keep the position
@func eat_xmq_text_name
@loop __CPROVER_assigns(i, colon, line, col, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, VP2, end) && VPOS)
 __CPROVER_loop_invariant(!(VLE(VP2, VG) && VLT(VG, i)) || VNAME(*VG))
 __CPROVER_loop_invariant(colon == NULL || (VIN(colon, VP2, i) && VLT(colon, i) && *colon == ':'))
 __CPROVER_loop_invariant(!(VLE(VP2, VG) && VLT(VG, i) && *VG == ':') || (colon != NULL && VLE(VG, colon)))
 __CPROVER_decreases(OFF(end) - OFF(i))
 @body if (VNAME(*i)) VSTEP(*i);
@func eat_xmq_doctype
@loop __CPROVER_assigns(i, line, col, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, VP3, end) && VPOS)
 __CPROVER_loop_invariant(!(VLE(VP3, VG) && VLT(VG, i)) || VNAME(*VG))
 __CPROVER_decreases(OFF(end) - OFF(i))
 @body if (VNAME(*i)) VSTEP(*i);
@func eat_xmq_pi
@loop __CPROVER_assigns(i, line, col, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(i, VP3, end) && VPOS)
 __CPROVER_loop_invariant(!(VLE(VP3, VG) && VLT(VG, i)) || VNAME(*VG))
 __CPROVER_decreases(OFF(end) - OFF(i))
 @body if (VNAME(*i)) VSTEP(*i);
@split 3
@unwind 30
@end*/
#define VH_MINN 1
#define VH_ALPHABET "aZ_0:-#!? ="
#define VH_EXLEN 4
#define VH_P 3
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
void eat_xmq_text_name(XMQParseState *state, const char **text_start, const char **text_stop, const char **namespace_start, const char **namespace_stop);
void eat_xmq_doctype(XMQParseState *state, const char **text_start, const char **text_stop);
void eat_xmq_pi(XMQParseState *state, const char **text_start, const char **text_stop);
#ifdef VH_PROOF
static int verr(XMQParseState *s) { return 0; }
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t at = g;
    VH_ASSUME(at < n);
    const char *s = 0, *e = 0, *ns = in, *ne = in;
    v_state(in, at, n, 3, 5);
#ifdef VH_PROOF
    size_t w = nondet_size_t();
    VH_ASSUME(w < n);
    VG = in + w; VP2 = in + at; VP3 = in + at + 1;
    if (p) { VP1 = in + at + 1; VN2 = 6; };
#endif
    if (p == 0) eat_xmq_text_name(&vst, &s, &e, &ns, &ne);
    else
    {
        VH_ASSUME(in[at] == (p == 1 ? '!' : '?'));
        if (p == 1) eat_xmq_doctype(&vst, &s, &e); else eat_xmq_pi(&vst, &s, &e);
    }
    VH_ASSERT("end of the name is the new position", e == vst.i);
    VH_ASSERT("position within the buffer", in + at <= vst.i && vst.i <= in + n);
    VH_ASSERT("the run is maximal", vst.i == in + n || !VNAME(*vst.i));
    V_CHECK_POS(in + at);
#ifdef VH_PROOF
    if (p == 0)
    {
        VH_ASSERT("the run is made of name chars", !(in + at <= VG && VG < vst.i) || VNAME(*VG));
        if (ns)
        {
            VH_ASSERT("prefix", ns == in + at && in + at <= ne && ne < vst.i && *ne == ':' && s == ne + 1);
            VH_ASSERT("split at the last colon", !(s <= VG && VG < vst.i) || *VG != ':');
            VH_COVER("prefix");
        }
        else
        {
            VH_ASSERT("no prefix", s == in + at && ne == NULL);
            VH_ASSERT("no colon", !(s <= VG && VG < vst.i) || *VG != ':');
            VH_COVER("no prefix");
        }
    }
    else
    {
        VH_ASSERT("starts with its mark", s == in + at && e > s);
        VH_ASSERT("the rest is made of name chars", !(in + at < VG && VG < vst.i) || VNAME(*VG));
        VH_COVER("doctype or pi");
    }
#else
    const char *c = 0, *k = in + at + (p > 0);
    for (; k < in + n && VNAME(*k); k++) if (*k == ':') c = k;
    VH_ASSERT("run", k == e);
    if (p == 0 && c) VH_ASSERT("prefix", ns == in + at && ne == c && s == c + 1);
    else VH_ASSERT("no prefix", s == in + at && (p || (ns == 0 && ne == 0)));
#endif
}
