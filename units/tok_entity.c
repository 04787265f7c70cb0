/*@unit
@title eat_xmq_entity: an entity is & and the maximal run of name chars with its semicolon; only lowercase hex digits may go without; the position is kept
@func eat_xmq_entity
@loop __CPROVER_assigns(i, c, expect_semicolon, line, col, VP1, VN1, VN2, VB2)
 __CPROVER_loop_invariant(VIN(i, VP3, end) && VPOS && (c == 0 || VNAME(c)) && expect_semicolon == VB2)
 __CPROVER_loop_invariant(!(VLE(VP3, VG) && VLT(VG, i)) || (VNAME(*VG) && (VLHEX(*VG) || VB2)))
 __CPROVER_decreases(OFF(end) - OFF(i))
 @body if (VNAME(*i)) { if (!VLHEX(*i)) VB2 = true; VSTEP(*i); }
 @after VP2 = i; if (VLT(i, end) && *i == ';') VSTEP(*i);
@unwind 30
@end*/
#define VH_MINN 1
#define VH_ALPHABET "aZ_0&-#; g"
#define VH_EXLEN 5
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
#ifndef VLHEX
#define VLHEX(c) (((c) >= '0' && (c) <= '9') || ((c) >= 'a' && (c) <= 'f'))
#endif
void eat_xmq_entity(XMQParseState *state);
#ifdef VH_PROOF
static int verr(XMQParseState *s)
{
    return s->error_nr == XMQ_ERROR_ENTITY_NOT_CLOSED && VB2 && !(VP2 < s->buffer_stop && *VP2 == ';');
}
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t at = g;
    VH_ASSUME(at < n && in[at] == '&');
    v_state(in, at, n, 3, 5);
#ifdef VH_PROOF
    size_t w = nondet_size_t();
    VH_ASSUME(w < n);
    VG = in + w; VP2 = VP3 = VP1 = in + at + 1; VN2 = 6; VB2 = false;
    eat_xmq_entity(&vst);
    VH_ASSERT("the name ends at the new position or the semicolon before it", vst.i == VP2 || (vst.i == VP2 + 1 && *VP2 == ';'));
    VH_ASSERT("a semicolon is part of it", !(VP2 < in + n && *VP2 == ';') || vst.i == VP2 + 1);
    VH_ASSERT("the run is maximal", VP2 == in + n || !VNAME(*VP2));
    VH_ASSERT("the name is made of name chars", !(in + at < VG && VG < VP2) || VNAME(*VG));
    VH_ASSERT("without semicolon: lowercase hex digits", vst.i == VP2 + 1 || !(in + at < VG && VG < VP2) || VLHEX(*VG));
    if (vst.i == VP2 + 1) VH_COVER("semicolon");
    if (vst.i == VP2) VH_COVER("no semicolon");
    V_CHECK_POS(in + at);
#else
    const char *k = in + at + 1; bool hex = true;
    for (; k < in + n && VNAME(*k); k++) if (!VLHEX(*k)) hex = false;
    bool semi = k < in + n && *k == ';';
    bool ok = false;
    if (VTRY) { eat_xmq_entity(&vst); ok = true; }
    VH_ASSERT("an error when, and only when, a semicolon is missing", ok == (semi || hex));
    if (!ok) { VH_ASSERT("an error exit names an error", vst.error_nr == XMQ_ERROR_ENTITY_NOT_CLOSED); VH_COVER("error"); return; }
    VH_ASSERT("the run with its semicolon", vst.i == k + semi);
    V_CHECK_POS(in + at);
    VH_COVER("entity");
#endif
}
