/*@unit
@title is_xmq_element_name: true iff the text is a name; colon points to its last colon
@func is_xmq_element_name
@loop __CPROVER_assigns(i, *colon, VP1)
 __CPROVER_loop_invariant(VIN(i, VP2, stop) && VLT(start, i))
 __CPROVER_loop_invariant(!(VLT(VG, i) && VLT(start, VG)) || VNAME(*VG))
 __CPROVER_loop_invariant(*colon == NULL || (VIN(*colon, start, i) && VLT(*colon, i) && VLT(start, *colon) && **colon == ':'))
 __CPROVER_loop_invariant(!(VLT(VG, i) && VLT(start, VG) && *VG == ':') || (*colon != NULL && VLE(VG, *colon)))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VP1 = i;
@end*/
#define VH_MINN 1
#define VH_ALPHABET "aZ_0:-.#'/ "
#define VH_EXLEN 4
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "text.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    const char *colon = in;
#ifdef VH_PROOF
    VH_ASSUME(g < n);
    VG = in + g; VP1 = in; VP2 = in;
#endif
    bool r = is_xmq_element_name(in, in + n, &colon);
#ifdef VH_PROOF
    if (r)
    {
        VH_ASSERT("starts like a name", VSTART(in[0]));
        VH_ASSERT("name chars", VG == in || VNAME(*VG));
        VH_ASSERT("colon is a colon", colon == NULL || (in < colon && colon < in + n && *colon == ':'));
        VH_ASSERT("colon is the last one", *VG != ':' || (colon != NULL && VG <= colon));
        VH_COVER("name");
    }
    else
    {
        VH_ASSERT("a char that is not part of a name is shown", !VSTART(in[0]) || (in < VP1 && VP1 < in + n && !VNAME(*VP1)));
        VH_COVER("no name");
    }
#else
    bool w = VSTART(in[0]); const char *c = NULL;
    for (size_t k = 1; k < n; k++) { if (!VNAME(in[k])) w = false; if (in[k] == ':') c = in + k; }
    VH_ASSERT("name", r == w);
    if (r) VH_ASSERT("colon", colon == c);
#endif
}
