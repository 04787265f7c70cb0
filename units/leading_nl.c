/*@unit
@title has_leading_space_nl: result is the maximal leading whitespace run iff it holds a newline; pure-newline count exact
@func has_leading_space_nl
@loop __CPROVER_assigns(i, only_nls, VP1)
 __CPROVER_loop_invariant(VIN(i, start, stop) && only_nls == VDIFF(i, start) && VP1 == i)
 __CPROVER_loop_invariant(!VLT(VG, i) || *VG == '\n')
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VP1 = i + 1;
@loop __CPROVER_assigns(i, found_nl, VP2)
 __CPROVER_loop_invariant(VIN(i, VP1, stop))
 __CPROVER_loop_invariant(!VLT(VG, i) || VWS(*VG))
 __CPROVER_loop_invariant(!(VLT(VG, i) && *VG == '\n') || found_nl)
 __CPROVER_loop_invariant(!found_nl || only_nls > 0 || (VIN(VP2, start, i) && VLT(VP2, i) && *VP2 == '\n'))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body if (*i == '\n') VP2 = i;
@end*/
#define VH_MINN 1
#define VH_ALPHABET "a \n\t'"
#define VH_EXLEN 7
#define VH_P 2
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "text.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t only = 77;
#ifdef VH_PROOF
    VH_ASSUME(g < n);
    VG = in + g;
    VP1 = VP2 = in;
#endif
    const char *r = has_leading_space_nl(in, in + n, p ? &only : NULL);
#ifdef VH_PROOF
    if (r)
    {
        VH_ASSERT("result lies behind start and not behind stop", __CPROVER_same_object(in, r) && in < r && r <= in + n);
        VH_ASSERT("everything skipped is whitespace", !(g < (size_t)(r-in)) || VWS(in[g]));
        VH_ASSERT("the skipped run is maximal", r == in + n || !VWS(*r));
        VH_ASSERT("the skipped run holds a newline", VP1 > in || (VP2 < r && *VP2 == '\n'));
        VH_ASSERT("VP1 is the end of the newline prefix", VP1 >= in && VP1 <= r);
        VH_ASSERT("newline prefix", !(VG < VP1) || *VG == '\n');
        if (p) VH_ASSERT("pure newline count exact", (VP1 == r) ? only == (size_t)(r - in) : (only == 0 && *VP1 != '\n'));
        VH_COVER("trimmed");
    }
    else
    {
        if (p) VH_ASSERT("count reset", only == 0);
        VH_COVER("not trimmed");
    }
#else
    size_t k = 0, nl = 0, pre = 0;
    while (k < n && VWS(in[k])) { if (in[k] == '\n') { nl++; if (pre == k) pre++; } k++; }
    VH_ASSERT("result", r == (nl ? in + k : NULL));
    if (p) VH_ASSERT("pure newline count", only == (nl && pre == k ? k : 0));
#endif
}
