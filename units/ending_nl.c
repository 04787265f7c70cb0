/*@unit
@title has_ending_nl_space: result is the start of the maximal ending whitespace run iff that run holds a newline; pure-newline count exact
@func has_ending_nl_space
@loop __CPROVER_assigns(VP1, i, only_nls, found_nl)
 __CPROVER_loop_invariant(VP1 == i && __CPROVER_same_object(i, start) && SOFF(i) >= SOFF(start) - 1 && SOFF(i) <= SOFF(stop) - 1)
 __CPROVER_loop_invariant(only_nls == (size_t)(SOFF(stop) - 1 - SOFF(i)) && found_nl == (only_nls > 0))
 __CPROVER_loop_invariant(!(SOFF(VG) > SOFF(i)) || *VG == '\n')
 __CPROVER_decreases(SOFF(i) - SOFF(start) + 1)
 @body VP1 = i - 1;
@loop __CPROVER_assigns(i, found_nl, VP2, VP3)
 __CPROVER_loop_invariant(__CPROVER_same_object(i, start) && SOFF(i) >= SOFF(start) - 1 && SOFF(i) <= SOFF(middle))
 __CPROVER_loop_invariant(!(SOFF(VG) > SOFF(i)) || VWS(*VG))
 __CPROVER_loop_invariant(SOFF(i) == SOFF(middle) || VP3 == i + 1)
 __CPROVER_loop_invariant(!(SOFF(VG) > SOFF(i) && *VG == '\n') || found_nl)
 __CPROVER_loop_invariant(!found_nl || only_nls > 0 || (VIN(VP2, start, stop) && SOFF(VP2) > SOFF(i) && SOFF(VP2) <= SOFF(middle) && *VP2 == '\n'))
 __CPROVER_decreases(SOFF(i) - SOFF(start) + 1)
 @body VP3 = i; if (*i == '\n') VP2 = i;
@end*/
#define VH_MINN 1
#define VH_ALPHABET "a \n\t'"
#define VH_EXLEN 7
#define VH_P 2
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "text.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t only = 77;
#ifdef VH_PROOF
    VH_ASSUME(g < n);
    /* the scan may step one before the buffer it was given: give it a buffer that is part of a larger one (see the trusted base) */
    char *big = malloc(n + 1);
    __CPROVER_assume(big != 0);
    in = big + 1;
    VG = in + g;
    VP1 = in + n - 1; VP2 = in; VP3 = in + n;
#endif
    const char *r = has_ending_nl_space(in, in + n, p ? &only : NULL);
#ifdef VH_PROOF
    if (r)
    {
        VH_ASSERT("result lies in the text", __CPROVER_same_object(in, r) && in <= r && r < in + n);
        VH_ASSERT("everything cut off is whitespace", !(VG >= r) || VWS(*VG));
        VH_ASSERT("the run cut off is maximal", r == in || !VWS(r[-1]));
        VH_ASSERT("the run cut off holds a newline", VP1 < in + n - 1 || (VP2 >= r && *VP2 == '\n'));
        if (p) VH_ASSERT("pure newline count exact", VP1 + 1 == r ? only == (size_t)(in + n - r) : only == 0);
        if (p) VH_ASSERT("count means newlines only", !(only && VG >= r) || *VG == '\n');
        VH_COVER("trimmed");
    }
    else
    {
        if (p) VH_ASSERT("count reset", only == 0);
        VH_ASSERT("the ending whitespace run holds no newline", !(VG >= VP3) || *VG != '\n');
        VH_ASSERT("the run looked at is maximal", in <= VP3 && VP3 < in + n && (VP3 == in || !VWS(*VP3)));
        VH_COVER("not trimmed");
    }
#else
    size_t k = n, nl = 0, pre = 0;
    while (k > 0 && VWS(in[k-1])) { k--; if (in[k] == '\n') { nl++; if (pre == n - 1 - k) pre++; } }
    VH_ASSERT("result", r == (nl ? in + k : NULL));
    if (p) VH_ASSERT("pure newline count", only == (nl && pre == n - k ? n - k : 0));
#endif
}
