/*@unit
@title has_newlines, has_must_escape_chars, has_all_quotes, has_all_whitespace, has_leading_ending_quote decide exactly what their name says
@func has_newlines
@loop __CPROVER_assigns(i, VP1)
 __CPROVER_loop_invariant(VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLT(VG, i)) || *VG != '\n')
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VP1 = i;
@func has_must_escape_chars
@loop __CPROVER_assigns(i, VP1)
 __CPROVER_loop_invariant(VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLT(VG, i)) || *VG != '\n')
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VP1 = i;
@func has_all_quotes
@loop __CPROVER_assigns(i, VP1)
 __CPROVER_loop_invariant(VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLT(VG, i)) || *VG == '\'')
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VP1 = i;
@func has_all_whitespace
@loop __CPROVER_assigns(i, *all_space, *only_newlines, VP1, VP2, VP3)
 __CPROVER_loop_invariant(VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLT(VG, i)) || VWS(*VG))
 __CPROVER_loop_invariant(*(unsigned char*)all_space <= 1 && *(unsigned char*)only_newlines <= 1)
 __CPROVER_loop_invariant(!(VLT(VG, i)) || !*all_space || *VG == ' ')
 __CPROVER_loop_invariant(!(VLT(VG, i)) || !*only_newlines || *VG == '\n')
 __CPROVER_loop_invariant(*all_space || (VIN(VP2, start, i) && VLT(VP2, i) && *VP2 != ' '))
 __CPROVER_loop_invariant(*only_newlines || (VIN(VP3, start, i) && VLT(VP3, i) && *VP3 != '\n'))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VP1 = i; if (*i != ' ') VP2 = i; if (*i != '\n') VP3 = i;
@end*/
#define VH_ALPHABET "a \n\t'"
#define VH_EXLEN 6
#define VH_P 5
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "text.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    bool r, sp = false, nl = false;
#ifdef VH_PROOF
    VH_ASSUME(g < n || n == 0);
    VG = in + (n ? g : 0);
    VP1 = VP2 = VP3 = in;
#endif
    switch (p)
    {
    case 0: r = has_newlines(in, in + n); break;
    case 1: r = has_must_escape_chars(in, in + n); break;
    case 2: r = has_all_quotes(in, in + n); break;
    case 3: r = has_leading_ending_quote(in, in + n); break;
    default: r = has_all_whitespace(in, in + n, &sp, &nl); break;
    }
#ifdef VH_PROOF
    if (p < 2)
    {
        VH_ASSERT("a newline is found", !r || (in <= VP1 && VP1 < in + n && *VP1 == '\n'));
        VH_ASSERT("no newline is missed", r || n == 0 || *VG != '\n');
    }
    if (p == 2)
    {
        VH_ASSERT("all quotes", !r || n == 0 || *VG == '\'');
        VH_ASSERT("not all quotes", r || (in <= VP1 && VP1 < in + n && *VP1 != '\''));
    }
    if (p == 3) VH_ASSERT("leading or ending quote", r == (n > 0 && (in[0] == '\'' || in[n-1] == '\'')));
    if (p == 4)
    {
        VH_ASSERT("all whitespace", !r || n == 0 || VWS(*VG));
        VH_ASSERT("not all whitespace", r || (in <= VP1 && VP1 < in + n && !VWS(*VP1)));
        VH_ASSERT("all spaces", !sp || n == 0 || *VG == ' ');
        VH_ASSERT("not all spaces", sp || !r || (VP2 < in + n && *VP2 != ' '));
        VH_ASSERT("all newlines", !nl || n == 0 || *VG == '\n');
        VH_ASSERT("not all newlines", nl || !r || (VP3 < in + n && *VP3 != '\n'));
        VH_ASSERT("flags only with whitespace", r || (!sp && !nl));
    }
#else
    size_t cn = 0, cq = 0, cs = 0, cw = 0;
    for (size_t k = 0; k < n; k++) { cn += in[k] == '\n'; cq += in[k] == '\''; cs += in[k] == ' '; cw += VWS(in[k]); }
    if (p < 2) VH_ASSERT("newlines", r == (cn > 0));
    if (p == 2) VH_ASSERT("all quotes", r == (cq == n));
    if (p == 3) VH_ASSERT("leading or ending quote", r == (n > 0 && (in[0] == '\'' || in[n-1] == '\'')));
    if (p == 4) VH_ASSERT("all whitespace", r == (cw == n) && sp == (cs == n) && nl == (cn == n));
#endif
}
