/*@unit
@title is_all_xml_whitespace: true iff every char of the string is xml whitespace
@func is_all_xml_whitespace
@loop __CPROVER_assigns(i, VP1)
 __CPROVER_loop_invariant(VIN(i, s, VP2))
 __CPROVER_loop_invariant(!VLT(VG, i) || (VWS(*VG)))
 __CPROVER_decreases(OFF(VP2) - OFF(i))
 @body VP1 = i;
@end*/
#define VH_ALPHABET "a \n\t\r\f"
#define VH_EXLEN 6
#define VH_P 2
#define VH_TAIL 1
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "text.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
#ifdef VH_PROOF
    VH_ASSUME(g < n || n == 0);
    VG = in + (n ? g : 0); VP1 = in; VP2 = in + n;
    VH_ASSUME(n == 0 || *VG != 0); /* g is in front of the first NUL; for n > 0 in[g] == 0 is nothing to say */
#endif
    bool r = is_all_xml_whitespace(p ? NULL : in);
    if (p) { VH_ASSERT("no string", !r); return; }
#ifdef VH_PROOF
    VH_ASSERT("a char that is not whitespace is shown", r || (*VP1 && !VWS(*VP1)));
    if (r) VH_COVER("whitespace");
#else
    size_t k = 0; while (in[k] && VWS(in[k])) k++;
    VH_ASSERT("whitespace", r == (in[k] == 0));
#endif
}
