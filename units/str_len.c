/*@unit
@title str_b_u_len: byte count is the length, char count is the number of bytes that are not continuation bytes
@func str_b_u_len
@loop __CPROVER_assigns(i, u, VN1, VP1)
 __CPROVER_loop_invariant(VIN(i, start, stop) && VP1 == i && u == VN1 && VN1 <= VDIFF(i, start))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VN1 = VN1 + ((*i & 0xc0) != 0x80 ? 1 : 0); VP1 = VP1 + 1;
@loop __CPROVER_assigns(i, u, b, VN1, VP1)
 __CPROVER_loop_invariant(VIN(i, start, VP2) && VP1 == i && u == VN1 && b == VDIFF(i, start) && VN1 <= VDIFF(i, start))
 __CPROVER_loop_invariant(!VLT(VG, i) || *VG != 0)
 __CPROVER_decreases(OFF(VP2) - OFF(i))
 @body VN1 = VN1 + ((*i & 0xc0) != 0x80 ? 1 : 0); VP1 = VP1 + 1;
@end*/
#define VH_ALPHABET "a\x80\xc3\xe2\xbf"
#define VH_EXLEN 6
#define VH_P 2
#define VH_TAIL 1
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "text.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t b = 77, u = 77;
#ifdef VH_PROOF
    VH_ASSUME(g < n || n == 0);
    VG = in + (n ? g : 0); VP1 = in; VP2 = in + n; VN1 = 0;
#endif
    str_b_u_len(in, p ? NULL : in + n, &b, &u);
#ifdef VH_PROOF
    VH_ASSERT("bytes", p ? (b <= n && in[b] == 0 && (!(g < b) || *VG != 0)) : b == n);
    VH_ASSERT("every byte looked at once", VP1 == in + b);
    VH_ASSERT("chars", u == VN1);
    VH_COVER("counted");
#else
    size_t m = p ? strlen(in) : n, c = 0;
    for (size_t k = 0; k < m; k++) c += ((unsigned char)in[k] >> 6) != 2;
    VH_ASSERT("bytes", b == m);
    VH_ASSERT("chars", u == c);
#endif
}
