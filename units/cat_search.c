/*@unit
@title category_has_code finds a code in a sorted table exactly when it is there
@func category_has_code
@loop __CPROVER_assigns(start, stop, VP1, VP2, VP3)
 __CPROVER_loop_invariant(VIN(start, cat, stop) && VIN(stop, cat, cat + cat_len - 1) && OFF(start) % 4 == 0 && OFF(stop) % 4 == 0)
 __CPROVER_loop_invariant(!VB1 || (VLE(start, VG) && VLE(VG, stop)))
 __CPROVER_decreases(OFF(stop) - OFF(start))
 @body VREBASE2(start, cat); VREBASE2(stop, cat);
  { size_t m_ = (size_t)(start - cat) + (size_t)((stop - start) >> 1); VP1 = (char*)start; VP2 = (char*)stop; VP3 = (char*)(cat + m_);
    VSORTED(m_ <= VN1 ? cat[m_] <= cat[VN1] : cat[VN1] <= cat[m_]); }
@trust the hypothesis "the table is sorted" is used at the two places (probe, witness) the proof needs; table sortedness itself is checked exhaustively by cat_tables
@end*/
#define VH_ALPHABET "\x00\x01\x02\x03\x05\x09"
#define VH_EXLEN 6
#define VH_RNDLEN 60
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
bool category_has_code(int code, int *cat, size_t cat_len);
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
#ifdef VH_PROOF
    VH_ASSUME(n < (((size_t)1) << 36));
    int *c = malloc(n * sizeof(int));
    int code = nondet_int();
    if (n > 0)
    {
        VH_ASSUME(g < n);
        VN1 = g; VG = (char*)(c + g); VB1 = c[g] == code; VP1 = VP2 = VP3 = (char*)c;
        if (n == 2) { VP2 = (char*)(c + 1); }
    }
    bool r = category_has_code(code, c, n);
    VH_ASSERT("what is reported is in the table", !r || (n > 0 && (*(int*)VP1 == code || *(int*)VP2 == code || *(int*)VP3 == code)));
    VH_ASSERT("what is in the table is reported", r || n == 0 || c[g] != code);
    VH_COVER("searched");
#else
    int *c = malloc(n * sizeof(int) + 1), t = 0;
    for (size_t k = 0; k < n; k++) c[k] = t += (unsigned char)in[k];
    for (int code = -1; code <= t + 1; code++)
    {
        bool want = false;
        for (size_t k = 0; k < n; k++) want = want || c[k] == code;
        VH_ASSERT("found exactly when in the table", category_has_code(code, c, n) == want);
    }
    free(c);
#endif
}
