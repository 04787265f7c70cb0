/*@unit
@title escape_xml_comment: the escape mark is added behind exactly those hyphens that need it, all other bytes are kept, the result has no double hyphen and no hyphen at its end
@func escape_xml_comment
@loop __CPROVER_assigns(i, escapes, VP3)
 __CPROVER_loop_invariant(VIN(i, comment, VP2) && VP3 == i && escapes <= VDIFF(i, comment))
 __CPROVER_loop_invariant(!VLT(VG, i) || (*VG != 0 && (!VB1 || escapes > 0)))
 __CPROVER_decreases(OFF(VP2) - OFF(i))
 @body VREBASE(i, comment); VP3 = i + 1;
 @after VREBASE(i, comment);
@loop __CPROVER_assigns(i, j, VN1, VN3, __CPROVER_object_whole(tmp))
 __CPROVER_loop_invariant(VIN(i, comment, VP3) && __CPROVER_same_object(j, tmp) && OFF(j) == VDIFF(i, comment) + 3 * VN3 && VN3 <= escapes)
 __CPROVER_loop_invariant(!VLT(VG, i) || (VN1 <= VN3 && VN1 + (VB1 ? 1 : 0) <= VN3 && tmp[VAT] == *VG && (!VB1 || VDLE(tmp + VAT + 1))))
 __CPROVER_decreases(OFF(VP3) - OFF(i))
 @body VREBASE(i, comment); VREBASE(j, tmp); if (i == VG) VN1 = VN3; if (VESC(i)) VN3 = VN3 + 1; VUSE(VN3 <= escapes);
 @after VREBASE(i, comment); VREBASE(j, tmp); VUSE(!VLT(i, VP3) || *i != 0); VUSE(OFF(i) != OFF(VP3) || VN3 == escapes);
@groups 40
@timeout 300
@trust two loops that count the same predicate over the same unchanged bytes agree: the running count never exceeds the total, and equals it at the end (used in escape_xml_comment)
@end*/
#define VH_TAIL 1
#define VH_TOKENS "-", "a", "\xe2\x90\x90", "\xe2", "\x90"
#define VH_EXLEN 7
#define VH_RNDLEN 14
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#define VDLE(q) dle(q)
char *escape_xml_comment(const char *comment);
static bool dle(const char *q) { return (unsigned char)q[0] == 0xe2 && (unsigned char)q[1] == 0x90 && (unsigned char)q[2] == 0x90; }
static bool esc(const char *q) { return *q == '-' && (q[1] == '-' || q[1] == 0 || dle(q + 1)); }
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
#ifdef VH_PROOF
    VH_ASSUME(g <= n);
    VG = in + g; VP2 = in + n; VP3 = in; VN1 = 0; VN3 = 0; VB1 = in[g] && esc(VG);
    char *o = escape_xml_comment(in);
    VH_ASSERT("the whole comment is read", *VP3 == 0 && in <= VP3 && VP3 <= in + n);
    VH_ASSERT("and nothing behind it", !(VG < VP3) || *VG != 0);
    if (in + g < VP3)
    {
        VH_ASSERT("nothing is returned only when nothing needs escaping", o || !VB1);
        if (o)
        {
            size_t k = g + 3 * VN1;
            VH_ASSERT("the byte is kept", o[k] == in[g]);
            VH_ASSERT("the mark follows where it is needed", !VB1 || dle(o + k + 1));
            VH_COVER("a position");
        }
    }
    if (o)
    {
        VH_ASSERT("end", o[(VP3 - in) + 3 * VN3] == 0);
        VH_COVER("escaped");
    }
#else
    char *o = escape_xml_comment(in);
    size_t len = strlen(in), k = 0;
    char want[20000];
    bool any = false;
    for (size_t x = 0; x < len; x++) { want[k++] = in[x]; if (esc(in + x)) { any = true; memcpy(want + k, "\xe2\x90\x90", 3); k += 3; } }
    want[k] = 0;
    VH_ASSERT("escaped exactly where needed", o ? any && !strcmp(o, want) : !any);
    VH_ASSERT("no double hyphen, none at the end", !strstr(want, "--") && !(k && want[k-1] == '-'));
    free(o);
#endif
}
