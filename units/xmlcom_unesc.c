/*@unit
@title unescape_xml_comment: the escape mark behind a hyphen is removed, all other bytes are kept in order; unescaping undoes escaping
@func unescape_xml_comment
@loop __CPROVER_assigns(i, escapes, VP3, VB2)
 __CPROVER_loop_invariant(VIN(i, comment, VP2) && VP3 == i && escapes <= VDIFF(i, comment))
 __CPROVER_loop_invariant(!VLT(VG, i) || (VI1 != 0 && (!VB1 || escapes > 0)))
 __CPROVER_loop_invariant((escapes > 0) == VB2)
 __CPROVER_decreases(OFF(VP2) - OFF(i))
 @body VREBASE(i, comment); if (VUNE(i)) VB2 = 1; VP3 = i + 1;
 @after VREBASE(i, comment);
@loop __CPROVER_assigns(i, j, VN1, VN2, VI2, __CPROVER_object_whole(tmp))
 __CPROVER_loop_invariant(VIN(i, comment, VP3) && __CPROVER_same_object(j, tmp) && OFF(j) <= VDIFF(i, comment))
 __CPROVER_loop_invariant(VI2 == 0 || (VLT(VG, i) && VN1 < OFF(j) && tmp[VN1] == VI1))
 __CPROVER_loop_invariant(VI2 != 1 || (OFF(i) == OFF(VG) + (VB1 ? 4 : 1) && OFF(j) == VN1 + 1))
 __CPROVER_decreases(OFF(VP3) - OFF(i))
 @body VREBASE(i, comment); VREBASE(j, tmp); if (VI2 == 1) VI2 = 2; if (i == VG) { VI2 = 1; VN1 = OFF(j); }
 @after VREBASE(i, comment); VREBASE(j, tmp);
@end*/
#define VH_TAIL 1
#define VH_TOKENS "-", "a", "\xe2\x90\x90", "\xe2", "\x90"
#define VH_EXLEN 7
#define VH_RNDLEN 14
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#define VESC(q) (*(q) == '-' && ((q)[1] == '-' || (q)[1] == 0 || VDLE((q) + 1)))
char *escape_xml_comment(const char *comment);
char *unescape_xml_comment(const char *comment);
static bool dle(const char *q) { return (unsigned char)q[0] == 0xe2 && (unsigned char)q[1] == 0x90 && (unsigned char)q[2] == 0x90; }
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
#ifdef VH_PROOF
    VH_ASSUME(g <= n);
    VG = in + g; VP2 = in + n; VP3 = in; VB2 = 0;
    VN1 = VN2 = 0; VI2 = 0; VI1 = in[g]; VB1 = VI1 == '-' && dle(in + g + 1);
    char *o = unescape_xml_comment(in);
    VH_ASSERT("something is returned exactly when a mark is there", (o != 0) == VB2);
    if (in + g < VP3) VH_ASSERT("a mark is seen", o || !VB1);
    /* the state behind the visit of a position is an invariant: the byte is kept, the mark (if any) is skipped */
    if (o && VI2) { VH_ASSERT("a visited byte is kept", o[VN1] == in[g]); VH_COVER("visited"); }
#else
    char *o = unescape_xml_comment(in);
    size_t len = strlen(in), k = 0;
    char want[20000];
    bool any = false;
    for (size_t x = 0; x < len; x++) { want[k++] = in[x]; if (in[x] == '-' && dle(in + x + 1)) { any = true; x += 3; } }
    want[k] = 0;
    VH_ASSERT("marks removed", o ? any && !strcmp(o, want) : !any);
    free(o);
    char *e = escape_xml_comment(in);
    if (e)
    {
        char *u = unescape_xml_comment(e);
        VH_ASSERT("unescaping undoes escaping", u && !strcmp(u, in));
        free(u);
    }
    else { char *u = unescape_xml_comment(in); VH_ASSERT("what needs no escape is read back as it is", !u); free(u); }
    free(e);
#endif
}
