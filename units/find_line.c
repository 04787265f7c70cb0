/*@unit
@title find_line: the line ends behind its newline or at the end of the text; its indentation and the end of its last non space character are exact
@func find_line
@loop __CPROVER_assigns(i, ndnt, VN1)
 __CPROVER_loop_invariant(VIN(i, start, stop) && ndnt == VN1 && VN1 >= VDIFF(i, start) && VN1 <= 8 * VDIFF(i, start))
 __CPROVER_loop_invariant(!VLT(VG, i) || *VG == ' ' || *VG == '\t')
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start); VN1 = VN1 + (*i == ' ' ? 1 : 8);
 @after VREBASE(i, start); VP1 = i;
@loop __CPROVER_assigns(i, lnws)
 __CPROVER_loop_invariant(VIN(i, VP1, stop) && VIN(lnws, start, i) && !has_nl)
 __CPROVER_loop_invariant(lnws == start || (VLT(VP1, lnws) && lnws[-1] != ' ' && lnws[-1] != '\t' && lnws[-1] != '\n' && lnws[-1] != '\r'))
 __CPROVER_loop_invariant(!(VLE(lnws, VG) && VLT(VG, i)) || *VG == ' ' || *VG == '\t')
 __CPROVER_loop_invariant(!(VLE(VP1, VG) && VLT(VG, i)) || (*VG != '\n' && *VG != '\r'))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start); VREBASE(lnws, start);
 @after VREBASE(i, start); VREBASE(lnws, start);
@groups 6
@unwind 8
@end*/
#define VH_TOKENS " ", "\t", "a", "\n", "\r", "\r\n", "\xc3"
#define VH_EXLEN 6
#define VH_RNDLEN 14
#include "vh.h"
#include "vspec.h"
bool find_line(const char *start, const char *stop, size_t *indent, const char **after_last_non_space, const char **eol);
#define NL(c) ((c) == '\n' || (c) == '\r')
#define SP(c) ((c) == ' ' || (c) == '\t')
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t at = g; VH_ASSUME(at <= n);
    const char *s = in + at, *e = in + n, *after = NULL, *eol = NULL;
    size_t ind = 77;
#ifdef VH_PROOF
    size_t w = nondet_size_t(); VH_ASSUME(at <= w && (w < n || (w == n && at == n)));
    VG = in + w; VN1 = 0; VP1 = s;
#endif
    bool nl = find_line(s, e, &ind, &after, &eol);
    VH_ASSERT("the end is in the text", s <= eol && eol <= e && s <= after && after <= eol);
    VH_ASSERT("a newline ends the line, else the text does", nl ? eol > s && NL(eol[-1]) : eol == e);
    VH_ASSERT("both chars of a newline are taken", !nl || eol[-1] != '\r' || eol == e || *eol != '\n');
    VH_ASSERT("the last char before is no space", after == s || (!SP(after[-1]) && !NL(after[-1])));
#ifdef VH_PROOF
    VH_ASSERT("the indentation is counted with tabs as eight", ind == VN1);
    const char *ce = !nl ? eol : eol[-1] == '\n' && eol - 1 > s && eol[-2] == '\r' ? eol - 2 : eol - 1;
    VH_ASSERT("the indentation ends at a char that is not space", VP1 <= eol && (VP1 == e || !SP(*VP1)));
    if (s <= VG && VG < ce && VG < e)
    {
        VH_ASSERT("no newline within", !NL(*VG));
        VH_ASSERT("only space in the indentation", !(VG < VP1) || SP(*VG));
        VH_ASSERT("only space behind the last char", !(VG >= after) || SP(*VG));
        VH_COVER("a char of the line");
    }
    if (nl) VH_COVER("newline");
#else
    const char *i = s; size_t want = 0;
    while (i < e && SP(*i)) want += *i++ == ' ' ? 1 : 8;
    const char *wa = s;
    while (i < e && !NL(*i)) { i++; if (!SP(i[-1])) wa = i; }
    bool wn = i < e;
    if (wn) i += *i == '\r' && i + 1 < e && i[1] == '\n' ? 2 : 1;
    VH_ASSERT("the line", ind == want && wa == after && eol == i && wn == nl);
    VH_COVER("line");
#endif
}
