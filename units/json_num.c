/*@unit
@title is_jnumber accepts exactly the numbers of the JSON standard: sign, integer without leading zeros, fraction and exponent each with all their digits, and nothing number like behind
@func is_jnumber
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, __CPROVER_loop_entry(i), stop) && VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLE(__CPROVER_loop_entry(i), VG) && VLT(VG, i)) || VDIGIT(*VG))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start); VP1 = i;
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, __CPROVER_loop_entry(i), stop) && VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLE(__CPROVER_loop_entry(i), VG) && VLT(VG, i)) || VDIGIT(*VG))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start); VP2 = i;
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, __CPROVER_loop_entry(i), stop) && VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLE(__CPROVER_loop_entry(i), VG) && VLT(VG, i)) || VDIGIT(*VG))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start); VP3 = i;
@end*/
#define VH_TOKENS "0", "1", "9", "-", "+", ".", "e", "E", ",", " ", "]", "}", "a", "12"
#define VH_EXLEN 5
#define VH_RNDLEN 10
#define VH_P 1
#include "vh.h"
#include "vspec.h"
const char *is_jnumber(const char *start, const char *stop);
/* the number automaton of RFC 8259: 0 start, 1 behind -, 2 zero (final), 3 integer (final), 4 behind the point, 5 fraction (final), 6 behind e, 7 behind its sign, 8 exponent (final), 9 dead */
static inline int jnext(int s, char c)
{
    bool d = c >= '0' && c <= '9', e = c == 'e' || c == 'E';
    switch (s)
    {
    case 0: return c == '-' ? 1 : c == '0' ? 2 : d ? 3 : 9;
    case 1: return c == '0' ? 2 : d ? 3 : 9;
    case 2: return c == '.' ? 4 : e ? 6 : 9;
    case 3: return d ? 3 : c == '.' ? 4 : e ? 6 : 9;
    case 4: return d ? 5 : 9;
    case 5: return d ? 5 : e ? 6 : 9;
    case 6: return d ? 8 : c == '+' || c == '-' ? 7 : 9;
    case 7: return d ? 8 : 9;
    case 8: return d ? 8 : 9;
    }
    return 9;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t at = g; VH_ASSUME(at <= n);
    const char *e = in + n;
#ifdef VH_PROOF
    size_t w = nondet_size_t(); VH_ASSUME(w < n || n == 0);
    VG = in + (n ? w : 0); VP1 = VP2 = VP3 = in;
    const char *r = is_jnumber(in + at, e);
#define DIGITS(from, to) do { VH_ASSERT("digits are taken as long as there are", (from) < (to) && (to) <= e && ((to) == e || !VDIGIT(*(to)))); \
    VH_ASSERT("only digits are taken", !((from) <= VG && VG < (to)) || VDIGIT(*VG)); } while (0)
    const char *i = in + at; bool ok;
    if (i < e && *i == '-') i++;
    ok = i < e && VDIGIT(*i);
    if (ok)
    {
        if (*i == '0') i++; else { DIGITS(i, VP1); i = VP1; }
        if (i < e && *i == '.')
        {
            i++;
            ok = i < e && VDIGIT(*i);
            if (ok) { DIGITS(i, VP2); i = VP2; }
        }
        if (ok && i < e && (*i == 'e' || *i == 'E'))
        {
            i++;
            if (i < e && (*i == '-' || *i == '+')) i++;
            ok = i < e && VDIGIT(*i);
            if (ok) { DIGITS(i, VP3); i = VP3; VH_COVER("exponent"); }
        }
    }
    ok = ok && (i == e || *i == ' ' || *i == '\t' || *i == '\n' || *i == '\r' || *i == ',' || *i == ']' || *i == '}');
    VH_ASSERT("a number exactly when the standard says so", r == (ok ? i : NULL));
    if (ok) VH_COVER("number"); else VH_COVER("no number");
#else
    const char *r = is_jnumber(in + at, e), *m = in + at; int s = 0;
    while (m < e && jnext(s, *m) != 9) { s = jnext(s, *m); m++; }
    bool fin = s == 2 || s == 3 || s == 5 || s == 8;
    bool ended = m == e || *m == ' ' || *m == '\t' || *m == '\n' || *m == '\r' || *m == ',' || *m == ']' || *m == '}';
    VH_ASSERT("a number exactly when the automaton says so", r == (fin && ended ? m : NULL));
    VH_COVER("scanned");
#endif
}
