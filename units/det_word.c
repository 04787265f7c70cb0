/*@unit
@title find_word_ignore_case finds exactly the word behind whitespace; skip_any_potential_bom skips exactly one UTF-8 mark and refuses UTF-16 ones
@split 2
@define VH_CTYPE
@noexec
@func find_word_ignore_case
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, start, stop))
 __CPROVER_loop_invariant(!(VLE(start, VG) && VLT(VG, i)) || VWS(*VG))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start); VP3 = i;
@stub debug__
@unwind 16
@trust strncasecmp and isalnum are those of the C locale
@end*/
#define VH_TOKENS "<", "html", "HTML", "!doctype", "<!--", "-->", " ", "\n", "{", "[", "\"", "1", "true", "null", "false", "a", "-", ">", "?xml", "<html", "<!DOCTYPE", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xef\xbb", "t", "\r\n", "\t", "!", "/", "<!doctype html>"
#define VH_EXLEN 4
#define VH_RNDLEN 10
#define VH_P 2
#include "vh.h"
#include "vspec.h"
#include <strings.h>
#include <ctype.h>
#include "xmq.h"
const char *find_word_ignore_case(const char *start, const char *stop, const char *word);
const char *skip_any_potential_bom(const char *start, const char *stop);
#ifdef VH_PROOF
void debug__(const char *module, const char *fmt, ...) {}
#endif
static bool lit(const char *i, const char *e, const char *w, size_t n) { if ((size_t)(e - i) < n) return false; for (size_t k = 0; k < n; k++) if (i[k] != w[k]) return false; return true; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool word(const char *i, const char *e, const char *w, size_t n)
{
    if ((size_t)(e - i) < n) return false;
    for (size_t k = 0; k < n; k++) if (low(i[k]) != w[k]) return false;
    return (size_t)(e - i) == n || !(VALPHA(i[n]) || VDIGIT(i[n]));
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t at = g; VH_ASSUME(at <= n);
    const char *s = in + at, *e = in + n;
#ifdef VH_PROOF
    size_t w = nondet_size_t(); VH_ASSUME(w < n || n == 0);
    VG = in + (n ? w : 0); VP1 = s; VP3 = s;
#endif
    if (p == 0)
    {
#ifdef VH_PROOF
        bool h = nondet_bool();
        const char *r = find_word_ignore_case(s, e, h ? "html" : "<!doctype"), *k = VP3;
        VH_ASSERT("whitespace is skipped", !(s <= VG && VG < k) || VWS(*VG));
        VH_ASSERT("all of it", k == e || !VWS(*k));
        VH_ASSERT("the word is found exactly when it is there", r == (word(k, e, h ? "html" : "<!doctype", h ? 4 : 9) ? k + (h ? 4 : 9) : NULL));
        if (r) VH_COVER("found");
#endif
    }
    else
    {
        const char *r = skip_any_potential_bom(s, e);
        const unsigned char *u = (const unsigned char*)s; size_t l = e - s;
        const char *x = l >= 3 && u[0] == 0xef && u[1] == 0xbb && u[2] == 0xbf ? s + 3 : l >= 2 && ((u[0] == 0xff && u[1] == 0xfe) || (u[0] == 0xfe && u[1] == 0xff)) ? NULL : s;
        VH_ASSERT("one mark is skipped, a UTF-16 mark refused", r == x);
        VH_COVER("mark");
    }
}
