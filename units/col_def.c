/*@unit
@title string_to_color_def accepts exactly #RRGGBB with at most two _B or _U marks, denotes those components, and stays inside the text
@func string_to_color_def
@unwind 16
@trust strlen is used through its contract (the number of bytes before the first NUL; no NUL among the first 13 of them)
@end*/
#define VH_TAIL 1
#define VH_TOKENS "#", "0", "9", "a", "F", "g", "_", "_B", "_U", "#12abCD", "#ffFF00_B", "G", "@", "/", ":", "`"
#define VH_EXLEN 4
#define VH_RNDLEN 12
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "always.h"
#include "colors.h"
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
#ifdef VH_PROOF
static const char *base_; static size_t len_;
size_t strlen(const char *s)
{
    __CPROVER_assert(s == base_, "length of the definition is asked");
    return len_;
}
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    XMQColorDef d;
    size_t l;
#ifdef VH_PROOF
    l = nondet_size_t();
    VH_ASSUME(l <= n && in[l] == 0);
    for (size_t k = 0; k < 13; k++) { if (k < l) VH_ASSUME(in[k] != 0); }
    base_ = in; len_ = l;
#else
    l = strlen(in);
    VH_ASSUME(l == n);
#endif
    bool r = string_to_color_def(in, &d);
    bool m1 = l >= 9 && in[7] == '_' && (in[8] == 'B' || in[8] == 'U');
    bool m2 = l >= 11 && in[9] == '_' && (in[10] == 'B' || in[10] == 'U');
    bool want = l >= 7 && in[0] == '#' && hv(in[1]) >= 0 && hv(in[2]) >= 0 && hv(in[3]) >= 0 && hv(in[4]) >= 0 && hv(in[5]) >= 0 && hv(in[6]) >= 0 &&
        (l == 7 || (l == 9 && m1) || (l == 11 && m1 && m2));
    VH_ASSERT("accepted exactly when well formed", r == want);
    if (r)
    {
        VH_COVER("accepted");
        VH_ASSERT("red", d.r == hv(in[1]) * 16 + hv(in[2]));
        VH_ASSERT("green", d.g == hv(in[3]) * 16 + hv(in[4]));
        VH_ASSERT("blue", d.b == hv(in[5]) * 16 + hv(in[6]));
        VH_ASSERT("bold", d.bold == ((l >= 9 && in[8] == 'B') || (l >= 11 && in[10] == 'B')));
        VH_ASSERT("underline", d.underline == ((l >= 9 && in[8] == 'U') || (l >= 11 && in[10] == 'U')));
    }
    else
    {
        VH_COVER("rejected");
        VH_ASSERT("nothing is denoted", d.r == -1 && d.g == -1 && d.b == -1 && !d.bold && !d.underline);
    }
}
