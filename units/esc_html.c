/*@unit
@title write_safe_html and write_safe_tex write every character once, in order, and special ones only as their escape
@func write_safe_html
@loop __CPROVER_assigns(i, VP1)
 __CPROVER_loop_invariant(VIN(i, start, stop) && VP1 == i)
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
@func write_safe_tex
@loop __CPROVER_assigns(i, VP1)
 __CPROVER_loop_invariant(VIN(i, start, stop) && VP1 == i)
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
@trust strlen on string literals of less than 20 characters is given by an exact loop free definition
@end*/
#define VH_P 2
#define VH_NO_G
#define VH_ALPHABET "a&<>\"\\_#$%{}^~'\n"
#define VH_EXLEN 4
#define VH_RNDLEN 40
#include "vh.h"
#include "vspec.h"
#include "xmq.h"
void write_safe_html(XMQWrite write, void *writer_state, const char *start, const char *stop);
void write_safe_tex(XMQWrite write, void *writer_state, const char *start, const char *stop);
#ifndef VH_PROOF
static const char *VP1;
#endif
static const char *base_; static size_t n_; static int tex_;
static const char *esc(char c)
{
    if (!tex_) return c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : 0;
    return c == '&' ? "\\&" : c == '\\' ? "\\textbackslash{}" : c == '_' ? "\\_" : c == '#' ? "\\#" : c == '$' ? "\\$" : c == '%' ? "\\%" :
           c == '{' ? "\\{" : c == '}' ? "\\}" : c == '^' ? "\\textasciicircum{}" : c == '~' ? "\\textasciitilde{}" : 0;
}
#ifdef VH_PROOF
/* strlen of the short escapes (a loop free definition) */
size_t strlen(const char *s)
{
#define SL(k) if (!s[k]) return k;
    SL(0) SL(1) SL(2) SL(3) SL(4) SL(5) SL(6) SL(7) SL(8) SL(9) SL(10) SL(11) SL(12) SL(13) SL(14) SL(15) SL(16) SL(17) SL(18) SL(19)
    __CPROVER_assert(0, "escape is short");
    return 20;
}
#define SAME(a, b) __CPROVER_same_object((a), (b))
#else
#define SAME(a, b) ((a) >= (b) && (a) < (b) + n_)
#endif
static bool vw(void *st, const char *start, const char *stop)
{
    VH_ASSERT("not beyond the end", VP1 < base_ + n_);
    const char *e = esc(*VP1);
    if (SAME(start, base_))
    {
        VH_ASSERT("the next character, and it alone", start == VP1 && stop == start + 1);
        VH_ASSERT("which has no meaning in the target", e == 0);
    }
    else
    {
        VH_ASSERT("an escape only for a character that has one", e != 0);
#define CH(k) if (e[k]) { VH_ASSERT("the escape", start[k] == e[k]); VH_ASSERT("all of it", stop >= start + k + 1 && (e[k+1] || stop == start + k + 1));
        CH(0) CH(1) CH(2) CH(3) CH(4) CH(5) CH(6) CH(7) CH(8) CH(9) CH(10) CH(11) CH(12) CH(13) CH(14) CH(15) CH(16) CH(17) CH(18)
        }}}}}}}}}}}}}}}}}}}
    }
    VP1++;
    return true;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    base_ = in; n_ = n; tex_ = p; VP1 = in;
    if (p) write_safe_tex(vw, 0, in, in + n); else write_safe_html(vw, 0, in, in + n);
    VH_ASSERT("every character is written", VP1 == in + n);
    VH_COVER("written");
}
