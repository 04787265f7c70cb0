/*@unit
@title rendering a document for a terminal, as HTML and for TeX is the plain output plus markup (independent readers of the three forms)
@noproof
@end*/
#define VH_TOKENS "<e", "<g", "<h", ">", "a1", "b:", "c", "&0", "&1", "#0", "#1", "#2", "#3", "#4", "#5", "#6", "?0", "?1", "n0", "n1", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "tA", "tB", "tC", "tD", "tE", "tF", "tG", "tH", "tI", "tJ", "tK", "tL", "tM", "tN"
#define VH_NOISE 4000
#define VH_EXLEN 3
#define VH_RNDLEN 24
#define VH_NO_G
#define VH_P 6
#include "vh.h"
#include "vapi.h"
#include "vrend.h"
static const char *TXT[] = { "x", "x/", "=y", "two words", "''", "l1\nl2", "123;", "'q'", " ", "\xc3\xa5=", "<&>\"", "\\{}_#$%^~", "\xc2\xa0z\xe2\x80\x83", "\n", "\n\n", "\n a\n  b\n", "\t", "a\tb", "  sp  ", "''" "'''", "'a\nb''", "&amp;", "\n'\n", "<xmqQ>" };
static const char *CMT[] = { "note", "two\nlines", "a*/b", "/", "<b>&amp;", "\\x{y}%\n\n$", "\xc2\xa0" };
#include "vtree.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    XMQDoc *d = v_build(in, n);
    VPrint o = {0};
    o.compact = p >= 3; o.indent = 4;
    o.esc_non7 = (n & 3) == 3; o.esc_tabs = (n & 1) == 1;
    size_t pl, rl;
    char *plain = v_print(d, o, &pl);
    xmqFreeDoc(d);
    d = v_build(in, n);
    int r = (int)(p % 3);
    o.render = r == 0 ? XMQ_RENDER_TERMINAL : r == 1 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX;
    o.color = true; o.dark = (n & 4) != 0;
    char *rend = v_print(d, o, &rl);
    char *back = vr_plain(r, rend, rl, true, o.dark, NULL, NULL);
    if (!back) fprintf(stderr, "rendered: [%.*s]\n", (int)rl, rend);
    VH_ASSERT("only the renderer's own markup appears", back != NULL);
    size_t bl = strlen(back);
    while (bl && back[bl-1] == '\n') bl--;
    while (pl && plain[pl-1] == '\n') pl--;
    if (bl != pl || memcmp(back, plain, pl)) fprintf(stderr, "rendered: [%.*s]\nback: [%s]\nplain: [%.*s]\n", (int)rl, rend, back, (int)pl, plain);
    VH_ASSERT("the content is that of the plain output", bl == pl && !memcmp(back, plain, pl));
    free(back); free(rend); free(plain);
    xmqFreeDoc(d);
}
