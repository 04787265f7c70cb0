/*@unit
@title needs_escape gives the target's escape exactly for the characters that have a meaning in the target
@func needs_escape
@unwind 24
@end*/
#define VH_P 6
#define VH_NO_G
#define VH_MINN 1
#define VH_ALPHABET "a&<>\"\\_#$%{}^~'\n;"
#define VH_EXLEN 2
#define VH_RNDLEN 4
#define VH_NOISE 1
#include "vh.h"
#include "vspec.h"
#include "xmq.h"
const char *needs_escape(XMQRenderFormat f, const char *start, const char *stop);
static bool same(const char *a, const char *b)
{
    if (!a || !b) return a == b;
    for (int k = 0; k < 20; k++) { if (a[k] != b[k]) return false; if (!a[k]) return true; }
    return false;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    static const XMQRenderFormat F[] = { XMQ_RENDER_PLAIN, XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_HTMQ, XMQ_RENDER_TEX, XMQ_RENDER_RAW };
    char c = *in;
    const char *want = 0;
    if (F[p] == XMQ_RENDER_HTML) want = c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : 0;
    if (F[p] == XMQ_RENDER_TEX) want = c == '&' ? "\\&" : c == '\\' ? "\\textbackslash{}" : c == '_' ? "\\_" : c == '#' ? "\\#" : c == '$' ? "\\$" : c == '%' ? "\\%" :
           c == '{' ? "\\{" : c == '}' ? "\\}" : c == '^' ? "\\textasciicircum{}" : c == '~' ? "\\textasciitilde{}" : c == '\'' ? "{'}" : 0;
    const char *e = needs_escape(F[p], in, in + n);
    VH_ASSERT("the escape of the character", same(e, want));
    VH_COVER("asked");
}
