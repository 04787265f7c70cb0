/*@unit
@title the terminal, html and TeX forms of a colour name exactly its components and marks, and are refused when the buffer is too small
@noproof
@end*/
#define VH_NO_G
#define VH_P 4
#define VH_ALPHABET "\x00\x01\x09\x0a\x0f\x10\x63\x64\x7f\x80\xff"
#define VH_MINN 3
#define VH_EXLEN 3
#define VH_RNDLEN 3
#define VH_NOISE 1
#include "vh.h"
#include <stdio.h>
#include "always.h"
#include "colors.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    static const char *const names[] = { "xmqC", "xmqXSL", "GURKA", "x" };
    VH_ASSUME(n >= 3);
    int r = (unsigned char)in[0], gg = (unsigned char)in[1], b = (unsigned char)in[2];
    const char *nm = names[(r + gg + b) & 3];
    XMQColorDef d = { r, gg, b, (p & 1) != 0, (p & 2) != 0 };
    char want[256];
    for (int exact = 0; exact < 2; exact++)
    {
        char *buf = malloc(exact ? 32 : 128);
        VH_ASSERT("terminal form is made", generate_ansi_color(buf, exact ? 32 : 128, &d));
        sprintf(want, "\033[0;%s%s38;2;%d;%d;%dm", d.bold ? "1;" : "", d.underline ? "4;" : "", r, gg, b);
        VH_ASSERT("terminal form", !strcmp(buf, want));
        free(buf);
    }
    char *buf = malloc(128);
    VH_ASSERT("html form is made", generate_html_color(buf, 128, &d, nm));
    sprintf(want, "%s{color:#%02x%02x%02x;%s%s}", nm, r, gg, b, d.bold ? "font-weight:600;" : "", d.underline ? "text-decoration:underline;" : "");
    VH_ASSERT("html form", !strcmp(buf, want));
    VH_ASSERT("TeX form is made", generate_tex_color(buf, 128, &d, nm));
    sprintf(want, "\\definecolor{%s}{RGB}{%d,%d,%d}", nm, r, gg, b);
    VH_ASSERT("TeX form", !strcmp(buf, want));
    free(buf);
    for (size_t k = 0; k < 32; k += 1 + (r & 3))
    {
        char *s = malloc(k ? k : 1);
        VH_ASSERT("too small for the terminal form", !generate_ansi_color(s, k, &d));
        VH_ASSERT("too small for the html form", !generate_html_color(s, k, &d, nm));
        VH_ASSERT("too small for the TeX form", !generate_tex_color(s, k, &d, nm));
        free(s);
    }
    char hex[16];
    XMQColorDef e;
    sprintf(hex, p & 4 ? "#%02X%02X%02X%s%s" : "#%02x%02x%02x%s%s", r, gg, b, d.bold ? "_B" : "", d.underline ? "_U" : "");
    VH_ASSERT("a definition is read", string_to_color_def(hex, &e));
    VH_ASSERT("and denotes the components", e.r == r && e.g == gg && e.b == b && e.bold == d.bold && e.underline == d.underline);
}
