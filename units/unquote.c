/*@unit
@title reading a quote or comment removes exactly the incidental indentation: functions and parsed documents against the line rule
@noproof
@end*/
#define VH_TOKENS "a", " ", "\n", "  ", "\xc3\xa5", "\t", "\n\n", "\r\n", "b", "    ", "\n  ", "\n   x", "c\n", "'", "*", "/", "  \n", "\n        "
#define VH_NOISE 4000
#define VH_EXLEN 5
#define VH_RNDLEN 20
#define VH_NO_G
#define VH_P 16
#include "vh.h"
#include "vapi.h"
char *xmq_trim_quote(size_t indent, char space, const char *start, const char *stop);
char *xmq_un_quote(size_t indent, char space, const char *start, const char *stop, bool remove_qs);
char *xmq_un_comment(size_t indent, char space, const char *start, const char *stop);
#define SP(c) ((c) == ' ' || (c) == '\t' || (c) == '\r')
typedef struct { const char *s; size_t n, ind; bool blank; } Line;
/* The rule of the documentation, line by line. col = characters on the line in front of the text. */
static char *rule(size_t col, const char *t, size_t n)
{
    if (!memchr(t, '\n', n)) return v_dupz(t, n);
    Line *l = malloc(sizeof(Line) * (n + 1)); size_t m = 0;
    for (size_t i = 0;;)
    {
        size_t e = i; while (e < n && t[e] != '\n') e++;
        bool last = e == n;
        Line x = { t + i, e - i, 0, true };
        size_t k = 0; while (k < x.n && (x.s[k] == ' ' || x.s[k] == '\t')) { x.ind += x.s[k] == ' ' ? 1 : 8; k++; }
        for (k = 0; k < x.n; k++) if (!SP(x.s[k])) x.blank = false;
        if (!last || x.blank) while (x.n && SP(x.s[x.n-1])) x.n--;
        l[m++] = x;
        if (last) break;
        i = e + 1;
    }
    /* the first line and the last one go when there is nothing on them */
    bool first = !l[0].blank;
    size_t b = first ? 0 : 1, e = l[m-1].blank ? m - 1 : m;
    char *o = malloc(2 * n + col + 2), *w = o;
    if (b > e) b = e;
    size_t inc = (size_t)-1;
    for (size_t k = b; k < e; k++) if (!l[k].blank) { size_t v = k == 0 ? col : l[k].ind; if (v < inc) inc = v; }
    if (inc == (size_t)-1)
    {
        /* nothing at all: as many newlines as there are between the lines left */
        size_t nl = m - 1; if (nl) nl--;
        memset(o, '\n', nl); o[nl] = 0; free(l); return o;
    }
    for (size_t k = b; k < e; k++)
    {
        const char *s = l[k].s, *z = s + l[k].n;
        if (k > b) *w++ = '\n';
        if (l[k].blank) continue;
        if (k == 0) { for (size_t q = inc; q < col; q++) *w++ = ' '; }
        else for (size_t q = inc; q > 0 && s < z; s++) { if (*s == ' ') q--; else if (*s == '\t') q = q > 8 ? q - 8 : 0; else break; }
        while (s < z) *w++ = *s++;
    }
    *w = 0;
    free(l);
    return o;
}
static size_t run(const char *s, size_t n, char c) { size_t b = 0, k = 0; for (size_t i = 0; i < n; i++) { k = s[i] == c ? k + 1 : 0; if (k > b) b = k; } return b; }
static void same(const char *x, char *got, char *want)
{
    if (strcmp(got, want)) fprintf(stderr, "%s\ngot  [%s]\nwant [%s]\n", x, got, want);
    VH_ASSERT("only the incidental indentation is gone", !strcmp(got, want));
    free(got); free(want);
}
/* parse, and compare the content of node k (0 = first child of the root, 1 = the second one) */
static void parsed(const char *doc, size_t n, bool attr, char *want)
{
    XMQDoc *d = v_parse(doc, n, 0);
    if (!d) fprintf(stderr, "doc: [%s]\n", doc);
    VH_ASSERT("parses", d != NULL);
    xmlNodePtr r = xmlDocGetRootElement(v_xml(d));
    char *got = attr ? v_attr(r, "k") : strdup(r->children && r->children->content ? (char*)r->children->content : "");
    if (!got) got = strdup("");
    same(doc, got, want);
    xmqFreeDoc(d);
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    static const size_t cols[] = { 0, 1, 3, 4, 9, 12 };
    VH_ASSUME(v_utf8_ok(in, n));
    for (size_t i = 0; i < n; i++) { unsigned char c = in[i]; VH_ASSUME(c >= 32 || c == '\n' || c == '\t' || (c == '\r' && i + 1 < n && in[i+1] == '\n')); }
    char *b = v_dup(in, n);
    if (p < 6) { same("trim", xmq_trim_quote(cols[p], ' ', b, b + n), rule(cols[p], b, n)); VH_COVER("trim"); free(b); return; }
    free(b);
    size_t q = run(in, n, '\''); q = q == 0 ? 1 : q < 3 ? 3 : q + 1;
    bool edge = n && (in[0] == '\'' || in[n-1] == '\'');
    char *d = malloc(2 * n + 200); size_t k = 0;
#define P(s) (k += sprintf(d + k, "%s", s))
#define QS for (size_t j = 0; j < q; j++) d[k++] = '\''
#define TX do { memcpy(d + k, in, n); k += n; d[k] = 0; } while (0)
    size_t at, start;
    if (p <= 7)
    {
        /* xmq_un_quote */
        if (edge || (n == 0 && q == 1)) { free(d); return; }
        QS; TX; QS;
        char *x = v_dup(d, k);
        size_t c = p == 6 ? 0 : 5;
        same("un_quote", xmq_un_quote(c, ' ', x, x + k, true), rule(c + q, in, n)); free(x);
        VH_COVER("un_quote");
    }
    else if (p <= 10)
    {
        /* a quote in a document: value, child, attribute */
        if (edge || n == 0) { free(d); return; }
        P(p == 8 ? "\n  a  =  " : p == 9 ? "a {\n  \xc3\xa5\xc3\xa5=1 " : "\n   a(o=\xc3\xb6 k=");
        if (p == 9) { k = 0; P("a {\n   "); }
        for (start = k; start > 0 && d[start-1] != '\n'; start--) {}
        at = 0; for (size_t j = start; j < k; j++) if ((d[j] & 0xc0) != 0x80) at++;
        QS; TX; QS;
        P(p == 8 ? "\n" : p == 9 ? "\n}" : ")");
        parsed(d, k, p == 10, rule(at + q, in, n));
        VH_COVER("quote in a document");
    }
    else if (p <= 13)
    {
        /* a comment between stars: with one space inside the delimiters, without, with more slashes */
        size_t s = run(in, n, '/') + 1;
        if (n == 0 || in[0] == '*' || in[n-1] == '*' || memchr(in, '*', n) || in[0] == '/' || in[n-1] == '/') { free(d); return; }
        if (p == 12 && (in[0] == ' ' || in[n-1] == ' ')) { free(d); return; }
        if (p != 13) s = 1;
        P("a {\n  ");
        for (size_t j = 0; j < s; j++) d[k++] = '/';
        d[k] = 0; P(p == 12 ? "*" : "* ");
        at = 2 + s + (p == 12 ? 1 : 2);
        TX; P(p == 12 ? "*" : " *");
        for (size_t j = 0; j < s; j++) d[k++] = '/';
        d[k] = 0; P("\n}");
        parsed(d, k, false, rule(at, in, n));
        VH_COVER("comment");
    }
    else if (p == 14)
    {
        /* a comment to the end of the line */
        if (memchr(in, '\n', n) || (n && (in[0] == '/' || in[0] == '*'))) { free(d); return; }
        P("a {\n  //"); size_t z = k; TX; P("\n}");
        size_t e = z + n, s = z; if (s < e && d[s] == ' ') s++;
        while (e > s && SP(d[e-1])) e--;
        char *w = v_dupz(d + s, e - s);
        parsed(d, k, false, w);
        VH_COVER("line comment");
    }
    else
    {
        /* a continued comment: each part by itself, the parts on lines of their own */
        if (n == 0 || memchr(in, '*', n) || in[0] == '/' || in[n-1] == '/' || memchr(in, '/', n)) { free(d); return; }
        P("a {\n  //* x *//* "); at = 13; TX; P(" *//\n}");
        char *r = rule(at, in, n), *w = malloc(strlen(r) + 3);
        sprintf(w, "x\n%s", r); free(r);
        parsed(d, k, false, w);
        VH_COVER("continued comment");
    }
    free(d);
}
