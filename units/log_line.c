/*@unit
@title a log line parses back to its name, keys and values; a compact quote is one line and parses back to its text
@noproof
@end*/
#define VH_TOKENS "a", " ", "\n", "'", "\t", "\xc3\xa5", "=", "/", "//", "/*", "&", ";", "(", ")", "{", "}", "\"", "\r", "1", "&#10;", "''", "  ", "b=c", "!", "?", "<", "\r\n", "%", "%s", ":", "\xf0\x9f\x98\x80", "'''", "\\"
#define VH_NOISE 4000
#define VH_EXLEN 4
#define VH_RNDLEN 14
#define VH_NO_G
#define VH_P 8
#include "vh.h"
#include "vapi.h"
XMQLineConfig *xmqNewLineConfig();
static bool text_ok(const char *s, size_t n)
{
    if (!v_utf8_ok(s, n)) return false;
    for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c < 32 && c != '\n' && c != '\t' && c != '\r') return false; }
    return true;
}
/* the string value of the element k of the line (k < 0: the root) */
static char *val(XMQDoc *d, int k)
{
    xmlNodePtr r = xmlDocGetRootElement(v_xml(d));
    if (k >= 0) { r = r->children; while (r && k--) r = r->next; }
    char *o = r ? v_content(r) : strdup("<none>");
    return o;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    VH_ASSUME(text_ok(in, n));
    char *z = v_dupz(in, n);
    char *big = NULL;
    XMQLineConfig *lc = xmqNewLineConfig();
    const char *vals[4] = { z, z, z, z }; int nv = 1; char *l = NULL; const char *name = "car";
    const char *keys[4] = { "k", "b", "_c", "d.e-f" };
    int num = (int)n * 7919 - 20;
    char nb[24]; snprintf(nb, 24, "%d", num);
    if (p == 0)
    {
        char *q = xmqCompactQuote(z);
        VH_ASSERT("a quote is one line", !strchr(q, '\n'));
        l = malloc(strlen(q) + 8); sprintf(l, "car=%s", q); nv = 0; free(q);
    }
    else if (p == 1) { l = xmqLinePrintf(lc, "car=", "%s", z); nv = 0; }
    else if (p == 2) { l = xmqLinePrintf(lc, "car{", "k=", "%s", z, "}"); }
    else if (p == 3) { l = xmqLinePrintf(lc, "car{", "k=", "%s", z, "b=", "%d", num, "_c=", "%s", z, "}"); nv = 3; vals[1] = nb; }
    else if (p == 4) { l = xmqLinePrintf(lc, "car{", "k=", "%d", num, "b=", "%s", z, "_c=", "x%sy", "", "d.e-f=", "%s", z, "}"); nv = 4; vals[0] = nb; vals[2] = "xy"; }
    else if (p == 7)
    {
        xmqSetLineHumanReadable(lc, true);
        l = xmqLinePrintf(lc, "car=", "%s", z);
        char *w = malloc(n + 20); sprintf(w, "(car) %s", z);
        VH_ASSERT("a human readable line holds the value as it is", !strcmp(l, w));
        free(w); free(l); free(z); xmqFreeLineConfig(lc); VH_COVER("human readable"); return;
    }
    else
    {
        /* values about as long as the buffers they go through */
        static const size_t sz[] = { 1022, 1023, 1024, 1025, 2047, 2048, 2049, 5000 };
        static unsigned r, t; if (n == 0 || t++ % 24) { free(z); xmqFreeLineConfig(lc); return; }
        size_t m = sz[r++ % 8];
        big = malloc(m + n + 1); size_t k = 0;
        while (k + n <= m) { memcpy(big + k, in, n); k += n; }
        while (k < m) big[k++] = 'x';
        big[k] = 0;
        vals[0] = big;
        if (p == 5) { l = xmqLinePrintf(lc, "car=", "%s", big); nv = 0; vals[0] = big; }
        else { l = xmqLinePrintf(lc, "car{", "k=", "%s", big, "b=", "%d", num, "}"); nv = 2; vals[1] = nb; }
    }
    VH_ASSERT("a log line is one line", !strchr(l, '\n'));
    size_t len = strlen(l);
    XMQDoc *d = v_parse(l, len, 0);
    if (!d) fprintf(stderr, "line: [%s]\n", l);
    VH_ASSERT("the line parses", d != NULL);
    xmlNodePtr r = xmlDocGetRootElement(v_xml(d));
    VH_ASSERT("one element of the name given", r && !strcmp((char*)r->name, name) && !r->next && !r->prev);
    if (nv == 0)
    {
        char *v = val(d, -1);
        if (strcmp(v, vals[0])) fprintf(stderr, "line: [%s] value [%s]\n", l, v);
        VH_ASSERT("the value is the one given", !strcmp(v, vals[0]));
        free(v);
    }
    int k = 0;
    if (nv) for (xmlNodePtr c = r->children; c; c = c->next, k++)
    {
        VH_ASSERT("the keys given in order", k < nv && c->type == XML_ELEMENT_NODE && !strcmp((char*)c->name, keys[k]));
        char *v = val(d, k);
        if (strcmp(v, vals[k])) fprintf(stderr, "line: [%s] value [%s]\n", l, v);
        VH_ASSERT("the value of the key is the one given", !strcmp(v, vals[k]));
        free(v);
    }
    VH_ASSERT("all keys given", k == nv);
    VH_COVER("line");
    xmqFreeDoc(d); free(l); free(z); free(big); xmqFreeLineConfig(lc);
}
