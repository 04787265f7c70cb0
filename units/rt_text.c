/*@unit
@title text content survives print + parse: element value, attribute value, standalone text, mixed content; pretty, compact and escape modes
@noproof
@end*/
#define VH_TOKENS "a", " ", "\n", "'", "\t", "/", "*", "=", "\r", "\xc3\xa5", "(", ")", "{", "}", ";", "&", "\"", "0", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\xa0", "'''", "\n    ", "&amp;", "-", "<", ":", "\x7f"
#define VH_NOISE 400
#define VH_EXLEN 4
#define VH_RNDLEN 24
#define VH_NO_G
#define VH_P 24
#include "vh.h"
#include "vapi.h"
static bool xml_ok(const char *s, size_t n)
{
    if (!v_utf8_ok(s, n)) return false;
    for (size_t i = 0; i < n; i++)
    {
        unsigned char c = s[i];
        if (c < 32 && c != '\n' && c != '\t' && c != '\r') return false;
        if (c == 0xef && i + 2 < n && (unsigned char)s[i+1] == 0xbf && (unsigned char)s[i+2] >= 0xbe) return false;
    }
    return true;
}
/* format rule r7: spaces and tabs before a newline inside a multi line quote are not content. Only applied when newlines are printed literally. */
static char *norm(char *s, bool lit)
{
    if (!lit) return s;
    char *o = s;
    for (char *i = s; *i; i++)
    {
        char *j = i;
        while (*j == ' ' || *j == '\t') j++;
        if (*j == '\n') i = j;
        *o++ = *i;
    }
    *o = 0;
    return s;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    unsigned where = p % 4, mode = p / 4;
    VH_ASSUME(n > 0 && xml_ok(in, n));
    char *z = v_dupz(in, n);
    xmlNodePtr r;
    XMQDoc *d = v_newdoc(&r);
    if (where == 0) { xmlNodePtr e = xmlNewChild(r, NULL, (xmlChar*)"e", NULL); xmlAddChild(e, xmlNewDocText(v_xml(d), (xmlChar*)z)); }
    else if (where == 1) xmlSetProp(r, (xmlChar*)"k", (xmlChar*)z);
    else if (where == 2) { xmlAddChild(r, xmlNewDocText(v_xml(d), (xmlChar*)z)); xmlNewChild(r, NULL, (xmlChar*)"e", NULL); }
    else
    {
        xmlNodePtr e = xmlNewChild(r, NULL, (xmlChar*)"e", NULL);
        xmlAddChild(e, xmlNewDocText(v_xml(d), (xmlChar*)z));
        xmlSetProp(e, (xmlChar*)"k", (xmlChar*)z);
        xmlSetProp(e, (xmlChar*)"l", (xmlChar*)z);
        xmlNewChild(r, NULL, (xmlChar*)"f", NULL);
        xmlAddChild(r, xmlNewDocText(v_xml(d), (xmlChar*)z));
        xmlNewChild(r, NULL, (xmlChar*)"g", NULL);
    }
    VPrint o = {0};
    o.indent = 4;
    if (mode == 1) o.compact = true;
    if (mode == 2) o.esc_nl = true;
    if (mode == 3) o.esc_non7 = true;
    if (mode == 4) { o.compact = true; o.esc_non7 = true; o.esc_tabs = true; }
    if (mode == 5) { o.esc_tabs = true; o.indent = 0; }
    size_t len;
    char *s = v_print(d, o, &len);
    if (o.compact)
    {
        size_t k = len; while (k && s[k-1] == '\n') k--;
        VH_ASSERT("compact output is a single line", !memchr(s, '\n', k) && !memchr(s, '\r', k));
    }
    if (o.esc_non7) for (size_t i = 0; i < len; i++) VH_ASSERT("escaped output is 7-bit", (unsigned char)s[i] < 128);
    if (o.esc_tabs) VH_ASSERT("no literal tab", !memchr(s, '\t', len));
    XMQDoc *b = v_parse(s, len, 0);
    if (!b) { fprintf(stderr, "printed: [%.*s]\n", (int)len, s); }
    VH_ASSERT("printed text parses", b != NULL);
    xmlNodePtr q = xmlDocGetRootElement(v_xml(b));
    VH_ASSERT("root", q && !strcmp((char*)q->name, "r"));
    char *got = NULL;
    bool lit = mode == 0 || mode == 3 || mode == 5;
    norm(z, lit);
    xmlNodePtr e = xmlFirstElementChild(q);
    if (where == 0) { VH_ASSERT("element kept", e && !strcmp((char*)e->name, "e") && !e->next && !e->prev); got = v_content(e); }
    else if (where == 1) { VH_ASSERT("no children", !q->children); got = v_attr(q, "k"); }
    else if (where == 2) { VH_ASSERT("one element, last", e && !strcmp((char*)e->name, "e") && !e->next && !e->children); got = v_content(q); }
    else
    {
        VH_ASSERT("structure", e && !strcmp((char*)e->name, "e"));
        char *x = v_content(e), *k = v_attr(e, "k"), *l = v_attr(e, "l");
        norm(x, lit); if (k) norm(k, lit); if (l) norm(l, lit);
        if (strcmp(x, z) || !k || strcmp(k, z) || !l || strcmp(l, z)) { fprintf(stderr, "printed: [%.*s]\n", (int)len, s); }
        VH_ASSERT("value kept", !strcmp(x, z));
        VH_ASSERT("attributes kept", k && !strcmp(k, z) && l && !strcmp(l, z));
        VH_ASSERT("sibling", e->next && !strcmp((char*)e->next->name, "f") && !e->next->children);
        xmlNodePtr h = xmlLastElementChild(q);
        VH_ASSERT("last sibling", !strcmp((char*)h->name, "g") && !h->next && !h->children);
        free(x); free(k); free(l);
        xmlNodePtr m = e->next->next; VH_ASSERT("text between", m != h);
        got = v_run(&m);
        VH_ASSERT("only text between", m == h);
    }
    if (got) norm(got, lit);
    if (!got || strcmp(got, z)) { fprintf(stderr, "printed: [%.*s] got [%s]\n", (int)len, s, got); }
    VH_ASSERT("content kept byte for byte", got && !strcmp(got, z));
    free(got);
    free(s); free(z);
    xmqFreeDoc(b); xmqFreeDoc(d);
    VH_COVER("round trip");
}
