/*@unit
@title comments survive print + parse: inside elements, between siblings, before and after the root; pretty and compact
@noproof
@end*/
#define VH_TOKENS "a", " ", "\n", "/", "*", "\xc3\xa5", "'", "\t", "-", "//", "*/", "/*", "\n  ", "b c", "{"
#define VH_NOISE 400
#define VH_EXLEN 5
#define VH_RNDLEN 16
#define VH_NO_G
#define VH_P 12
#include "vh.h"
#include "vapi.h"
#define VWS(c) ((c)==' '||(c)=='\n'||(c)=='\t'||(c)=='\r')
static bool xml_ok(const char *s, size_t n)
{
    if (!v_utf8_ok(s, n)) return false;
    for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c < 32 && c != '\n' && c != '\t') return false; }
    return true;
}
/* Invisible layout of a comment is not content: white space at the end of a line, empty lines around the text, and, when
   the text starts on a line of its own, the indentation common to all lines. */
static char *norm(const char *s, int mode)
{
    const char *f = s; bool own = false;
    for (const char *i = s; VWS(*i); i++) if (*i == '\n') { f = i + 1; own = true; }
    size_t ind = 0;
    if (own && mode == 0)
    {
        ind = (size_t)-1; size_t k = 0; bool at = true;
        for (const char *i = f; *i; i++)
        {
            if (*i == '\n') { k = 0; at = true; }
            else if (at && *i == ' ') k++;
            else if (at && !VWS(*i)) { if (k < ind) ind = k; at = false; }
            else at = at && *i == '\t';
        }
    }
    char *o = malloc(strlen(s) + 1), *w = o, *line = o; size_t k = 0;
    for (const char *i = f; *i; i++)
    {
        if (*i == '\n') { while (w > line && VWS(w[-1])) w--; *w++ = '\n'; line = w; k = 0; }
        else if (*i == ' ' && k < ind) k++;
        else { k = ind; *w++ = *i; }
    }
    while (w > o && VWS(w[-1])) w--;
    *w = 0;
    if (mode == 1)
    {
        w = o;
        for (char *i = o; *i; i++) if (*i != ' ' || (i > o && i[-1] != '\n')) *w++ = *i;
        *w = 0;
    }
    return o;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    unsigned where = p / 2; bool compact = p % 2;
    VH_ASSUME(xml_ok(in, n));
    for (size_t i = 0, k = 1; i < n; i++) { VH_ASSUME(!(k && in[i] == '\t')); k = in[i] == '\n' || (k && in[i] == ' '); } /* tab indentation is not comparable */
    char *z = v_dupz(in, n);
    xmlNodePtr r;
    XMQDoc *d = v_newdoc(&r);
#define CM xmlNewDocComment(v_xml(d), (xmlChar*)z)
#define EL(x) xmlNewChild(r, NULL, (xmlChar*)x, NULL)
    if (where == 0) { xmlAddChild(r, CM); }
    else if (where == 1) { EL("e"); xmlAddChild(r, CM); EL("f"); }
    else if (where == 2) { xmlAddPrevSibling(r, CM); xmlAddNextSibling(r, CM); EL("e"); }
    else if (where == 3) { xmlAddChild(r, CM); xmlAddChild(r, CM); xmlAddChild(r, xmlNewDocText(v_xml(d), (xmlChar*)"x y")); }
    else if (where == 4) { xmlNodePtr e = EL("e"); xmlAddChild(e, xmlNewDocText(v_xml(d), (xmlChar*)"x/")); xmlAddChild(r, CM); EL("f"); xmlAddChild(r, CM); }
    else { xmlAddChild(r, xmlNewDocText(v_xml(d), (xmlChar*)"t")); xmlAddChild(r, CM); xmlAddChild(r, xmlNewDocText(v_xml(d), (xmlChar*)"x\ny"));
           xmlAddChild(r, xmlNewReference(v_xml(d), (xmlChar*)"&foo;")); xmlAddChild(r, CM); }
    VPrint o = {0};
    o.compact = compact;
    size_t len;
    char *s = v_print(d, o, &len);
    XMQDoc *b = v_parse(s, len, 0);
    if (!b) { fprintf(stderr, "printed: [%.*s]\n", (int)len, s); }
    VH_ASSERT("printed comment parses", b != NULL);
    xmlNodePtr q = xmlDocGetRootElement(v_xml(b));
    /* normalise both */
    XMQDoc *dd[2] = { d, b };
    for (int k = 0; k < 2; k++)
    {
        xmlNodePtr c = v_xml(dd[k])->children;
        while (c)
        {
            if (c->type == XML_COMMENT_NODE) { char *y = norm((char*)c->content, compact ? k + 1 : 0); xmlNodeSetContent(c, (xmlChar*)y); free(y); }
            if (c->children && c->type == XML_ELEMENT_NODE) c = c->children;
            else { while (c && !c->next) c = c->parent == (xmlNodePtr)v_xml(dd[k]) ? NULL : c->parent; if (c) c = c->next; }
        }
    }
    const char *df = v_diff(v_xml(d)->children, v_xml(b)->children);
    if (df) { fprintf(stderr, "%s printed: [%.*s]\n", df, (int)len, s); }
    VH_ASSERT("comment kept", !df);
    if (compact) { size_t k = len; while (k && s[k-1] == '\n') k--; VH_ASSERT("compact output is a single line", !memchr(s, '\n', k)); }
    free(s); free(z);
    xmqFreeDoc(b); xmqFreeDoc(d);
    VH_COVER("round trip");
}
