/*@unit
@title the getters return the exact string and the number a node's content denotes (decimal, octal, hexadecimal), the first match counts, nothing matched is zero
@noproof
@end*/
#define VH_TOKENS "0", "1", "7", "8", "9", "a", "F", "x", "-", "+", " ", ".", "e", "0x", "2147483647", "9223372036854775807", "\n", "'", "\xc3\xa5", "&", "<", "17", "777", "\t"
#define VH_NOISE 4000
#define VH_EXLEN 3
#define VH_RNDLEN 8
#define VH_NO_G
#define VH_P 2
#include "vh.h"
#include "vapi.h"
#include <libxml/xmlerror.h>
static void quiet(void *c, const char *m, ...) { }
static bool compound(xmlNodePtr n) { for (xmlNodePtr c = n ? n->children : NULL; c; c = c->next) if (c->type == XML_ENTITY_REF_NODE) return true; return false; }
struct XMQNode { xmlNodePtr node; };
/* what the content denotes, written from the documentation: 0x.. hexadecimal, 0.. octal, else decimal; the longest such prefix behind white space and sign */
static bool num(const char *s, int64_t *r)
{
    uint64_t v = 0; int base = 10; bool neg = false;
    if (s[0] == '0' && s[1] == 'x') { base = 16; s += 2; }
    else if (s[0] == '0') base = 8;
    else
    {
        while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
        if (*s == '-' || *s == '+') neg = *s++ == '-';
    }
    for (;; s++)
    {
        int d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10 : 99;
        if (d >= base) break;
        if (v > (UINT64_MAX - d) / base) return false;
        v = v * base + d;
    }
    if (v > (uint64_t)INT64_MAX + (neg ? 1 : 0)) return false;
    *r = neg ? (int64_t)(0 - v) : (int64_t)v;
    return true;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    VH_ASSUME(v_xmltext(in, n));
    xmlSetGenericErrorFunc(NULL, quiet);
    char *z = v_dupz(in, n);
    VH_ASSUME(strlen(z) == n);
    /* format rule: spaces and tabs before a newline inside a multi line quote are not content */
    for (size_t i = 1; i < n; i++) VH_ASSUME(p == 1 || in[i] != '\n' || (in[i-1] != ' ' && in[i-1] != '\t'));
    xmlNodePtr r;
    XMQDoc *d = v_newdoc(&r);
    xmlDocPtr x = v_xml(d);
    xmlNodePtr e = xmlNewChild(r, NULL, (xmlChar*)"v", NULL);
    if (n) xmlAddChild(e, xmlNewDocText(x, (xmlChar*)z));
    xmlNodePtr a = xmlNewChild(r, NULL, (xmlChar*)"w", NULL);
    xmlNewProp(a, (xmlChar*)"k", (xmlChar*)z);
    xmlNewChild(r, NULL, (xmlChar*)"v", (xmlChar*)"second");
    VPrint o = {0}; o.indent = 4; o.compact = p == 1;
    size_t len; char *s = v_print(d, o, &len);
    XMQDoc *b = v_parse(s, len, 0);
    VH_ASSERT("parses", b != NULL);
    VH_ASSERT("number of matches", xmqForeach(b, "/r/v", NULL, NULL) == 2 && xmqForeach(b, "/r/nope", NULL, NULL) == 0 && xmqForeach(b, "//*", NULL, NULL) == 4);
    static const char *const path[] = { "/r/v", "/r/w/@k" };
    int64_t want;
    for (int k = 0; k < 2; k++)
    {
        const char *c = xmqGetString(b, path[k]);
        /* a quote mark next to white space is printed as a named entity, which stays a node of its own when parsed */
        xmlNodePtr first = v_xml(b)->children->children;
        xmlNodePtr at = k ? (first->next ? (xmlNodePtr)first->next->properties : NULL) : first;
        if (compound(at)) { VH_KNOWN("entityref", v_seq(c, z)); }
        if (!v_seq(c, z)) fprintf(stderr, "[%s] printed [%.*s]\n", c, (int)len, s);
        VH_ASSERT("the exact string", v_seq(c, z));
        if (num(z, &want))
        {
            VH_ASSERT("the 64 bit number", xmqGetLong(b, path[k]) == want);
            if (want >= INT32_MIN && want <= INT32_MAX) VH_ASSERT("the 32 bit number", xmqGetInt(b, path[k]) == (int32_t)want);
            VH_COVER("number");
        }
        double q = xmqGetDouble(b, path[k]), w = strtod(z, NULL);
        VH_ASSERT("the double", q == w || (q != q && w != w));
    }
    VH_ASSERT("a namespace has no content", !xmqGetString(b, "//namespace::*") && xmqGetLong(b, "//namespace::*") == 0);
    XMQNode rn; rn.node = v_xml(b)->children;
    VH_ASSERT("relative path", v_seq(xmqGetStringRel(b, "v", &rn), z) && xmqGetLongRel(b, "v", &rn) == xmqGetLong(b, "/r/v") && xmqGetIntRel(b, "w/@k", &rn) == xmqGetInt(b, "/r/w/@k") && xmqGetDoubleRel(b, "nope", &rn) == 0);
    VH_ASSERT("nothing matched", !xmqGetString(b, "/r/nope") && xmqGetInt(b, "/r/nope") == 0 && xmqGetLong(b, "/r/nope") == 0 && xmqGetDouble(b, "/r/nope") == 0);
    VH_ASSERT("no path", !xmqGetString(b, "///") && xmqGetInt(b, "[") == 0);
    free(s); free(z); xmqFreeDoc(b); xmqFreeDoc(d);
}
