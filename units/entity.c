/*@unit
@title character references and entities denote their character in values, attributes, compounds and mixed content, written as XMQ, XML, JSON and HTML
@noproof
@end*/
#define VH_TOKENS "#", "x", "0", "1", "9", "a", "F", "#x", "amp", "lt", "gt", "quot", "apos", "nbsp", "foo", "000", "d8", "65", "X", "10ffff", "110000", "-", ".", "_", "1114111", "1114112", "dfff", "55296", "20ac", "128512", "fffd", "Z", "#38", "#x3c", "#10", "#9", "#13", "#39"
#define VH_NOISE 200
#define VH_EXLEN 3
#define VH_RNDLEN 6
#define VH_NO_G
#define VH_P 28
#include "vh.h"
#include "vapi.h"
/* what the text between & and ; denotes: 0 none (error), 1 the character *c, 2 an entity kept by name */
static int denotes(const char *s, size_t n, unsigned long *c)
{
    static const struct { const char *n; unsigned c; } pre[] = { {"amp",'&'},{"lt",'<'},{"gt",'>'},{"quot",'"'},{"apos",'\''} };
    for (int k = 0; k < 5; k++) if (n == strlen(pre[k].n) && !memcmp(s, pre[k].n, n)) { *c = pre[k].c; return 1; }
    if (s[0] != '#') return 2;
    bool hex = n > 1 && s[1] == 'x';
    size_t i = hex ? 2 : 1;
    if (i == n) return 0;
    *c = 0;
    for (; i < n; i++)
    {
        int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : hex && s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : hex && s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : -1;
        if (d < 0) return 0;
        *c = *c * (hex ? 16 : 10) + d;
        if (*c > 0x10ffff) return 0;
    }
    return *c && (*c < 0xd800 || *c > 0xdfff);
}
static char *utf8(unsigned long c)
{
    static char b[5]; char *o = b;
    if (c < 0x80) *o++ = c;
    else if (c < 0x800) { *o++ = 0xc0 | c >> 6; *o++ = 0x80 | (c & 63); }
    else if (c < 0x10000) { *o++ = 0xe0 | c >> 12; *o++ = 0x80 | (c >> 6 & 63); *o++ = 0x80 | (c & 63); }
    else { *o++ = 0xf0 | c >> 18; *o++ = 0x80 | (c >> 12 & 63); *o++ = 0x80 | (c >> 6 & 63); *o++ = 0x80 | (c & 63); }
    *o = 0;
    return b;
}
/* the content with the references that stand as nodes of their own decoded */
static char *decoded(char *s)
{
    char *o = malloc(strlen(s) * 2 + 8), *w = o;
    for (char *i = s; *i; i++)
    {
        if (*i == 1 && i[1] == '#')
        {
            char *e = strchr(i + 1, 1); unsigned long c = 0;
            if (e && denotes(i + 1, e - i - 1, &c) == 1) { strcpy(w, utf8(c)); w += strlen(w); i = e; continue; }
        }
        *w++ = *i;
    }
    *w = 0; free(s);
    return o;
}
static char *at(xmlNodePtr r, unsigned where)
{
    if (where == 1 || where == 3) { char *v = v_attr(r, "k"); return v ? decoded(v) : strdup("<no k>"); }
    return decoded(v_content(r));
}
static void same(const char *what, const char *doc, char *got, const char *want)
{
    if (strcmp(got, want)) fprintf(stderr, "%s: [%s]\ngot  [%s]\nwant [%s]\n", what, doc, got, want);
    VH_ASSERT(what, !strcmp(got, want));
    free(got);
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    VH_ASSUME(n > 0 && n < 60);
    char ref[96]; memcpy(ref, in, n); ref[n] = 0;
    unsigned where = p % 6, spell = p / 6 % 2; int flags = p >= 12 ? XMQ_FLAG_NOMERGE : 0;
    if (p >= 24) { where = 6; spell = p & 1; flags = p >= 26 ? XMQ_FLAG_NOMERGE : 0; }
    if (spell)
    {
        /* any code point, any spelling of it */
        unsigned long h = 1469598103934665603UL;
        for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)in[i]) * 1099511628211UL;
        h ^= h >> 29;
        static const unsigned top[] = { 0x80, 0x800, 0x10000, 0x110000, 0x110010, 0xe000 };
        unsigned c = h / 64 % top[h % 6]; if (h & 0x1000000) c = top[h % 6] - 1 - c % 20;
        char z[24]; memset(z, '0', 23); z[h >> 32 & 7 ? 0 : h >> 36 & 15] = 0;
        sprintf(ref, h & 0x100000 ? "#x%s%x" : h & 0x200000 ? "#x%s%X" : "#%s%u", z, c);
    }
    for (char *i = ref; *i; i++) VH_ASSUME((*i >= 'a' && *i <= 'z') || (*i >= 'A' && *i <= 'Z') || (*i >= '0' && *i <= '9') || strchr("-_.#", *i));
    size_t rn = strlen(ref);
    unsigned long c = 0;
    int kind = denotes(ref, rn, &c);
    static const char *pre[] = { "r=&", "r(k=&", "r=('x'&", "r(k=('x'&", "r{&", "r{'x'&", "html{body{script=('x'&" };
    static const char *suf[] = { ";", ";)", ";'y')", ";'y'))", ";}", ";'y'}", ";'y')}}" };
    char doc[200]; sprintf(doc, "%s%s%s", pre[where], ref, suf[where]);
    XMQDoc *d = v_parse(doc, strlen(doc), flags);
    if (kind == 0)
    {
        if (d) fprintf(stderr, "doc: [%s]\n", doc);
        VH_ASSERT("a reference that denotes no character is an error", !d);
        VH_COVER("error");
        return;
    }
    if (!d) fprintf(stderr, "doc: [%s]\n", doc);
    VH_ASSERT("parses", d != NULL);
    char want[200];
    if (kind == 1) { strcpy(want, utf8(c)); VH_COVER("character"); } else { sprintf(want, "\001%s\001", ref); VH_COVER("name"); }
    if (where == 2 || where == 3 || where == 5) { memmove(want + 1, want, strlen(want) + 1); *want = 'x'; strcat(want, "y"); }
    if (where == 6)
    {
        VH_ASSUME(c >= 32 || c == 9 || c == 10 || c == 13 || kind == 2);
        if (kind == 2) sprintf(want, "x&%s;y", ref); else sprintf(want, "x%sy", utf8(c));
        if (!strcmp(ref, "nbsp")) strcpy(want, "x\u00a0y");
        VPrint o = {0}; o.format = XMQ_CONTENT_HTML; size_t len;
        char *t = v_print(d, o, &len);
        if (!memmem(t, len, want, strlen(want))) fprintf(stderr, "[%s] printed [%.*s]\n", doc, (int)len, t);
        VH_ASSERT("the HTML script holds the character", memmem(t, len, want, strlen(want)) != NULL);
        free(t); xmqFreeDoc(d); VH_COVER("html");
        return;
    }
    xmlNodePtr r = xmlDocGetRootElement(v_xml(d));
    same("the content holds the character", doc, at(r, where), want);
    bool xmlc = kind == 2 ? isalpha(*ref) && !strchr(ref, '#') : c >= 32 || c == 9 || c == 10 || c == 13;
    if (kind == 1 && (c == 0xfffe || c == 0xffff)) xmlc = false;
    size_t len;
    for (int k = 0; xmlc && k < 2; k++)
    {
        VPrint o = {0}; o.compact = k == 1; o.indent = 4; o.format = XMQ_CONTENT_XMQ;
        char *t = v_print(d, o, &len);
        XMQDoc *e = v_parse(t, len, flags);
        if (!e) fprintf(stderr, "[%s] printed [%.*s]\n", doc, (int)len, t);
        VH_ASSERT("the XMQ written parses", e != NULL);
        same("the XMQ written holds the character", t, at(xmlDocGetRootElement(v_xml(e)), where), want);
        xmqFreeDoc(e); free(t);
    }
    if (xmlc)
    {
        VPrint o = {0}; o.format = XMQ_CONTENT_XML;
        char *t = v_print(d, o, &len);
        if (kind == 1 && flags && rn > 10) ; /* libxml2 does not read references with that many zeros */
        else if (kind == 1)
        {
            xmlDocPtr x = xmlReadMemory(t, len, "v", NULL, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
            if (!x) fprintf(stderr, "[%s] printed [%.*s]\n", doc, (int)len, t);
            VH_ASSERT("the XML written parses", x != NULL);
            same("the XML written holds the character", t, at(xmlDocGetRootElement(x), where), want);
            xmlFreeDoc(x);
        }
        else
        {
            char w[100]; sprintf(w, "&%s;", ref);
            if (!memmem(t, len, w, strlen(w))) fprintf(stderr, "[%s] printed [%.*s]\n", doc, (int)len, t);
            VH_ASSERT("the XML written holds the entity by its name", memmem(t, len, w, strlen(w)) != NULL);
        }
        free(t);
    }
    if (xmlc)
    {
        VPrint o = {0}; o.format = XMQ_CONTENT_JSON; o.compact = true;
        char *t = v_print(d, o, &len);
        if (kind == 1)
        {
            XMQDoc *e = xmqNewDoc(); VH_ASSERT("the JSON written parses", xmqParseBufferWithType(e, t, t + len, NULL, XMQ_CONTENT_JSON, 0));
            if (where < 4) same("the JSON written holds the character", t, at(xmlDocGetRootElement(v_xml(e)), where), want);
            else
            {
                char *a = v_content(xmlDocGetRootElement(v_xml(e)));
                if (!strstr(a, utf8(c))) fprintf(stderr, "[%s] printed [%.*s]\n", doc, (int)len, t);
                VH_ASSERT("the JSON written holds the character", strstr(a, utf8(c)));
                free(a);
            }
            xmqFreeDoc(e);
        }
        free(t);
    }
    xmqFreeDoc(d);
}
