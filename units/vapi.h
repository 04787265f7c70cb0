/* Helpers for executed contracts over the public API: exact-size buffers, printing to memory, parsing, tree comparison. */
#ifndef VAPI_H
#define VAPI_H
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <stdio.h>
#include "xmq.h"

static bool v_utf8_ok(const char *s, size_t n)
{
    size_t i = 0;
    while (i < n)
    {
        unsigned char c = s[i];
        int k = c < 0x80 ? 0 : (c & 0xe0) == 0xc0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : (c & 0xf8) == 0xf0 ? 3 : -1;
        if (k < 0 || i + k >= n) return false;
        unsigned cp = k == 0 ? c : k == 1 ? c & 31 : k == 2 ? c & 15 : c & 7;
        for (int j = 1; j <= k; j++) { if ((s[i+j] & 0xc0) != 0x80) return false; cp = cp << 6 | (s[i+j] & 63); }
        if ((k == 1 && cp < 0x80) || (k == 2 && cp < 0x800) || (k == 3 && (cp < 0x10000 || cp > 0x10ffff)) || (cp >= 0xd800 && cp < 0xe000)) return false;
        i += k + 1;
    }
    return true;
}
/* characters an XML document can hold (carriage return aside, which XML readers normalise) */
static bool v_xmltext(const char *s, size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        unsigned char c = s[i];
        if (c < 32 && c != 9 && c != 10) return false;
        if (c == 0xef && i + 2 < n && (unsigned char)s[i+1] == 0xbf && (unsigned char)s[i+2] >= 0xbe) return false;
    }
    return v_utf8_ok(s, n);
}
static char *v_dup(const char *s, size_t n) { char *b = malloc(n ? n : 1); memcpy(b, s, n); return b; }
static char *v_dupz(const char *s, size_t n) { char *b = malloc(n + 1); memcpy(b, s, n); b[n] = 0; return b; }

typedef struct { bool compact, esc_nl, esc_non7, esc_tabs; int indent; int format; int render; bool color; bool dark; } VPrint;
static char *v_print(XMQDoc *d, VPrint o, size_t *len)
{
    XMQOutputSettings *os = xmqNewOutputSettings();
    if (o.compact) { xmqSetCompact(os, true); xmqSetEscapeNewlines(os, true); }
    if (o.esc_nl) xmqSetEscapeNewlines(os, true);
    if (o.esc_non7) xmqSetEscapeNon7bit(os, true);
    if (o.esc_tabs) xmqSetEscapeTabs(os, true);
    if (o.indent) xmqSetAddIndent(os, o.indent);
    if (o.format) xmqSetOutputFormat(os, o.format);
    xmqSetUseColor(os, o.color);
    xmqSetBackgroundMode(os, o.dark);
    xmqSetRenderFormat(os, o.render ? o.render : XMQ_RENDER_PLAIN);
    xmqSetRenderRaw(os, true);
    xmqSetupDefaultColors(os);
    char *start = NULL, *stop = NULL;
    xmqSetupPrintMemory(os, &start, &stop);
    xmqPrint(d, os);
    size_t n = start ? (size_t)(stop - start) : 0;
    while (n && start[n-1] == 0) n--;
    *len = n;
    xmqFreeOutputSettings(os);
    return start;
}
static XMQDoc *v_parse(const char *s, size_t n, int flags)
{
    char *b = v_dupz(s, n);
    XMQDoc *d = xmqNewDoc();
    bool ok = xmqParseBuffer(d, b, b + n, NULL, flags);
    free(b);
    if (!ok) { xmqFreeDoc(d); return NULL; }
    return d;
}
static xmlDocPtr v_xml(XMQDoc *d) { return (xmlDocPtr)xmqGetImplementationDoc(d); }
static XMQDoc *v_newdoc(xmlNodePtr *root)
{
    XMQDoc *d = xmqNewDoc();
    xmlNodePtr r = xmlNewDocNode(v_xml(d), NULL, (xmlChar*)"r", NULL);
    xmlDocSetRootElement(v_xml(d), r);
    *root = r;
    return d;
}
/* content of a list of text / entity / char reference nodes (elements: their children), predefined entities expanded;
   an unknown node kind or entity shows as \001name\001 */
static void v_cat(char **o, size_t *n, const char *s)
{
    size_t k = strlen(s); *o = realloc(*o, *n + k + 1); memcpy(*o + *n, s, k + 1); *n += k;
}
static void v_walk(char **o, size_t *n, xmlNodePtr c)
{
    for (; c; c = c->next)
    {
        if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) v_cat(o, n, (char*)c->content);
        else if (c->type == XML_ELEMENT_NODE) v_walk(o, n, c->children);
        else if (c->type == XML_ENTITY_REF_NODE)
        {
            const char *e = (char*)c->name;
            if (!strcmp(e, "apos")) v_cat(o, n, "'");
            else if (!strcmp(e, "quot")) v_cat(o, n, "\"");
            else if (!strcmp(e, "lt")) v_cat(o, n, "<");
            else if (!strcmp(e, "gt")) v_cat(o, n, ">");
            else if (!strcmp(e, "amp")) v_cat(o, n, "&");
            else { v_cat(o, n, "\001"); v_cat(o, n, e); v_cat(o, n, "\001"); }
        }
        else v_cat(o, n, "\001?\001");
    }
}
static char *v_list(xmlNodePtr c) { char *o = calloc(1, 1); size_t n = 0; v_walk(&o, &n, c); return o; }
static char *v_content(xmlNodePtr n) { return v_list(n->children); }
static char *v_attr(xmlNodePtr n, const char *k)
{
    for (xmlAttrPtr a = n->properties; a; a = a->next) if (!strcmp((char*)a->name, k)) return v_list(a->children);
    return NULL;
}
/* deep comparison; text runs are compared by content with predefined entities expanded; NULL if equal, else what differs */
static bool v_is_txt(xmlNodePtr c) { return c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE || c->type == XML_ENTITY_REF_NODE; }
static char *v_run(xmlNodePtr *c)
{
    char *o = calloc(1, 1); size_t n = 0;
    while (*c && v_is_txt(*c)) { xmlNodePtr nx = (*c)->next; (*c)->next = NULL; v_walk(&o, &n, *c); (*c)->next = nx; *c = nx; }
    return o;
}
static bool v_seq(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)) || (!a && b && !*b) || (!b && a && !*a); }
static const char *v_diff(xmlNodePtr a, xmlNodePtr b)
{
    for (;;)
    {
        if ((a && v_is_txt(a)) || (b && v_is_txt(b)))
        {
            char *x = v_run(&a), *y = v_run(&b);
            bool eq = !strcmp(x, y);
            if (!eq) fprintf(stderr, "text [%s] != [%s]\n", x, y);
            free(x); free(y);
            if (!eq) return "text content";
            continue;
        }
        if (!a || !b) return a == b ? NULL : a ? "missing node" : "extra node";
        if (a->type != b->type) return "node kind";
        if (a->type == XML_ELEMENT_NODE)
        {
            if (strcmp((char*)a->name, (char*)b->name)) return "element name";
            if (!v_seq(a->ns ? (char*)a->ns->prefix : 0, b->ns ? (char*)b->ns->prefix : 0)) return "element prefix";
            if (!v_seq(a->ns ? (char*)a->ns->href : 0, b->ns ? (char*)b->ns->href : 0)) return "element namespace";
            xmlAttrPtr p = a->properties, q = b->properties;
            for (; p && q; p = p->next, q = q->next)
            {
                if (strcmp((char*)p->name, (char*)q->name)) return "attribute name";
                if (!v_seq(p->ns ? (char*)p->ns->prefix : 0, q->ns ? (char*)q->ns->prefix : 0)) return "attribute prefix";
                char *x = v_list(p->children), *y = v_list(q->children); bool eq = !strcmp(x, y);
                if (!eq) fprintf(stderr, "attribute [%s] != [%s]\n", x, y);
                free(x); free(y);
                if (!eq) return "attribute value";
            }
            if (p || q) return "number of attributes";
            int cnt = 0;
            for (xmlNsPtr m = a->nsDef; m; m = m->next, cnt++)
            {
                xmlNsPtr o = b->nsDef;
                while (o && !(v_seq((char*)m->prefix, (char*)o->prefix) && v_seq((char*)m->href, (char*)o->href))) o = o->next;
                if (!o) return "namespace declaration";
            }
            for (xmlNsPtr o = b->nsDef; o; o = o->next) cnt--;
            if (cnt) return "number of namespace declarations";
            const char *d = v_diff(a->children, b->children);
            if (d) return d;
        }
        else if (a->type == XML_COMMENT_NODE)
        {
            if (strcmp((char*)a->content, (char*)b->content)) { fprintf(stderr, "comment [%s] != [%s]\n", a->content, b->content); return "comment"; }
        }
        else if (a->type == XML_PI_NODE)
        {
            if (strcmp((char*)a->name, (char*)b->name) || !v_seq((char*)a->content, (char*)b->content)) return "processing instruction";
        }
        a = a->next; b = b->next;
    }
}
#endif
