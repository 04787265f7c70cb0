/* Builds a document from a string of operations (two characters each); uses TXT[] and CMT[] of the including unit. */
#ifndef VTREE_H
#define VTREE_H
static XMQDoc *v_build(const char *in, size_t n)
{
    xmlNodePtr r, cur;
    XMQDoc *d = v_newdoc(&r);
    xmlDocPtr x = v_xml(d);
    xmlNsPtr gns = xmlNewNs(r, (xmlChar*)"http://g/1", (xmlChar*)"g");
    xmlNsPtr pns = xmlNewNs(r, (xmlChar*)"p:x", (xmlChar*)"p");
    cur = r;
    int depth = 0;
    for (size_t i = 0; i < n; i++)
    {
        char c = in[i], a = i + 1 < n ? in[i+1] : 0;
        unsigned k = a >= 'A' ? (unsigned)(a - 'A') + 10 : (unsigned)(a - '0');
        const char *val = TXT[((unsigned char)(i + n)) % (sizeof(TXT)/sizeof(TXT[0]))];
        if (c == '<' && depth < 20)
        {
            const char *nm = a == 'e' ? "e" : a == 'g' ? "f" : a == 'h' ? "h-1.x_2" : "_";
            cur = xmlNewChild(cur, a == 'g' ? gns : NULL, (xmlChar*)nm, NULL); if (a != 'g') cur->ns = NULL; depth++;
        }
        else if (c == '>') { if (depth) { cur = cur->parent; depth--; } }
        else if (c == 'a' && cur) xmlSetProp(cur, (xmlChar*)"a1", (xmlChar*)val);
        else if (c == 'b') xmlSetNsProp(cur, pns, (xmlChar*)"q", (xmlChar*)val);
        else if (c == 'c') xmlSetProp(cur, (xmlChar*)"k", (xmlChar*)"");
        else if (c == 't' && k < sizeof(TXT)/sizeof(TXT[0])) { if (!cur->last || cur->last->type != XML_TEXT_NODE) xmlAddChild(cur, xmlNewDocText(x, (xmlChar*)TXT[k])); }
        else if (c == '&' && k < 2) xmlAddChild(cur, xmlNewReference(x, (xmlChar*)(k ? "&foo.x;" : "&nbsp;")));
        else if (c == '#' && k < sizeof(CMT)/sizeof(CMT[0])) xmlAddChild(cur, xmlNewDocComment(x, (xmlChar*)CMT[k]));
        else if (c == '?' && k < 2) xmlAddChild(cur, xmlNewDocPI(x, (xmlChar*)(k ? "php" : "xx"), (xmlChar*)(k ? "echo 1" : "y")));
        else if (c == 'n' && k < 2 && !cur->nsDef) xmlNewNs(cur, (xmlChar*)(k ? "http://n/2" : "urn:n"), (xmlChar*)(k ? "m" : "g2"));
        else continue;
        i++;
    }
    return d;
}
#endif
