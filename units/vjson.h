/* Independent strict JSON reader (RFC 8259): canonical form of a JSON text, or NULL if it is not JSON.
   Canonical form: no insignificant whitespace, strings decoded to UTF-8 and shown between \1 and \2, numbers verbatim.
   lenient: the extensions the XMQ reader documents and the standard permits: a comma behind the last value, raw control characters in
   strings, the spaces XMQ knows (U+00A0, U+2000 to U+2003) as whitespace. */
#ifndef VJSON_H
#define VJSON_H
#include <string.h>
#include <stdlib.h>
typedef struct { const char *i, *e; char *o; size_t n, cap; int bad; int lenient; } VJ;
static void vj_c(VJ *j, int c) { if (j->n + 1 >= j->cap) { j->cap = j->cap * 2 + 64; j->o = realloc(j->o, j->cap); } j->o[j->n++] = (char)c; }
static void vj_ws(VJ *j)
{
    for (;;)
    {
        size_t l = j->e - j->i; const unsigned char *c = (const unsigned char*)j->i;
        if (l && (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\r')) j->i++;
        else if (j->lenient && l >= 2 && c[0] == 0xc2 && c[1] == 0xa0) j->i += 2;
        else if (j->lenient && l >= 3 && c[0] == 0xe2 && c[1] == 0x80 && c[2] >= 0x80 && c[2] <= 0x83) j->i += 3;
        else return;
    }
}
static int vj_hex(VJ *j)
{
    int v = 0;
    for (int k = 0; k < 4; k++, j->i++)
    {
        if (j->i >= j->e) { j->bad = 1; return 0; }
        char c = *j->i;
        int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        if (d < 0) { j->bad = 1; return 0; }
        v = v * 16 + d;
    }
    return v;
}
static void vj_u(VJ *j, unsigned u)
{
    if (u < 0x80) vj_c(j, u);
    else if (u < 0x800) { vj_c(j, 0xc0 | u >> 6); vj_c(j, 0x80 | (u & 63)); }
    else if (u < 0x10000) { vj_c(j, 0xe0 | u >> 12); vj_c(j, 0x80 | (u >> 6 & 63)); vj_c(j, 0x80 | (u & 63)); }
    else { vj_c(j, 0xf0 | u >> 18); vj_c(j, 0x80 | (u >> 12 & 63)); vj_c(j, 0x80 | (u >> 6 & 63)); vj_c(j, 0x80 | (u & 63)); }
}
static void vj_str(VJ *j)
{
    j->i++;
    vj_c(j, 1);
    while (!j->bad)
    {
        if (j->i >= j->e) { j->bad = 1; return; }
        unsigned char c = *j->i++;
        if (c == '"') break;
        if (c < 32 && !j->lenient) { j->bad = 1; return; }
        if (c != '\\') { vj_c(j, c); continue; }
        if (j->i >= j->e) { j->bad = 1; return; }
        c = *j->i++;
        switch (c)
        {
        case '"': case '\\': case '/': vj_c(j, c); break;
        case 'b': vj_c(j, 8); break;
        case 'f': vj_c(j, 12); break;
        case 'n': vj_c(j, 10); break;
        case 'r': vj_c(j, 13); break;
        case 't': vj_c(j, 9); break;
        case 'u':
        {
            unsigned u = vj_hex(j);
            if (u >= 0xd800 && u < 0xdc00)
            {
                if (j->i + 6 > j->e || j->i[0] != '\\' || j->i[1] != 'u') { j->bad = 1; return; }
                j->i += 2;
                unsigned l = vj_hex(j);
                if (l < 0xdc00 || l > 0xdfff) { j->bad = 1; return; }
                u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
            }
            else if ((u >= 0xdc00 && u < 0xe000) || u == 0) { j->bad = 1; return; }
            vj_u(j, u);
            break;
        }
        default: j->bad = 1; return;
        }
    }
    vj_c(j, 2);
}
static bool vj_dig(VJ *j) { return j->i < j->e && *j->i >= '0' && *j->i <= '9'; }
static void vj_num(VJ *j)
{
    const char *s = j->i;
    if (j->i < j->e && *j->i == '-') j->i++;
    if (!vj_dig(j)) { j->bad = 1; return; }
    if (*j->i == '0') j->i++; else while (vj_dig(j)) j->i++;
    if (j->i < j->e && *j->i == '.') { j->i++; if (!vj_dig(j)) { j->bad = 1; return; } while (vj_dig(j)) j->i++; }
    if (j->i < j->e && (*j->i == 'e' || *j->i == 'E'))
    {
        j->i++;
        if (j->i < j->e && (*j->i == '+' || *j->i == '-')) j->i++;
        if (!vj_dig(j)) { j->bad = 1; return; }
        while (vj_dig(j)) j->i++;
    }
    if (j->i < j->e && !strchr(" \t\n\r,]}", *j->i)) { j->bad = 1; return; }
    while (s < j->i) vj_c(j, *s++);
}
static bool vj_lit(VJ *j, const char *l)
{
    size_t n = strlen(l);
    if ((size_t)(j->e - j->i) < n || memcmp(j->i, l, n)) return false;
    while (*l) vj_c(j, *l++);
    j->i += n;
    return true;
}
static void vj_val(VJ *j)
{
    vj_ws(j);
    if (j->bad || j->i >= j->e) { j->bad = 1; return; }
    char c = *j->i;
    if (c == '"') vj_str(j);
    else if (c == '{' || c == '[')
    {
        char cl = c == '{' ? '}' : ']';
        vj_c(j, c); j->i++;
        vj_ws(j);
        if (j->i < j->e && *j->i == cl) { j->i++; vj_c(j, cl); vj_ws(j); return; }
        for (;;)
        {
            vj_ws(j);
            if (j->lenient && j->i < j->e && *j->i == cl) { j->i++; vj_c(j, cl); break; }
            if (c == '{')
            {
                if (j->i >= j->e || *j->i != '"') { j->bad = 1; return; }
                vj_str(j); vj_ws(j);
                if (j->bad || j->i >= j->e || *j->i != ':') { j->bad = 1; return; }
                j->i++; vj_c(j, ':');
            }
            vj_val(j);
            if (j->bad || j->i >= j->e) { j->bad = 1; return; }
            if (*j->i == ',') { j->i++; vj_c(j, ','); continue; }
            if (*j->i == cl) { j->i++; vj_c(j, cl); break; }
            j->bad = 1; return;
        }
    }
    else if (c == 't') { if (!vj_lit(j, "true")) j->bad = 1; }
    else if (c == 'f') { if (!vj_lit(j, "false")) j->bad = 1; }
    else if (c == 'n') { if (!vj_lit(j, "null")) j->bad = 1; }
    else vj_num(j);
    vj_ws(j);
}
static char *vj_canon2(const char *s, size_t n, int lenient)
{
    VJ j = { s, s + n }; j.lenient = lenient;
    vj_val(&j);
    if (j.bad || j.i != j.e) { free(j.o); return NULL; }
    vj_c(&j, 0);
    return j.o;
}
static char *vj_canon(const char *s, size_t n) { return vj_canon2(s, n, 0); }
#endif
