/*@unit
@title a failed parse names source, line and column of a place in the input, shows that line and puts the caret under that column; the char at the place fits the error
@noproof
@end*/
#define VH_TOKENS "a", "=", "'", "(", ")", "{", "}", "/", "*", " ", "\n", "&", "\t", "//", "/*", "*/", "'''", "!DOCTYPE", "\xc3\xa5", "]", "&#10;", "&x", "x=y", "a(", "a{", "b=1 ", "a=(", "'x\n y'", "'\xe2\x82\xac\t'", "/*\n\xc3\xa5*/", "///*", "*///", "\"", ",", "[", "1", "true", "\\", "\xc2\xa0"
#define VH_EXLEN 3
#define VH_RNDLEN 24
#define VH_NO_G
#define VH_NOISE 20
#define VH_P 3
#include "vh.h"
#include "vapi.h"
/* line and column (from 1, in code points) -> byte offset, or n + 1 when there is no such place */
static size_t v_offset(const char *in, size_t n, size_t l, size_t c)
{
    size_t o = 0;
    for (; l > 1; l--) { while (o < n && in[o] != '\n') o++; if (o >= n) return n + 1; o++; }
    for (; c > 1; c--)
    {
        if (o >= n || in[o] == '\n') return n + 1;
        o++; while (o < n && (in[o] & 0xc0) == 0x80) o++;
    }
    return o;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    for (size_t i = 0; i < n; i++) VH_ASSUME(in[i] != 0);
    VH_ASSUME(v_utf8_ok(in, n));
    char *big = NULL; size_t pad = 0;
    if (p == 2)     /* behind a long line, and on one */
    {
        pad = 700 + n % 7; big = malloc(pad + n + 1); memset(big, ' ', pad); if (n & 1) big[pad/2] = '\n'; memcpy(big + pad, in, n); in = big; n += pad;
    }
    XMQDoc *d = xmqNewDoc();
    xmqSetDocSourceName(d, "src");
    bool ok = xmqParseBufferWithType(d, in, in + n, NULL, p == 1 ? XMQ_CONTENT_JSON : XMQ_CONTENT_XMQ, 0);
    const char *e = ok ? "" : xmqDocError(d);
    if (!e) e = "";
    while (!strncmp(e, "src:", 4))
    {
        size_t l = 0, c = 0; int k = 0;
        VH_ASSERT("source, line and column come first", sscanf(e, "src:%zu:%zu: %n", &l, &c, &k) == 2 && k > 0 && l >= 1 && c >= 1);
        const char *what = e + k;
        size_t o = v_offset(in, n, l, c);
        VH_ASSERT("the place is one of the input", o <= n);
        const char *named = strstr(what, " character \"\n\"");         /* the character itself is a newline */
        const char *eol = strchr(what, '\n');
        if (eol && named && eol == named + 12) eol = strchr(eol + 1, '\n');
        if (o < n)
        {
            size_t a = o, b = o;
            while (a > 0 && in[a-1] != '\n') a--;
            while (b < n && in[b] != '\n') b++;
            VH_ASSERT("the line of the place is shown", eol && !strncmp(eol + 1, in + a, b - a) && eol[1 + b - a] == '\n');
            const char *m = eol + 2 + (b - a);
            for (size_t i = 1; i < c; i++, m++) VH_ASSERT("blanks in front of the caret", *m == ' ' || *m == '\t');
            VH_ASSERT("the caret is under the column", m[0] == '^' && (m[1] == 0 || m[1] == '\n'));
            char x = in[o];
            if (p != 1) {
            if (!strncmp(what, "error: quote", 12)) VH_ASSERT("it is a quote", x == '\'');
            if (!strncmp(what, "error: entity", 13)) VH_ASSERT("it is an entity", x == '&');
            if (!strncmp(what, "error: comment", 14)) VH_ASSERT("it is a comment", x == '/' || x == '*');
            if (!strncmp(what, "error: body", 11)) VH_ASSERT("it is a brace", x == '{');
            if (!strncmp(what, "error: attributes", 17)) VH_ASSERT("it is a parenthesis", x == '(');
            if (!strncmp(what, "error: unexpected closing", 25)) VH_ASSERT("it is a closing brace", x == '}');
            if (!strncmp(what, "error: expected content", 23)) VH_ASSERT("it is an equals", x == '=');
            if (!strncmp(what, "error: value cannot", 19)) VH_ASSERT("it is an equals or a comment", x == '=' || x == '/');
            if (!strncmp(what, "error: invalid tab", 18)) VH_ASSERT("it is a tab", x == '\t');
            if (!strncmp(what, "error: unexpected character \"", 29))
            {
                size_t w = 1; while (o + w < n && (in[o+w] & 0xc0) == 0x80) w++;
                VH_ASSERT("it is the character named", !strncmp(what + 29, in + o, w) && what[29+w] == '"');
            }
            }
            e = m + 1;
        }
        else
        {
            VH_ASSERT("no line behind the end", !eol || eol[1] == 0 || !strncmp(eol + 1, "src:", 4));
            e = eol ? eol : "";
        }
        if (*e == '\n') e++;
        VH_COVER("error");
    }
    VH_ASSERT("nothing else", *e == 0 || ok || strncmp(e, "src", 3));
    xmqFreeDoc(d);
    free(big);
}
