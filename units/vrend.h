/* Independent readers of the three rendered forms: each takes the markup away and decodes the escapes of its target, and
   says no to anything the target would read as other markup than the renderer's own. Result: freshly allocated text or NULL. */
#ifndef VREND_H
#define VREND_H
static char *vr_terminal(const char *s, size_t n)
{
    char *o = malloc(n + 1); size_t k = 0;
    for (size_t i = 0; i < n; i++)
    {
        if (s[i] != 27) { o[k++] = s[i]; continue; }
        if (i + 1 >= n || s[i+1] != '[') { free(o); return NULL; }
        for (i += 2; i < n && ((s[i] >= '0' && s[i] <= '9') || s[i] == ';'); i++);
        if (i >= n || s[i] != 'm') { free(o); return NULL; }
    }
    o[k] = 0;
    return o;
}
static const char *const vr_names[] = { "C", "Q", "E", "NS", "EN", "EK", "EKV", "AK", "AKV", "CP", "NSD", "UW", "XSL" };
static int vr_name(const char *s, size_t n, size_t i, size_t *len)
{
    if (i + 3 > n || memcmp(s + i, "xmq", 3)) return -1;
    size_t l = 3;
    while (i + l < n && s[i+l] >= 'A' && s[i+l] <= 'Z') l++;
    for (int k = 0; k < 13; k++)
        if (strlen(vr_names[k]) == l - 3 && !memcmp(s + i + 3, vr_names[k], l - 3)) { *len = l; return k; }
    return -1;
}
/* body: what lies between the wrapper of the whole document (already taken off) */
static char *vr_html(const char *s, size_t n)
{
    char *o = malloc(n + 1); size_t k = 0; int st[16], d = 0;
    for (size_t i = 0; i < n; i++)
    {
        if (s[i] == '<')
        {
            bool end = i + 1 < n && s[i+1] == '/';
            size_t l, at = i + 1 + end;
            int t = vr_name(s, n, at, &l);
            if (t < 0 || at + l >= n || s[at+l] != '>') goto bad;
            if (end) { if (!d || st[--d] != t) goto bad; }
            else { if (d >= 16) goto bad; st[d++] = t; }
            i = at + l;
        }
        else if (s[i] == '&')
        {
            if (i + 5 <= n && !memcmp(s + i, "&amp;", 5)) { o[k++] = '&'; i += 4; }
            else if (i + 4 <= n && !memcmp(s + i, "&lt;", 4)) { o[k++] = '<'; i += 3; }
            else if (i + 4 <= n && !memcmp(s + i, "&gt;", 4)) { o[k++] = '>'; i += 3; }
            else if (i + 6 <= n && !memcmp(s + i, "&quot;", 6)) { o[k++] = '"'; i += 5; }
            else goto bad;
        }
        else if (s[i] == '>') goto bad;
        else o[k++] = s[i];
    }
    if (d) goto bad;
    o[k] = 0;
    return o;
bad:
    free(o);
    return NULL;
}
static char *vr_tex(const char *s, size_t n)
{
    static const struct { const char *e; const char *c; } es[] = {
        { "\\textbackslash{}", "\\" }, { "\\textasciicircum{}", "^" }, { "\\textasciitilde{}", "~" }, { "\\&", "&" }, { "\\#", "#" }, { "\\$", "$" },
        { "\\%", "%" }, { "\\_", "_" }, { "\\{", "{" }, { "\\}", "}" }, { "{'}", "'" }, { "\\linebreak\n", "\n" }, { "\\xmqI ", " " } };
    char *o = malloc(n + 1); size_t k = 0; int d = 0;
    for (size_t i = 0; i < n; )
    {
        bool hit = false;
        for (size_t q = 0; q < sizeof(es) / sizeof(es[0]) && !hit; q++)
        {
            size_t l = strlen(es[q].e);
            if (i + l <= n && !memcmp(s + i, es[q].e, l)) { o[k++] = *es[q].c; i += l; hit = true; }
        }
        if (hit) continue;
        if (s[i] == '\\')
        {
            size_t l;
            if (vr_name(s, n, i + 1, &l) < 0 || i + 1 + l >= n || s[i+1+l] != '{') goto bad;
            d++; i += l + 2;
        }
        else if (s[i] == '}') { if (!d) goto bad; d--; i++; }
        else if (strchr("{#$%^~_&", s[i])) goto bad;
        else o[k++] = s[i++];
    }
    if (d) goto bad;
    o[k] = 0;
    return o;
bad:
    free(o);
    return NULL;
}
/* the rendered form r (0 terminal, 1 html, 2 tex) of a document or token stream, without wrapper, as plain text */
static char *vr_plain(int r, const char *s, size_t n, bool wrapped, bool dark, const char *id, const char *cls)
{
    if (r == 0) return vr_terminal(s, n);
    if (r == 1)
    {
        if (wrapped)
        {
            char pre[256]; sprintf(pre, "<pre %s%s%sclass=\"xmq %s%s%s\">", id ? "id=\"" : "", id ? id : "", id ? "\" " : "", dark ? "xmq_dark" : "xmq_light", cls ? " " : "", cls ? cls : "");
            size_t l = strlen(pre);
            if (n < l + 6 || memcmp(s, pre, l)) return NULL;
            while (n && s[n-1] == '\n') n--;
            if (n < l + 6 || memcmp(s + n - 6, "</pre>", 6)) return NULL;
            s += l; n -= l + 6;
        }
        return vr_html(s, n);
    }
    if (wrapped)
    {
        const char *pre = "\\texttt{\\flushleft\\noindent "; size_t l = strlen(pre);
        while (n && s[n-1] == '\n') n--;
        if (n < l + 2 || memcmp(s, pre, l) || memcmp(s + n - 2, "\n}", 2)) return NULL;
        s += l; n -= l + 2;
    }
    return vr_tex(s, n);
}
#endif
