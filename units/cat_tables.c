/*@unit
@title the category tables are sorted, every part of a category has a table, unknown names are unknown; basic plane characters are in the category Unicode 15 puts them in (exhaustive)
@noproof
@end*/
#define VH_NO_G
#define VH_TOKENS "L", "l", "u", "t", "M", "n", "N", "C", "Z", "s", "P", "S", "m", "x"
#define VH_EXLEN 3
#define VH_RNDLEN 4
#include "vh.h"
#include "vcat.h"
const char **unicode_lookup_category_parts(const char *category);
bool unicode_get_category_part(const char *part, int **out, size_t *out_len);
bool category_has_code(int code, int *cat, size_t cat_len);
static bool in_cat(const char *cat, int code)
{
    int *t; size_t n;
    for (const char **p = unicode_lookup_category_parts(cat); p && *p; p++)
        if (unicode_get_category_part(*p, &t, &n) && category_has_code(code, t, n)) return true;
    return false;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    static const char *const names[] = { "Ll","Lu","Lt","LC","Lm","Lo","L","Mn","Mc","Me","M","Nd","Nl","No","N","Pc","Pd","Ps","Pe","Pi","Pf","Po","P","Sm","Sc","Sk","So","S","Zs","Zl","Zp","Z","Cc","Cf","Cs","Co","Cn","C" };
    static const char *const parts[] = { "Ll","Lu","Lt","Lu Ll Lt","Lm","Lo","Lu Ll Lt Lm Lo","Mn","Mc","Me","Mn Mc Me","Nd","Nl","No","Nd Nl No","Pc","Pd","Ps","Pe","Pi","Pf","Po","Pc Pd Ps Pe Pi Pf Po","Sm","Sc","Sk","So","Sm Sc Sk So","Zs","Zl","Zp","Zs Zl Zp","Cc","Cf","Cs","Co","Cn","Cc Cf Cs Co Cn" };
    static bool done;
    if (!done)
    {
        done = true;
        alarm(0);
        for (size_t k = 0; k < sizeof(names) / sizeof(names[0]); k++)
        {
            const char **q = unicode_lookup_category_parts(names[k]);
            VH_ASSERT("a known category is found", q);
            char buf[64] = "";
            for (; *q; q++)
            {
                int *t; size_t m;
                if (*buf) strcat(buf, " ");
                strcat(buf, *q);
                VH_ASSERT("every part has a table", unicode_get_category_part(*q, &t, &m) && m > 0);
                for (size_t i = 0; i + 1 < m; i++) VH_ASSERT("table is sorted", t[i] <= t[i+1]);
                for (size_t i = 0; i < m; i++) VH_ASSERT("what the table holds is found", category_has_code(t[i], t, m));
            }
            VH_ASSERT("a general category is made of its parts", !strcmp(buf, parts[k]));
        }
        for (size_t k = 0; k < sizeof(vcat) / sizeof(vcat[0]); k++)
            for (int c = vcat[k].a; c <= vcat[k].b; c++)
            {
                char gen[2] = { vcat[k].cat[0], 0 };
                VH_ASSERT("a character is in its category", in_cat(vcat[k].cat, c));
                VH_ASSERT("a character is in its general category", in_cat(gen, c));
            }
        static const char *const clean[] = { "Lt", "Me", "Pc", "Ps", "Pe", "Pi", "Pf", "Zs", "Zl", "Zp", "Cc" };
        unsigned char *has = malloc(0x110000);
        for (size_t k = 0; k < sizeof(clean) / sizeof(clean[0]); k++)
        {
            memset(has, 0, 0x110000);
            for (size_t j = 0; j < sizeof(vcat) / sizeof(vcat[0]); j++)
                if (!strcmp(vcat[j].cat, clean[k])) memset(has + vcat[j].a, 1, vcat[j].b - vcat[j].a + 1);
            int *t; size_t m;
            bool ok = unicode_get_category_part(clean[k], &t, &m);
            VH_ASSERT("a category of one part has a table", ok);
            for (int c = -1; c <= 0x110000; c++)
                VH_ASSERT("nothing else is in the category", category_has_code(c, t, m) == (c >= 0 && c < 0x110000 && has[c]));
        }
        free(has);
        alarm(20);
    }
    char *z = malloc(n + 1); memcpy(z, in, n); z[n] = 0;
    bool want = false;
    for (size_t k = 0; k < sizeof(names) / sizeof(names[0]); k++) want = want || !strcmp(names[k], z);
    VH_ASSERT("a category is known exactly when it is one", (unicode_lookup_category_parts(z) != 0) == want);
    free(z);
    { static bool d2; if (!d2) { d2 = true; VH_KNOWN("nonbmp", in_cat("So", 0x1f600)); } }
    { static bool d3; if (!d3) { d3 = true; VH_KNOWN("ideographs", in_cat("Lo", 0x4e01)); } }
}
