/*@unit
@title every sequence of operations on a vector, a stack and a hash map agrees with a plain reference model
@noproof
@end*/
#define VH_NO_G
#define VH_P 3
#define VH_ALPHABET "\x00\x01\x02\x03\x04\x05\x0b\x13"
#define VH_EXLEN 5
#define VH_RNDLEN 300
#define VH_NOISE 2
#include "vh.h"
#include "always.h"
#include "vector.h"
#include "stack.h"
#include "hashmap.h"
static void *V(size_t k) { return (void*)(k * 8 + 16); }
static int frees;
static void cnt(void *p) { frees++; }
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    if (p == 0)
    {
        Vector *v = vector_create(); void **m = malloc(sizeof(void*) * (n * 65 + 1)); size_t k = 0;
        for (size_t i = 0; i < n; i++)
        {
            unsigned char c = in[i];
            unsigned rep = c % 8 == 7 ? 64 : 1;
            if (c % 8 < 5 || c % 8 == 7) for (unsigned q = 0; q < rep; q++) { m[k] = V(i * 64 + q); k++; vector_push_back(v, m[k-1]); }
            else if (k) { k--; VH_ASSERT("the last element is popped", vector_pop_back(v) == m[k]); }
            VH_ASSERT("vector size", v->size == k && v->elements_size >= k);
            if (k) VH_ASSERT("last element", vector_element_at(v, k - 1) == m[k-1]);
        }
        for (size_t i = 0; i < k; i++) VH_ASSERT("each element is where it was pushed", vector_element_at(v, i) == m[i]);
        if (n & 1) { frees = 0; vector_free_and_values(v, cnt); VH_ASSERT("each value is freed once", frees == (int)k); }
        else vector_free(v);
        free(m);
    }
    else if (p == 1)
    {
        Stack *s = stack_create(); void **m = malloc(sizeof(void*) * (2 * n + 2)); size_t lo = 0, hi = 0;
        for (size_t i = 0; i < n; i++)
        {
            unsigned char c = in[i] % 8;
            if (c < 4) { m[hi] = V(i); stack_push(s, m[hi]); hi++; }
            else if (hi > lo && c < 6) { hi--; VH_ASSERT("popped in reverse order", stack_pop(s) == m[hi]); }
            else if (hi > lo) { VH_ASSERT("rocked from the bottom", stack_rock(s) == m[lo]); lo++; }
            VH_ASSERT("stack size", s->size == hi - lo);
            VH_ASSERT("top of the stack", hi > lo ? s->top && s->top->data == m[hi-1] : s->top == NULL);
        }
        if (n & 1) while (hi > lo) { VH_ASSERT("rocked empty", stack_rock(s) == m[lo]); lo++; }
        stack_free(s); free(m);
    }
    else
    {
        HashMap *h = hashmap_create(n % 7 == 0 ? 100 : n % 7);
        char key[256][8]; void *val[256] = {0}; int cntk = 0, seen[256] = {0};
        for (int k = 0; k < 256; k++) sprintf(key[k], k == 0 ? "" : k % 3 ? "k%c%d" : "%ck%d", 'a' + k % 5, k / 7);
        for (int k = 1; k < 256; k++) for (int j = 0; j < k; j++) if (!strcmp(key[j], key[k])) sprintf(key[k], "#%d", k);
        for (size_t i = 0; i < n; i++)
        {
            unsigned char c = in[i];
            if (i & 1) { if (!val[c]) cntk++; val[c] = V(i); hashmap_put(h, key[c], V(i)); }
            VH_ASSERT("the last value put under the key", hashmap_get(h, key[c]) == val[c]);
            VH_ASSERT("size counts the keys", hashmap_size(h) == (size_t)cntk);
        }
        for (int k = 0; k < 256; k++) VH_ASSERT("each key has its value", hashmap_get(h, key[k]) == val[k]);
        HashMapIterator *it = hashmap_iterate(h); const char *kk; void *vv; int total = 0;
        while (hashmap_next_key_value(it, &kk, &vv))
        {
            int k = 0;
            while (k < 256 && strcmp(key[k], kk)) k++;
            VH_ASSERT("an iterated key was put", k < 256 && val[k] == vv);
            VH_ASSERT("no key twice", !seen[k]);
            seen[k] = 1; total++;
        }
        VH_ASSERT("every key is iterated", total == cntk);
        hashmap_free_iterator(it);
        if (n & 2) { frees = 0; hashmap_free_and_values(h, cnt); VH_ASSERT("each value is freed once", frees == cntk); }
        else hashmap_free(h);
    }
}
