/*@unit
@title vector and stack: pushing keeps what was there and adds the value at the end; popping gives it back; sizes count; capacity suffices
@func vector_create
@func vector_push_back
@func vector_pop_back
@func vector_element_at
@func stack_create
@func stack_push
@func stack_pop
@split 5
@unwind 4
@noexec
@end*/
#define VH_P 5
#define VH_NO_G
#define VH_MAXN (((size_t)1)<<36)
#include "vh.h"
#include "vspec.h"
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#include "always.h"
#include "vector.h"
#include "stack.h"
void *nondet_ptr(void);
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    Vector v;
    void *data = nondet_ptr();
    size_t cap = nondet_size_t(), w = nondet_size_t();
    VH_LIM(cap); VH_ASSUME(cap >= 16);
    v.elements_size = cap; v.size = nondet_size_t(); VH_ASSUME(v.size <= cap);
    size_t size = v.size;
    void *old = 0;
    if (p < 3)
    {
        v.elements = malloc(cap * sizeof(void*));
        if (size > 0) { VH_ASSUME(w < size); old = v.elements[w]; }
    }
    if (p == 0)
    {
        vector_push_back(&v, data);
        VH_ASSERT("one element more", v.size == size + 1);
        VH_ASSERT("capacity suffices", v.elements_size >= v.size && v.elements_size >= 16);
        VH_ASSERT("the memory is there", __CPROVER_OBJECT_SIZE(v.elements) == v.elements_size * sizeof(void*) && OFF(v.elements) == 0);
        VH_ASSERT("the value is last", vector_element_at(&v, size) == data);
        if (size > 0) { VH_COVER("something was there"); VH_ASSERT("what was there is kept", vector_element_at(&v, w) == old); }
        if (size == cap) VH_COVER("grown");
    }
    else if (p == 1)
    {
        VH_ASSUME(size > 0);
        void *last = v.elements[size-1];
        VH_ASSERT("the last is popped", vector_pop_back(&v) == last);
        VH_ASSERT("one element less", v.size == size - 1 && v.elements_size == cap);
        if (w < size - 1) { VH_COVER("kept"); VH_ASSERT("the rest is kept", vector_element_at(&v, w) == old); }
    }
    else if (p == 2)
    {
        VH_ASSUME(w < size);
        VH_ASSERT("element at", vector_element_at(&v, w) == old);
        VH_ASSERT("nothing changed", v.size == size && v.elements_size == cap);
        Vector *c = vector_create();
        VH_ASSERT("a new vector is empty", c->size == 0 && c->elements_size >= 16 && __CPROVER_OBJECT_SIZE(c->elements) == c->elements_size * sizeof(void*));
        VH_COVER("created");
    }
    else
    {
        Stack *s = stack_create();
        VH_ASSERT("a new stack is empty", s->size == 0 && !s->top && !s->bottom);
        /* any stack: the node on top (if any) has some node below */
        StackElement *t = NULL, *below = nondet_ptr(), *bottom = nondet_ptr();
        bool some = nondet_bool();
        size = nondet_size_t();
        VH_ASSUME(size < (((size_t)1) << 60) && (size > 0) == some);
        if (some)
        {
            t = malloc(sizeof(StackElement)); t->data = data; t->below = below;
            s->top = t; s->bottom = size == 1 ? t : bottom; s->size = size;
            if (size == 1) t->below = NULL;
        }
        void *d2 = nondet_ptr();
        StackElement *oldbottom = s->bottom;
        if (p == 3)
        {
            stack_push(s, d2);
            VH_ASSERT("one more on the stack", s->size == size + 1 && s->top->data == d2 && s->top != t);
            VH_ASSERT("what was on top is below", s->top->below == t);
            VH_ASSERT("the bottom stays", some ? s->bottom == oldbottom : s->bottom == s->top);
            if (some) { VH_COVER("on top of another"); VH_ASSERT("and is unchanged", t->data == data && (size == 1 || t->below == below)); }
            else VH_COVER("first");
        }
        else
        {
            VH_ASSUME(some);
            StackElement *b = t->below;
            VH_ASSERT("the top is popped", stack_pop(s) == data);
            VH_ASSERT("one less on the stack", s->size == size - 1 && s->top == b);
            if (size > 1) { VH_COVER("something left"); VH_ASSERT("the bottom stays", s->bottom == oldbottom); }
        }
    }
    VH_COVER("done");
}
