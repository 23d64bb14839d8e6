// Copy-on-write memory: address = object id << 32 | offset.
#pragma once
#include "expr.h"
#include <cstdlib>

struct Page {
    u32 refs, size;
    Expr*** lines; // symbolic bytes, by 64-byte line; null when the page is concrete
    u8 data[];
    static Page* make(u32 size) {
        Page* p = (Page*)malloc(sizeof(Page) + size);
        p->refs = 1; p->size = size; p->lines = nullptr;
        return p;
    }
    u32 nlines() const { return (size + 63) / 64; }
    Page* clone() const {
        Page* p = make(size);
        memcpy(p->data, data, size);
        if (lines) {
            p->lines = (Expr***)calloc(nlines(), sizeof(Expr**));
            for (u32 i = 0; i < nlines(); ++i)
                if (lines[i]) {
                    p->lines[i] = (Expr**)malloc(64 * sizeof(Expr*));
                    memcpy(p->lines[i], lines[i], 64 * sizeof(Expr*));
                }
        }
        return p;
    }
    void release() {
        if (--refs) return;
        if (lines) {
            for (u32 i = 0; i < nlines(); ++i) free(lines[i]);
            free(lines);
        }
        free(this);
    }
    Expr* sym(u32 off) const {
        if (!lines) return nullptr;
        Expr** l = lines[off >> 6];
        return l ? l[off & 63] : nullptr;
    }
    void set_sym(u32 off, Expr* e) {
        if (!lines) {
            if (!e) return;
            lines = (Expr***)calloc(nlines(), sizeof(Expr**));
        }
        Expr**& l = lines[off >> 6];
        if (!l) {
            if (!e) return;
            l = (Expr**)calloc(64, sizeof(Expr*));
        }
        l[off & 63] = e;
    }
};

enum : u8 { OBJ_HEAP = 1, OBJ_STACK = 2, OBJ_GLOBAL = 4, OBJ_RO = 8, OBJ_NEW = 16, OBJ_NEWARR = 32 };

struct Obj {
    u32 refs, size;
    u8 flags;
    u32 npages;
    Page* pages[];
    static const u32 PS = 4096;
    static Obj* make(u32 size, u8 flags, int fill) {
        u32 np = (size + PS - 1) / PS;
        Obj* o = (Obj*)malloc(sizeof(Obj) + np * sizeof(Page*));
        o->refs = 1; o->size = size; o->flags = flags; o->npages = np;
        for (u32 i = 0; i < np; ++i) {
            o->pages[i] = Page::make(std::min(PS, size - i * PS));
            memset(o->pages[i]->data, fill, o->pages[i]->size);
        }
        return o;
    }
    Obj* clone() const {
        Obj* o = (Obj*)malloc(sizeof(Obj) + npages * sizeof(Page*));
        memcpy((void*)o, this, sizeof(Obj) + npages * sizeof(Page*));
        o->refs = 1;
        for (u32 i = 0; i < npages; ++i) o->pages[i]->refs++;
        return o;
    }
    void release() {
        if (--refs) return;
        for (u32 i = 0; i < npages; ++i) pages[i]->release();
        free(this);
    }
    Page* wpage(u32 i) {
        if (pages[i]->refs > 1) {
            Page* c = pages[i]->clone();
            pages[i]->refs--;
            pages[i] = c;
        }
        return pages[i];
    }
};

// persistent map: object id -> Obj*
struct Node {
    static const int BITS = 6, FAN = 1 << BITS, LEVELS = 5;
    u32 refs, n;
    void* ch[FAN];
    static Node* make() {
        Node* x = (Node*)calloc(1, sizeof(Node));
        x->refs = 1;
        return x;
    }
    static void release(Node* x, int level) {
        if (!x || --x->refs) return;
        for (int i = 0; i < FAN; ++i)
            if (x->ch[i]) {
                if (level == 0) ((Obj*)x->ch[i])->release();
                else release((Node*)x->ch[i], level - 1);
            }
        free(x);
    }
    static Node* own(Node* x, int level) {
        if (x->refs == 1) return x;
        Node* c = (Node*)malloc(sizeof(Node));
        memcpy((void*)c, x, sizeof(Node));
        c->refs = 1;
        for (int i = 0; i < FAN; ++i)
            if (c->ch[i]) {
                if (level == 0) ((Obj*)c->ch[i])->refs++;
                else ((Node*)c->ch[i])->refs++;
            }
        x->refs--;
        return c;
    }
    static Obj* get(Node* x, u32 id) {
        for (int l = LEVELS - 1; l > 0; --l) {
            if (!x) return nullptr;
            x = (Node*)x->ch[(id >> (l * BITS)) & (FAN - 1)];
        }
        return x ? (Obj*)x->ch[id & (FAN - 1)] : nullptr;
    }
    // returns the slot, with the whole path owned
    static Obj* set(Node*& root, u32 id, Obj* o) {
        root = own(root, LEVELS - 1);
        Node* path[LEVELS];
        Node* x = root;
        for (int l = LEVELS - 1; l > 0; --l) {
            path[l] = x;
            void*& s = x->ch[(id >> (l * BITS)) & (FAN - 1)];
            if (!s) { s = make(); x->n++; }
            else s = own((Node*)s, l - 1);
            x = (Node*)s;
        }
        path[0] = x;
        void*& s = x->ch[id & (FAN - 1)];
        if (s) { ((Obj*)s)->release(); x->n--; }
        s = o;
        if (o) x->n++;
        else
            for (int l = 0; l < LEVELS - 1 && path[l]->n == 0; ++l) {
                free(path[l]);
                path[l + 1]->ch[(id >> ((l + 1) * BITS)) & (FAN - 1)] = nullptr;
                path[l + 1]->n--;
            }
        return o;
    }
    static Obj* writable(Node*& root, u32 id) {
        root = own(root, LEVELS - 1);
        Node* x = root;
        for (int l = LEVELS - 1; l > 0; --l) {
            void*& s = x->ch[(id >> (l * BITS)) & (FAN - 1)];
            if (!s) return nullptr;
            s = own((Node*)s, l - 1);
            x = (Node*)s;
        }
        Obj*& o = (Obj*&)x->ch[id & (FAN - 1)];
        if (!o) return nullptr;
        if (o->refs > 1) {
            Obj* c = o->clone();
            o->refs--;
            o = c;
        }
        return o;
    }
};
