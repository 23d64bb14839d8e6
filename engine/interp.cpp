// Symbolic interpreter for LLVM IR.
#include "interp.h"
#include <llvm/ADT/APFloat.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace llvm;

// ---------------------------------------------------------------- globals
static const DataLayout* DL;
static Module* M;
static std::vector<Func*> funcs;
static std::unordered_map<const Function*, Func*> func_of;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::map<std::string, u64> gname;
static std::unordered_map<std::string, Builtin> builtins;
static std::vector<Func*> entries;
static std::vector<State*> pending;
static std::vector<State*> done_pool;
static u64 vt_class, vt_si, vt_vmi;
static std::unordered_map<u64, u32> ti_ids;
static u64 errno_addr, errno_id;
static std::vector<u64> ti_list;
static std::map<std::string, u32> array_cache;
static std::set<u32> truncated_;

static u64 opt_max_icount = 400000000ull;
static double opt_time = 300;
static unsigned opt_procs = 8;
static u64 opt_max_paths = ~0ull;
static unsigned opt_enum = 300;
static unsigned opt_samples = 3;
static u64 opt_mem_mb = 3000;
static bool opt_profile = false, opt_trace = false;
static std::string opt_out;

// results
static u64 n_paths, n_forks, n_instrs, n_killed_assume, n_branches, n_loads_ite;
static std::set<std::string> covers;
static std::map<std::string, u64> incomplete;
static std::map<std::string, std::vector<Violation>> violations;
struct Sample { std::string inputs, obs; };
static std::vector<Sample> samples;
static u64 sample_seen;
static u64 rng = 88172645463325252ull;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static std::chrono::steady_clock::time_point t_start;
static double elapsed() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_start).count();
}


[[noreturn]] static void die(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "symx: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    _exit(70);
}

// ---------------------------------------------------------------- current state and object cache
static State* S;
static Facts no_facts;
Facts* facts = &no_facts;
struct CE { u32 id; bool w; Obj* o; };
static CE ocache[256];
static void cache_flush() { memset(ocache, 0, sizeof ocache); }

static inline Obj* lookup(u32 id) {
    CE& c = ocache[id & 255];
    if (c.id == id && c.o) return c.o;
    Obj* o = Node::get(S->root, id);
    if (o) { c.id = id; c.o = o; c.w = false; }
    return o;
}
static inline Obj* lookup_w(u32 id) {
    CE& c = ocache[id & 255];
    if (c.id == id && c.o && c.w) return c.o;
    Obj* o = Node::writable(S->root, id);
    if (o) { c.id = id; c.o = o; c.w = true; }
    return o;
}

static u64 new_obj(u64 size, u8 flags, int fill) {
    if (size > 0xfff00000u) { fprintf(stderr, "symx: huge object %llu\n", (unsigned long long)size); incomplete["object too large"]++; throw Kill{}; }
    u32 id = S->next_id++;
    Obj* o = Obj::make((u32)size, flags, fill);
    Node::set(S->root, id, o);
    CE& c = ocache[id & 255];
    c.id = id; c.o = o; c.w = true;
    return (u64)id << 32;
}
static void del_obj(u32 id) {
    Node::set(S->root, id, nullptr);
    CE& c = ocache[id & 255];
    if (c.id == id) c.o = nullptr, c.id = 0;
}

static std::string fname(Func* f) {
    std::string d = demangle(f->name);
    return d;
}
static std::string short_name(Func* f) {
    std::string d = demangle(f->name);
    size_t p = d.find('(');
    if (p != std::string::npos && p > 0 && d.compare(0, 10, "(anonymous") != 0 && d.find("(anonymous namespace)") == std::string::npos) d.resize(p);
    if (d.size() > 160) d.resize(160);
    return d;
}

static std::string hexbytes(const std::vector<u8>& v) {
    std::string r;
    char b[4];
    for (u8 x : v) { snprintf(b, 4, "%02x", x); r += b; }
    return r;
}
static std::string dump_inputs(const Model& m) {
    std::string r;
    for (u32 a : S->inputs) {
        ArrayInfo& ai = X.arrays[a];
        std::vector<u8> v;
        for (u32 i = 0; i < ai.size; ++i) {
            u32 x = ai.first_var + i;
            v.push_back(x < m.size() ? m[x] : 0);
        }
        r += ai.name + " " + std::to_string(ai.size) + " " + hexbytes(v) + "\n";
    }
    return r;
}

static void violation(const char* kind, const std::string& msg, const Model& m) {
    Violation v;
    v.kind = kind;
    v.msg = msg;
    std::string top;
    for (size_t i = S->fr.size(); i-- > 0 && v.stack.size() < 16;)
        v.stack.push_back(short_name(S->fr[i].f));
    v.inputs = dump_inputs(m);
    X.new_eval();
    for (auto& o : S->obs)
        v.notes.push_back(std::to_string((long long)(o.e ? (u64)X.eval(o.e, m) : o.c)));
    std::string key = v.kind + "|" + msg + "|" + (v.stack.empty() ? "" : v.stack[0]);
    auto& l = violations[key];
    if (l.size() < 4) l.push_back(v);
    if (opt_trace) {
        fprintf(stderr, "VIOL %s: %s\n", kind, msg.c_str());
        for (auto& s : v.stack) fprintf(stderr, "   at %s\n", s.c_str());
    }
}

static void maybe_split(size_t least);
static State* fork_state() {
    State* n = new State(*S);
    if (n->root) n->root->refs++;
    for (CE& c : ocache) c.w = false;
    ++n_forks;
    n->depth++;
    S->depth++;
    return n;
}
static void free_state(State* s) {
    Node::release(s->root, Node::LEVELS - 1);
    delete s;
}

static void add_fact(State* s, Expr* c) { // c holds on this path
    if (c->kind == K::Const) return;
    if (c->kind == K::And && c->width == 1) { add_fact(s, c->a); add_fact(s, c->b); return; }
    s->facts.put(c, 1);
    s->facts.put(X.lnot(c), 0);
    if (c->kind == K::Eq) {
        if (c->a->kind == K::Const) s->facts.put(c->b, (u64)c->a->v);
        else if (c->b->kind == K::Const) s->facts.put(c->a, (u64)c->b->v);
    }
}
static inline void add_cs(State* s, Expr* c) {
    if (c->kind == K::Const) return;
    if (c->kind == K::And && c->width == 1) { add_cs(s, c->a); add_cs(s, c->b); return; }
    s->cs.push_back(c);
    add_fact(s, c);
}
static bool has_cs(State* s, Expr* c) {
    if (const u64* v = s->facts.find(c)) return *v != 0;
    if (c->kind == K::And && c->width == 1) return has_cs(s, c->a) && has_cs(s, c->b);
    return false;
}
static u64 ev(Expr* e) {
    X.new_eval();
    return (u64)X.eval(e, *S->model);
}

// Decide a symbolic condition on the current path; the other side is forked.
static bool decide(Expr* c) {
    c = subst(c);
    if (c->kind == K::Const) return c->v != 0;
    ++n_branches;
    Expr* nc = X.lnot(c);
    if (has_cs(S, c)) return true;
    if (has_cs(S, nc)) return false;
    bool v = ev(c) != 0;
    Expr* mine = v ? c : nc;
    Expr* other = v ? nc : c;
    ModelP out;
    SatRes r = solve(S->cs, other, *S->model, out);
    if (r == SatRes::Unsat) { add_fact(S, mine); return v; }
    if (r == SatRes::Unknown) {
        incomplete["solver timeout at branch in " + (S->fr.empty() ? std::string("?") : short_name(S->fr.back().f))]++;
        add_cs(S, mine);
        return v;
    }
    State* n = fork_state();
    add_cs(n, other);
    n->model = out;
    pending.push_back(n);
    add_cs(S, mine);
    maybe_split(1);
    return v;
}
// may c be false?  reports through `out`
static bool may_be_false(Expr* c, ModelP& out) {
    if (c->kind == K::Const) {
        if (c->v) return false;
        out = S->model;
        return true;
    }
    if (has_cs(S, c)) return false;
    if (!ev(c)) { out = S->model; return true; }
    SatRes r = solve(S->cs, X.lnot(c), *S->model, out);
    if (r == SatRes::Unknown) {
        incomplete["solver timeout at check in " + (S->fr.empty() ? std::string("?") : short_name(S->fr.back().f))]++;
        return false;
    }
    return r == SatRes::Sat;
}
static bool assume(Expr* c) { // false: path infeasible
    if (c->kind == K::Const) return c->v != 0;
    if (has_cs(S, c)) return true;
    if (ev(c)) { add_cs(S, c); return true; }
    ModelP out;
    SatRes r = solve(S->cs, c, *S->model, out);
    if (r == SatRes::Unsat) return false;
    if (r == SatRes::Unknown) { incomplete["solver timeout at assume"]++; return false; }
    add_cs(S, c);
    S->model = out;
    return true;
}
// require c; a violation is reported when it can fail, the path goes on where it holds
static void require(Expr* c, const char* kind, const std::string& msg) {
    ModelP out;
    if (!may_be_false(c, out)) { add_fact(S, c); return; }
    violation(kind, msg, *out);
    if (!assume(c)) throw Kill{};
}
// An operand of a hard operation that provably equals a plain input (or the result of another hard
// operation) on this path is replaced by it: decode(encode(x)) becomes x.
static bool plain(Expr* e) {
    while (e->kind == K::Concat) {
        if (!plain(e->b)) return false;
        e = e->a;
    }
    return e->kind == K::Var || e->kind == K::Const;
}
static Expr* canon(Expr* e) {
    if (e->kind == K::Const || e->width < 16 || hard_op(e) || plain(e)) return e;
    std::vector<Expr*> cand;
    if (__builtin_popcountll(e->mask) == 1)
        for (size_t i = 0; i < X.arrays.size(); ++i) {
            ArrayInfo& ai = X.arrays[i];
            if (!(e->mask >> (i % 64) & 1) || ai.size * 8 != e->width) continue;
            Expr* r = X.var(ai.first_var);
            for (u32 k = 1; k < ai.size; ++k) r = X.concat(X.var(ai.first_var + k), r);
            cand.push_back(r);
        }
    if (e->hard) {
        std::vector<Expr*> st{e};
        std::unordered_set<Expr*> seen;
        while (!st.empty() && seen.size() < 300 && cand.size() < 6) {
            Expr* t = st.back();
            st.pop_back();
            if (!t || !t->hard || !seen.insert(t).second) continue;
            if (t->width == e->width && hard_op(t)) { cand.push_back(t); continue; }
            st.push_back(t->a);
            st.push_back(t->b);
            st.push_back(t->c);
        }
    }
    for (Expr* c : cand) {
        Expr* eq = X.cmp(K::Eq, c, e);
        if (has_cs(S, eq)) return c;
        if (!ev(eq)) continue;
        ModelP out;
        if (solve(S->cs, X.lnot(eq), *S->model, out) == SatRes::Unsat) {
            add_fact(S, eq);
            return c;
        }
    }
    return e;
}
static u64 concretize(const Val& v, unsigned w) {
    if (!v.e) return v.c;
    {
        Expr* e = subst(v.e);
        if (e->kind == K::Const) return (u64)e->v;
    }
    // already pinned on this path?
    u64 x = ev(v.e);
    Expr* eq = X.cmp(K::Eq, X.cst(x, w), v.e);
    if (eq->kind == K::Const || has_cs(S, eq)) return x;
    Expr* ne = X.lnot(eq);
    ModelP out;
    SatRes r = solve(S->cs, ne, *S->model, out);
    if (r == SatRes::Unknown) incomplete["solver timeout at concretize in " + short_name(S->fr.back().f)]++;
    if (r == SatRes::Sat) {
        if (S->enum_depth >= opt_enum) {
            std::string w;
            for (size_t i = S->fr.size(); i-- > 0 && i + 4 > S->fr.size();) w += " < " + short_name(S->fr[i].f);
            incomplete["too many values at" + w]++;
        } else {
            State* n = fork_state();
            add_cs(n, ne);
            n->model = out;
            n->enum_depth = S->enum_depth + 1;
            pending.push_back(n);
        }
    }
    if (r == SatRes::Unsat) add_fact(S, eq);
    else add_cs(S, eq);
    S->enum_depth = 0;
    maybe_split(1);
    return x;
}

// ---------------------------------------------------------------- memory access
[[noreturn]] static void mem_violation(u64 addr, u64 n, bool write, const Model& m) {
    char b[160];
    u32 id = addr >> 32;
    Obj* o = lookup(id);
    const char* what = addr < 4096 ? "null pointer access" : id < 16 ? "access through non-object pointer" : !o ? "use of freed or invalid memory"
        : (o->flags & OBJ_RO) && write && (u32)addr + n <= o->size ? "write to read-only memory" : "out-of-bounds access";
    snprintf(b, sizeof b, "%s (%s of %llu bytes%s)", what, write ? "write" : "read", (unsigned long long)n, "");
    if (getenv("SYMX_DEBUG")) fprintf(stderr, "mem violation addr %llx size %u flags %d\n", (unsigned long long)addr, o ? o->size : 0, o ? o->flags : 0);
    violation("memory", b, m);
    throw Kill{};
}

static inline u64 rd_le(const u8* p, u32 n) {
    switch (n) {
    case 1: return *p;
    case 2: { u16 v; memcpy(&v, p, 2); return v; }
    case 4: { u32 v; memcpy(&v, p, 4); return v; }
    case 8: { u64 v; memcpy(&v, p, 8); return v; }
    default: { u64 v = 0; memcpy(&v, p, n); return v; }
    }
}
static Expr* byte_expr(Obj* o, u32 off) {
    Page* p = o->pages[off >> 12];
    Expr* e = p->sym(off & 4095);
    return e ? e : X.cst(p->data[off & 4095], 8);
}
static bool range_sym(Obj* o, u32 off, u32 n) {
    for (u32 i = 0; i < n; ++i) {
        Page* p = o->pages[(off + i) >> 12];
        if (p->sym((off + i) & 4095)) return true;
    }
    return false;
}
// bounds are already checked; n bytes -> value of n*8 bits
static Val load_at(Obj* o, u32 off, u32 n) {
    Page* p = o->pages[off >> 12];
    u32 po = off & 4095;
    if (n <= 8 && po + n <= p->size) {
        if (!p->lines) return cv(rd_le(p->data + po, n));
        Expr** l0 = p->lines[po >> 6];
        Expr** l1 = p->lines[(po + n - 1) >> 6];
        if (!l0 && !l1) return cv(rd_le(p->data + po, n));
    }
    if (n <= 8 && !range_sym(o, off, n)) {
        u64 v = 0;
        for (u32 i = 0; i < n; ++i) v |= (u64)o->pages[(off + i) >> 12]->data[(off + i) & 4095] << (8 * i);
        return cv(v);
    }
    Expr* e = byte_expr(o, off);
    for (u32 i = 1; i < n; ++i) e = X.concat(byte_expr(o, off + i), e);
    return mkval(e);
}
static void store_at(Obj* o, u32 off, u32 n, const Val& v, unsigned w) {
    if (!v.e) {
        Page* p = o->pages[off >> 12];
        u32 po = off & 4095;
        if (po + n <= p->size) {
            if (p->refs > 1) p = o->wpage(off >> 12);
            switch (n) {
            case 1: p->data[po] = (u8)v.c; break;
            case 2: { u16 x = (u16)v.c; memcpy(p->data + po, &x, 2); break; }
            case 4: { u32 x = (u32)v.c; memcpy(p->data + po, &x, 4); break; }
            case 8: memcpy(p->data + po, &v.c, 8); break;
            default: memcpy(p->data + po, &v.c, n); break;
            }
            if (p->lines)
                for (u32 i = 0; i < n; ++i) {
                    Expr** l = p->lines[(po + i) >> 6];
                    if (l) l[(po + i) & 63] = nullptr;
                }
        } else {
            for (u32 i = 0; i < n; ++i) {
                Page* q = o->wpage((off + i) >> 12);
                q->data[(off + i) & 4095] = (u8)(v.c >> (8 * i));
                q->set_sym((off + i) & 4095, nullptr);
            }
        }
        return;
    }
    Expr* e = v.e;
    if (e->width < n * 8) e = X.zext(e, n * 8);
    for (u32 i = 0; i < n; ++i) {
        Page* q = o->wpage((off + i) >> 12);
        Expr* b = X.extract(e, i * 8, 8);
        if (b->kind == K::Const) {
            q->data[(off + i) & 4095] = (u8)b->v;
            q->set_sym((off + i) & 4095, nullptr);
        } else
            q->set_sym((off + i) & 4095, b);
    }
}

static const unsigned ITE_LIMIT = 80;

static Val load_sym(Expr* addr, u32 n, unsigned w, bool isptr) {
    u64 a0 = ev(addr);
    u32 id = a0 >> 32;
    Obj* o = lookup(id);
    if (!o || id < 16) mem_violation(a0, n, false, *S->model);
    u64 base = (u64)id << 32;
    if (o->size < n) mem_violation(a0, n, false, *S->model);
    Expr* in = X.cmp(K::Ule, X.bin(K::Sub, addr, X.cst(base, 64)), X.cst(o->size - n, 64));
    if (!decide(in)) mem_violation(a0, n, false, *S->model);
    o = lookup(id);
    // enumerate feasible addresses
    std::vector<u64> vals{a0};
    std::vector<Expr*> extra = S->cs;
    extra.push_back(X.lnot(X.cmp(K::Eq, X.cst(a0, 64), addr)));
    if (extra.back()->kind == K::Const) return load_at(o, (u32)a0, n);
    bool full = false;
    ModelP cur = S->model;
    Expr* q = extra.back();
    extra.pop_back();
    while (vals.size() < ITE_LIMIT) {
        ModelP out;
        SatRes r = solve(extra, q, *S->model, out);
        if (r == SatRes::Unsat) { full = true; break; }
        if (r == SatRes::Unknown) break;
        extra.push_back(q);
        X.new_eval();
        u64 v = (u64)X.eval(addr, *out);
        vals.push_back(v);
        q = X.lnot(X.cmp(K::Eq, X.cst(v, 64), addr));
    }
    bool allsym_same = true;
    if (!full || (isptr && vals.size() > 1)) {
        if (!full && o->size <= 4096 && !isptr) {
            // every offset of a small object
            std::sort(vals.begin(), vals.end());
            Expr* r = nullptr;
            for (u32 off = 0; off + n <= o->size; ++off) {
                Val v = load_at(o, off, n);
                Expr* e = ex(v, n * 8);
                r = r ? X.ite(X.cmp(K::Eq, X.cst(base + off, 64), addr), e, r) : e;
            }
            ++n_loads_ite;
            return mkval(r);
        }
        u64 a = concretize(Val{0, addr}, 64);
        return load_at(lookup(a >> 32), (u32)a, n);
    }
    (void)allsym_same;
    std::sort(vals.begin(), vals.end());
    Expr* r = nullptr;
    for (u64 v : vals) {
        Expr* e = ex(load_at(o, (u32)v, n), n * 8);
        r = r ? X.ite(X.cmp(K::Eq, X.cst(v, 64), addr), e, r) : e;
    }
    ++n_loads_ite;
    return mkval(r);
}

static inline Val load(const Val& addr, u32 n, unsigned w, bool isptr) {
    if (__builtin_expect(addr.e != nullptr, 0)) {
        Val r = load_sym(addr.e, n, w, isptr);
        return r;
    }
    u32 id = addr.c >> 32, off = (u32)addr.c;
    Obj* o = lookup(id);
    if (__builtin_expect(!o || (u64)off + n > o->size, 0)) mem_violation(addr.c, n, false, *S->model);
    return load_at(o, off, n);
}
static inline void store(const Val& addr, u32 n, const Val& v, unsigned w) {
    u64 a = addr.c;
    if (__builtin_expect(addr.e != nullptr, 0)) {
        u64 a0 = ev(addr.e);
        u32 id = a0 >> 32;
        Obj* o = lookup(id);
        if (!o || id < 16 || o->size < n) mem_violation(a0, n, true, *S->model);
        Expr* in = X.cmp(K::Ule, X.bin(K::Sub, addr.e, X.cst((u64)id << 32, 64)), X.cst(o->size - n, 64));
        if (!decide(in)) mem_violation(a0, n, true, *S->model);
        a = concretize(addr, 64);
    }
    u32 id = a >> 32, off = (u32)a;
    Obj* o = lookup_w(id);
    if (__builtin_expect(!o || (u64)off + n > o->size || (o->flags & OBJ_RO), 0)) mem_violation(a, n, true, *S->model);
    store_at(o, off, n, v, w);
}
static Obj* chk(u64 a, u64 n, bool write) {
    Obj* o = write ? lookup_w(a >> 32) : lookup(a >> 32);
    if (!o || (u64)(u32)a + n > o->size || (write && (o->flags & OBJ_RO))) mem_violation(a, n, write, *S->model);
    return o;
}
static void copy_mem(u64 d, u64 s, u64 n) {
    if (!n) return;
    Obj* so = chk(s, n, false);
    Obj* dobj = chk(d, n, true);
    so = lookup(s >> 32); // may have been replaced when d and s share the object
    u32 sof = (u32)s, dof = (u32)d;
    bool sym = false;
    for (u32 pg = sof >> 12; pg <= (sof + n - 1) >> 12; ++pg) sym |= so->pages[pg]->lines != nullptr;
    std::vector<u8> tmp(n);
    std::vector<Expr*> se;
    if (sym) se.resize(n);
    for (u64 i = 0; i < n;) {
        Page* p = so->pages[(sof + i) >> 12];
        u32 po = (sof + i) & 4095;
        u64 c = std::min<u64>(n - i, p->size - po);
        memcpy(&tmp[i], p->data + po, c);
        if (p->lines)
            for (u64 k = 0; k < c; ++k) se[i + k] = p->sym(po + k);
        i += c;
    }
    for (u64 i = 0; i < n;) {
        Page* p = dobj->wpage((dof + i) >> 12);
        u32 po = (dof + i) & 4095;
        u64 c = std::min<u64>(n - i, p->size - po);
        memcpy(p->data + po, &tmp[i], c);
        if (sym || p->lines)
            for (u64 k = 0; k < c; ++k) p->set_sym(po + k, sym ? se[i + k] : nullptr);
        i += c;
    }
}
static void set_mem(u64 d, const Val& v, u64 n) {
    if (!n) return;
    Obj* o = chk(d, n, true);
    u32 off = (u32)d;
    Expr* e = v.e ? X.extract(v.e, 0, 8) : nullptr;
    for (u64 i = 0; i < n;) {
        Page* p = o->wpage((off + i) >> 12);
        u32 po = (off + i) & 4095;
        u64 c = std::min<u64>(n - i, p->size - po);
        memset(p->data + po, (int)v.c, c);
        if (e || p->lines)
            for (u64 k = 0; k < c; ++k) p->set_sym(po + k, e);
        i += c;
    }
}
static std::string read_cstr(u64 a) {
    std::string r;
    for (;;) {
        Obj* o = lookup(a >> 32);
        if (!o || (u32)a >= o->size) return r;
        Expr* e = byte_expr(o, (u32)a);
        u8 b = e->kind == K::Const ? (u8)e->v : (u8)ev(e);
        if (!b) return r;
        r += (char)b;
        ++a;
        if (r.size() > 4000) return r;
    }
}
static u64 rd64(u64 a) { return load(cv(a), 8, 64, false).c; }

// ---------------------------------------------------------------- decoding
static u32 nslots(Type* t) {
    if (auto* s = dyn_cast<StructType>(t)) {
        u32 n = 0;
        for (Type* e : s->elements()) n += nslots(e);
        return n;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslots(a->getElementType());
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
    if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy()) return 0;
    return 1;
}
static unsigned swidth(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (auto* v = dyn_cast<VectorType>(t)) return swidth(v->getElementType());
    return 0;
}
struct Leaf { u64 off; unsigned w; u32 bytes; bool ptr; };
static void leaves(Type* t, u64 off, std::vector<Leaf>& out) {
    if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i)
            leaves(s->getElementType(i), off + sl->getElementOffset(i), out);
        return;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) {
        for (u64 i = 0; i < a->getNumElements(); ++i)
            leaves(a->getElementType(), off + i * DL->getTypeAllocSize(a->getElementType()), out);
        return;
    }
    if (auto* v = dyn_cast<FixedVectorType>(t)) {
        u64 eb = DL->getTypeStoreSize(v->getElementType());
        for (u64 i = 0; i < v->getNumElements(); ++i) leaves(v->getElementType(), off + i * eb, out);
        return;
    }
    out.push_back({off, swidth(t), (u32)DL->getTypeStoreSize(t), t->isPointerTy()});
}

static Func* get_func(const Function* F) {
    auto it = func_of.find(F);
    if (it != func_of.end()) return it->second;
    Func* f = new Func;
    f->F = const_cast<Function*>(F);
    f->name = F->getName().str();
    f->idx = funcs.size();
    funcs.push_back(f);
    func_of[F] = f;
    auto b = builtins.find(f->name);
    if (b != builtins.end()) f->bi = b->second;
    f->conc = f->name.find("2vm4Heap8allocateE") != std::string::npos;
    return f;
}
static u64 func_addr(Func* f) { return (1ull << 32) + (u64)f->idx * 16; }

static u64 const_u64(const Constant* c);
static void const_slots(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        u32 n = nslots(t);
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
            std::vector<Leaf> l;
            leaves(t, 0, l);
            for (u32 i = 0; i < n; ++i) out.push_back(l[i].w > 64 ? Val{0, X.cst(0, l[i].w)} : cv(0));
            return;
        }
        if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
            for (unsigned i = 0; i < d->getNumElements(); ++i) const_slots(d->getElementAsConstant(i), out);
            return;
        }
        for (unsigned i = 0; i < c->getNumOperands(); ++i) const_slots(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    unsigned w = swidth(t);
    if (w > 64) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            const u64* raw = ci->getValue().getRawData();
            u128 v = raw[0];
            if (ci->getValue().getNumWords() > 1) v |= (u128)raw[1] << 64;
            out.push_back(Val{0, X.cst(v, w)});
        } else if (auto* cf = dyn_cast<ConstantFP>(c)) {
            APInt a = cf->getValueAPF().bitcastToAPInt();
            const u64* raw = a.getRawData();
            u128 v = raw[0];
            if (a.getNumWords() > 1) v |= (u128)raw[1] << 64;
            out.push_back(Val{0, X.cst(v, w)});
        } else
            out.push_back(Val{0, X.cst(0, w)});
        return;
    }
    out.push_back(cv(const_u64(c)));
}
static u64 gv_addr(const GlobalValue* g) {
    if (auto* f = dyn_cast<Function>(g)) return func_addr(get_func(f));
    if (auto* a = dyn_cast<GlobalAlias>(g)) return const_u64(a->getAliasee());
    auto it = gaddr.find(g);
    if (it == gaddr.end()) die("no address for global %s", g->getName().str().c_str());
    return it->second;
}
static u64 const_u64(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getZExtValue();
    if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantTokenNone>(c)) return 0;
    if (auto* g = dyn_cast<GlobalValue>(c)) return gv_addr(g);
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        unsigned w = swidth(e->getType());
        auto op = [&](unsigned i) { return const_u64(cast<Constant>(e->getOperand(i))); };
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) die("constant gep");
            return op(0) + (u64)off.getSExtValue();
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt:
        case Instruction::AddrSpaceCast: case Instruction::Trunc:
            return op(0) & wmask64(w);
        case Instruction::ZExt: return op(0);
        case Instruction::Add: return (op(0) + op(1)) & wmask64(w);
        case Instruction::Sub: return (op(0) - op(1)) & wmask64(w);
        case Instruction::Mul: return (op(0) * op(1)) & wmask64(w);
        case Instruction::Xor: return op(0) ^ op(1);
        case Instruction::And: return op(0) & op(1);
        case Instruction::Or: return op(0) | op(1);
        case Instruction::Shl: return (op(0) << op(1)) & wmask64(w);
        case Instruction::LShr: return op(0) >> op(1);
        case Instruction::ICmp: {
            u64 a = op(0), b = op(1);
            switch ((CmpInst::Predicate)e->getPredicate()) {
            case CmpInst::ICMP_EQ: return a == b;
            case CmpInst::ICMP_NE: return a != b;
            case CmpInst::ICMP_ULT: return a < b;
            case CmpInst::ICMP_UGT: return a > b;
            default: die("constant icmp");
            }
        }
        case Instruction::Select: return op(0) ? op(1) : op(2);
        default: break;
        }
    }
    if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) return gv_addr(d->getGlobalValue());
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    die("unsupported constant %s", s.c_str());
}

struct Decoder {
    Func* f;
    std::unordered_map<const Value*, i32> reg;
    std::unordered_map<const Value*, i32> kidx;
    std::unordered_map<const BasicBlock*, u32> bbpc;
    u32 next = 0;

    i32 alloc(u32 n) { i32 r = next; next += n; return r; }
    i32 kval(Val v) {
        f->K.push_back(v);
        return ~(i32)(f->K.size() - 1);
    }
    // slot k of value v
    i32 opnd(const Value* v, u32 k = 0) {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = kidx.find(v);
            if (it == kidx.end()) {
                std::vector<Val> o;
                const_slots(c, o);
                i32 base = f->K.size();
                for (auto& x : o) f->K.push_back(x);
                it = kidx.emplace(v, base).first;
            }
            return ~(i32)(it->second + k);
        }
        if (isa<MetadataAsValue>(v)) return kval(cv(0));
        auto it = reg.find(v);
        if (it == reg.end()) die("operand without register in %s", f->name.c_str());
        return it->second + (i32)k;
    }
    Inst& emit(u16 op, unsigned w = 0, i32 dst = 0, i32 a = 0, i32 b = 0, i32 c = 0) {
        Inst I;
        I.op = op; I.w = (u8)w; I.w2 = 0; I.dst = dst; I.a = a; I.b = b; I.c = c; I.imm = 0; I.p = nullptr;
        f->code.push_back(I);
        return f->code.back();
    }
    Edge edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e;
        e.to = to;
        for (const PHINode& p : to->phis()) {
            const Value* v = p.getIncomingValueForBlock(from);
            if (isa<UndefValue>(v)) continue;
            u32 n = nslots(p.getType());
            for (u32 k = 0; k < n; ++k) e.moves.push_back({opnd(&p, k), opnd(v, k)});
        }
        return e;
    }
    void unsupported(const Instruction& I) {
        std::string s;
        raw_string_ostream os(s);
        I.print(os);
        emit(O_UNSUPPORTED).p = new std::string(s);
    }
    void run();
    void inst(const Instruction& I);
    void call(const CallBase& cb);
};

static void fix_edge(Edge& e, Decoder& d) {
    if (e.to) e.pc = d.bbpc[e.to];
}

void Decoder::run() {
    Function* F = f->F;
    for (Argument& a : F->args()) {
        reg[&a] = alloc(nslots(a.getType()));
    }
    f->nargs = next;
    for (BasicBlock& b : *F)
        for (Instruction& I : b) {
            u32 n = nslots(I.getType());
            if (n) reg[&I] = alloc(n);
        }
    for (BasicBlock& b : *F) {
        bbpc[&b] = f->code.size();
        for (Instruction& I : b) inst(I);
    }
    for (Inst& I : f->code) {
        switch (I.op) {
        case O_BR: fix_edge(*(Edge*)I.p, *this); break;
        case O_CONDBR: fix_edge(((BrInfo*)I.p)->t, *this); fix_edge(((BrInfo*)I.p)->f, *this); break;
        case O_SWITCH: for (Edge& e : ((SwitchInfo*)I.p)->edges) fix_edge(e, *this); break;
        case O_CALL: fix_edge(((CallInfo*)I.p)->normal, *this); fix_edge(((CallInfo*)I.p)->unwind, *this); break;
        default: break;
        }
    }
    f->nregs = next;
    f->decoded = true;
}

static Builtin intrinsic_handler(const CallBase& cb, const Function* F, bool& nop);

void Decoder::call(const CallBase& cb) {
    const Function* F = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
    if (cb.isInlineAsm()) {
        if (auto* ia = dyn_cast<InlineAsm>(cb.getCalledOperand()))
            if (ia->getAsmString().empty()) {
                if (cb.getType()->isVoidTy()) return;
            }
        unsupported(cb);
        return;
    }
    CallInfo* ci = new CallInfo;
    ci->cb = &cb;
    bool nop = false;
    if (F && F->isIntrinsic()) {
        ci->intrinsic = intrinsic_handler(cb, F, nop);
        if (nop && !isa<InvokeInst>(cb)) {
            delete ci;
            return;
        }
        if (!ci->intrinsic && !nop) {
            delete ci;
            unsupported(cb);
            return;
        }
    }
    if (F) ci->f = get_func(F);
    else ci->fop = opnd(cb.getCalledOperand());
    for (unsigned i = 0; i < cb.arg_size(); ++i) {
        Value* v = cb.getArgOperand(i);
        if (v->getType()->isMetadataTy()) continue;
        if (cb.isByValArgument(i))
            ci->byval.push_back({(u32)ci->args.size(), (u32)DL->getTypeAllocSize(cb.getParamByValType(i))});
        u32 n = nslots(v->getType());
        for (u32 k = 0; k < n; ++k) { ci->args.push_back(opnd(v, k)); ci->argw.push_back(swidth(v->getType())); }
    }
    ci->nret = nslots(cb.getType());
    ci->retw = swidth(cb.getType());
    Inst& I = emit(O_CALL);
    I.p = ci;
    I.dst = ci->nret ? opnd(&cb) : 0;
    if (auto* iv = dyn_cast<InvokeInst>(&cb)) {
        ci->invoke = true;
        ci->normal = edge(cb.getParent(), iv->getNormalDest());
        ci->unwind = edge(cb.getParent(), iv->getUnwindDest());
        const LandingPadInst* lp = iv->getUnwindDest()->getLandingPadInst();
        LPad* l = new LPad;
        l->cleanup = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            Clause c;
            c.filter = lp->isFilter(i);
            c.ti = 0;
            if (c.filter) {
                Constant* arr = lp->getClause(i);
                for (unsigned k = 0; k < arr->getNumOperands(); ++k)
                    c.tis.push_back(const_u64(cast<Constant>(arr->getOperand(k))));
            } else
                c.ti = const_u64(lp->getClause(i));
            l->cl.push_back(c);
        }
        ci->lp = l;
    }
}

void Decoder::inst(const Instruction& I) {
    Type* t = I.getType();
    unsigned w = swidth(t);
    u32 n = nslots(t);
    auto binop = [&](u16 op) {
        for (u32 k = 0; k < n; ++k) emit(op, w, opnd(&I, k), opnd(I.getOperand(0), k), opnd(I.getOperand(1), k));
    };
    auto cast1 = [&](u16 op) {
        for (u32 k = 0; k < n; ++k) {
            Inst& x = emit(op, w, opnd(&I, k), opnd(I.getOperand(0), k));
            x.w2 = swidth(I.getOperand(0)->getType());
        }
    };
    auto mov = [&](const Value* v) {
        for (u32 k = 0; k < n; ++k) emit(O_MOV, w, opnd(&I, k), opnd(v, k));
    };
    switch (I.getOpcode()) {
    case Instruction::PHI: return;
    case Instruction::Add: return binop(O_ADD);
    case Instruction::Sub: return binop(O_SUB);
    case Instruction::Mul: return binop(O_MUL);
    case Instruction::UDiv: return binop(O_UDIV);
    case Instruction::SDiv: return binop(O_SDIV);
    case Instruction::URem: return binop(O_UREM);
    case Instruction::SRem: return binop(O_SREM);
    case Instruction::Shl: return binop(O_SHL);
    case Instruction::LShr: return binop(O_LSHR);
    case Instruction::AShr: return binop(O_ASHR);
    case Instruction::And: return binop(O_AND);
    case Instruction::Or: return binop(O_OR);
    case Instruction::Xor: return binop(O_XOR);
    case Instruction::FAdd: return w == 80 ? unsupported(I) : binop(O_FADD);
    case Instruction::FSub: return w == 80 ? unsupported(I) : binop(O_FSUB);
    case Instruction::FMul: return w == 80 ? unsupported(I) : binop(O_FMUL);
    case Instruction::FDiv: return w == 80 ? unsupported(I) : binop(O_FDIV);
    case Instruction::FRem: return w == 80 ? unsupported(I) : binop(O_FREM);
    case Instruction::FNeg: return w == 80 ? unsupported(I) : cast1(O_FNEG);
    case Instruction::ICmp: {
        static const u16 map[] = {O_EQ, O_NE, O_UGT, O_UGE, O_ULT, O_ULE, O_SGT, O_SGE, O_SLT, O_SLE};
        u16 op = map[cast<ICmpInst>(I).getPredicate() - CmpInst::ICMP_EQ];
        unsigned ow = swidth(I.getOperand(0)->getType());
        for (u32 k = 0; k < n; ++k) emit(op, ow, opnd(&I, k), opnd(I.getOperand(0), k), opnd(I.getOperand(1), k));
        return;
    }
    case Instruction::FCmp: {
        unsigned ow = swidth(I.getOperand(0)->getType());
        if (ow == 80) return unsupported(I);
        for (u32 k = 0; k < n; ++k)
            emit(O_FCMP, ow, opnd(&I, k), opnd(I.getOperand(0), k), opnd(I.getOperand(1), k)).imm = cast<FCmpInst>(I).getPredicate();
        return;
    }
    case Instruction::Select: {
        bool vc = I.getOperand(0)->getType()->isVectorTy();
        // pointers are never merged: a symbolic condition forks
        bool hasptr = t->isPointerTy() || n > 1;
        for (u32 k = 0; k < n; ++k)
            emit(O_SELECT, w, opnd(&I, k), opnd(I.getOperand(0), vc ? k : 0), opnd(I.getOperand(1), k), opnd(I.getOperand(2), k)).imm = hasptr;
        return;
    }
    case Instruction::ZExt: return cast1(O_ZEXT);
    case Instruction::SExt: return cast1(O_SEXT);
    case Instruction::Trunc: return cast1(O_TRUNC);
    case Instruction::FPToSI: return swidth(I.getOperand(0)->getType()) == 80 ? unsupported(I) : cast1(O_FPTOSI);
    case Instruction::FPToUI: return swidth(I.getOperand(0)->getType()) == 80 ? unsupported(I) : cast1(O_FPTOUI);
    case Instruction::SIToFP: return w == 80 ? unsupported(I) : cast1(O_SITOFP);
    case Instruction::UIToFP: return w == 80 ? unsupported(I) : cast1(O_UITOFP);
    case Instruction::FPExt: return w == 80 ? unsupported(I) : cast1(O_FPEXT);
    case Instruction::FPTrunc: return swidth(I.getOperand(0)->getType()) == 80 ? unsupported(I) : cast1(O_FPTRUNC);
    case Instruction::IntToPtr:
    case Instruction::PtrToInt: {
        unsigned sw = swidth(I.getOperand(0)->getType());
        if (sw == w) return mov(I.getOperand(0));
        return cast1(sw < w ? O_ZEXT : O_TRUNC);
    }
    case Instruction::Freeze:
    case Instruction::AddrSpaceCast: return mov(I.getOperand(0));
    case Instruction::BitCast: {
        u32 sn = nslots(I.getOperand(0)->getType());
        if (sn == n) return mov(I.getOperand(0));
        Inst& x = emit(O_BITCASTV, w, opnd(&I), opnd(I.getOperand(0)), (i32)n, (i32)sn);
        x.w2 = swidth(I.getOperand(0)->getType());
        return;
    }
    case Instruction::ExtractElement: {
        if (auto* c = dyn_cast<ConstantInt>(I.getOperand(1)))
            emit(O_MOV, w, opnd(&I), opnd(I.getOperand(0), c->getZExtValue()));
        else
            emit(O_EXTRACTDYN, w, opnd(&I), opnd(I.getOperand(0)), opnd(I.getOperand(1)));
        return;
    }
    case Instruction::InsertElement: {
        auto* c = dyn_cast<ConstantInt>(I.getOperand(2));
        if (!c) return unsupported(I);
        for (u32 k = 0; k < n; ++k)
            emit(O_MOV, w, opnd(&I, k), k == c->getZExtValue() ? opnd(I.getOperand(1)) : opnd(I.getOperand(0), k));
        return;
    }
    case Instruction::ShuffleVector: {
        auto& sv = cast<ShuffleVectorInst>(I);
        u32 sn = nslots(I.getOperand(0)->getType());
        for (u32 k = 0; k < n; ++k) {
            int m = sv.getMaskValue(k);
            if (m < 0) emit(O_MOV, w, opnd(&I, k), kval(cv(0)));
            else emit(O_MOV, w, opnd(&I, k), (u32)m < sn ? opnd(I.getOperand(0), m) : opnd(I.getOperand(1), m - sn));
        }
        return;
    }
    case Instruction::ExtractValue: {
        auto& ev = cast<ExtractValueInst>(I);
        Type* a = ev.getAggregateOperand()->getType();
        u32 s = 0;
        for (unsigned ix : ev.indices()) {
            if (auto* st = dyn_cast<StructType>(a)) {
                for (unsigned i = 0; i < ix; ++i) s += nslots(st->getElementType(i));
                a = st->getElementType(ix);
            } else {
                a = a->getArrayElementType();
                s += ix * nslots(a);
            }
        }
        for (u32 k = 0; k < n; ++k) emit(O_MOV, 0, opnd(&I, k), opnd(ev.getAggregateOperand(), s + k));
        return;
    }
    case Instruction::InsertValue: {
        auto& iv = cast<InsertValueInst>(I);
        Type* a = t;
        u32 s = 0;
        for (unsigned ix : iv.indices()) {
            if (auto* st = dyn_cast<StructType>(a)) {
                for (unsigned i = 0; i < ix; ++i) s += nslots(st->getElementType(i));
                a = st->getElementType(ix);
            } else {
                a = a->getArrayElementType();
                s += ix * nslots(a);
            }
        }
        u32 m = nslots(a);
        for (u32 k = 0; k < n; ++k)
            emit(O_MOV, 0, opnd(&I, k), k >= s && k < s + m ? opnd(iv.getInsertedValueOperand(), k - s) : opnd(iv.getAggregateOperand(), k));
        return;
    }
    case Instruction::Alloca: {
        auto& al = cast<AllocaInst>(I);
        Inst& x = emit(O_ALLOCA, 64, opnd(&I), opnd(al.getArraySize()));
        x.imm = DL->getTypeAllocSize(al.getAllocatedType());
        return;
    }
    case Instruction::Load: {
        std::vector<Leaf> l;
        leaves(t, 0, l);
        i32 a = opnd(I.getOperand(0));
        // the address register may be overwritten by the first slot: single slot is the common case
        for (u32 k = 0; k < l.size(); ++k) {
            Inst& x = emit(O_LOAD, l[k].w, opnd(&I, k), a, (i32)l[k].bytes, l[k].ptr);
            x.imm = l[k].off;
        }
        return;
    }
    case Instruction::Store: {
        std::vector<Leaf> l;
        leaves(I.getOperand(0)->getType(), 0, l);
        for (u32 k = 0; k < l.size(); ++k) {
            Inst& x = emit(O_STORE, l[k].w, 0, opnd(I.getOperand(1)), opnd(I.getOperand(0), k), (i32)l[k].bytes);
            x.imm = l[k].off;
        }
        return;
    }
    case Instruction::GetElementPtr: {
        if (n != 1) return unsupported(I);
        auto& g = cast<GetElementPtrInst>(I);
        i64 off = 0;
        std::vector<std::pair<const Value*, u64>> var;
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
            const Value* ix = gti.getOperand();
            if (StructType* st = gti.getStructTypeOrNull()) {
                off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
                u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
                if (auto* c = dyn_cast<ConstantInt>(ix)) off += c->getSExtValue() * (i64)sz;
                else var.push_back({ix, sz});
            }
        }
        i32 base = opnd(g.getPointerOperand()), d = opnd(&I);
        if (off || var.empty()) {
            emit(O_ADDC, 64, d, base).imm = (u64)off;
            base = d;
        }
        for (auto& v : var) {
            Inst& x = emit(O_ADDV, 64, d, base, opnd(v.first));
            x.imm = v.second;
            x.w2 = swidth(v.first->getType());
            base = d;
        }
        return;
    }
    case Instruction::Br: {
        auto& b = cast<BranchInst>(I);
        if (b.isConditional()) {
            BrInfo* bi = new BrInfo{edge(I.getParent(), b.getSuccessor(0)), edge(I.getParent(), b.getSuccessor(1))};
            emit(O_CONDBR, 1, 0, opnd(b.getCondition())).p = bi;
        } else
            emit(O_BR).p = new Edge(edge(I.getParent(), b.getSuccessor(0)));
        return;
    }
    case Instruction::Switch: {
        auto& s = cast<SwitchInst>(I);
        SwitchInfo* si = new SwitchInfo;
        std::unordered_map<const BasicBlock*, u32> ix;
        si->edges.push_back(edge(I.getParent(), s.getDefaultDest()));
        si->vals.emplace_back();
        ix[s.getDefaultDest()] = 0;
        for (auto c : s.cases()) {
            auto* bb = c.getCaseSuccessor();
            auto it = ix.find(bb);
            if (it == ix.end()) {
                it = ix.emplace(bb, si->edges.size()).first;
                si->edges.push_back(edge(I.getParent(), bb));
                si->vals.emplace_back();
            }
            si->m[c.getCaseValue()->getZExtValue()] = it->second;
            si->vals[it->second].push_back(c.getCaseValue()->getZExtValue());
        }
        emit(O_SWITCH, swidth(s.getCondition()->getType()), 0, opnd(s.getCondition())).p = si;
        return;
    }
    case Instruction::Ret: {
        auto& r = cast<ReturnInst>(I);
        Inst& x = emit(O_RET);
        if (Value* v = r.getReturnValue()) {
            u32 m = nslots(v->getType());
            std::vector<i32>* ops = new std::vector<i32>;
            for (u32 k = 0; k < m; ++k) ops->push_back(opnd(v, k));
            f->code.back().p = ops;
        }
        (void)x;
        return;
    }
    case Instruction::Call:
    case Instruction::Invoke: return call(cast<CallBase>(I));
    case Instruction::LandingPad: emit(O_LANDINGPAD, 0, opnd(&I)); return;
    case Instruction::Resume: emit(O_RESUME, 0, 0, opnd(I.getOperand(0))); return;
    case Instruction::Unreachable: emit(O_UNREACHABLE); return;
    case Instruction::Fence: return;
    case Instruction::AtomicCmpXchg: {
        auto& c = cast<AtomicCmpXchgInst>(I);
        unsigned cw = swidth(c.getCompareOperand()->getType());
        Inst& x = emit(O_CMPXCHG, cw, opnd(&I), opnd(c.getPointerOperand()), opnd(c.getCompareOperand()), opnd(c.getNewValOperand()));
        x.imm = (cw + 7) / 8;
        return;
    }
    case Instruction::AtomicRMW: {
        auto& c = cast<AtomicRMWInst>(I);
        Inst& x = emit(O_ATOMICRMW, w, opnd(&I), opnd(c.getPointerOperand()), opnd(c.getValOperand()), (i32)c.getOperation());
        x.imm = (w + 7) / 8;
        return;
    }
    default: unsupported(I);
    }
}

static void decode(Func* f) {
    Decoder d;
    d.f = f;
    d.run();
}

// ---------------------------------------------------------------- frames
static void push_frame(Func* f, const Val* args, u32 nargs) {
    if (!f->decoded) decode(f);
    if (S->fr.size() > 3000) {
        violation("stack", "call stack deeper than 3000 frames", *S->model);
        throw Kill{};
    }
    f->ran = true;
    if (!S->inputs.empty()) f->ran_sym = true;
    u32 base = S->regs.size();
    S->regs.resize(base + f->nregs, Val{0, nullptr});
    for (u32 i = 0; i < nargs && i < f->nargs; ++i) S->regs[base + i] = args[i];
    S->fr.push_back(Frame{f, 0, base, (u32)S->allocas.size()});
}
static void drop_frame() {
    Frame& f = S->fr.back();
    while (S->allocas.size() > f.allocas) {
        del_obj(S->allocas.back());
        S->allocas.pop_back();
    }
    S->regs.resize(f.base);
    S->fr.pop_back();
}
static void take(Frame& f, const Edge& e) {
    Val* R = S->regs.data() + f.base;
    const Val* Kp = f.f->K.data();
    size_t n = e.moves.size();
    if (n == 1) {
        i32 s = e.moves[0].second;
        R[e.moves[0].first] = s >= 0 ? R[s] : Kp[~s];
    } else if (n) {
        Val tmp[64];
        std::vector<Val> big;
        Val* t = tmp;
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; ++i) {
            i32 s = e.moves[i].second;
            t[i] = s >= 0 ? R[s] : Kp[~s];
        }
        for (size_t i = 0; i < n; ++i) R[e.moves[i].first] = t[i];
    }
    f.pc = e.pc;
}

// ---------------------------------------------------------------- exceptions
static Exc* find_exc(u64 p) {
    for (auto& e : S->excs)
        if (e.ptr == p) return &e;
    return nullptr;
}
static u32 ti_id(u64 ti) {
    auto it = ti_ids.find(ti);
    if (it != ti_ids.end()) return it->second;
    u32 id = ti_ids.size() + 1;
    ti_ids[ti] = id;
    return id;
}
static bool ti_match(u64 thrown, u64 want, u64& adj) {
    if (thrown == want) return true;
    u64 vt = rd64(thrown);
    if (vt == vt_si) return ti_match(rd64(thrown + 16), want, adj);
    if (vt == vt_vmi) {
        u32 n = (u32)load(cv(thrown + 20), 4, 32, false).c;
        for (u32 i = 0; i < n; ++i) {
            u64 b = rd64(thrown + 24 + 16 * i);
            i64 fl = (i64)rd64(thrown + 32 + 16 * i);
            u64 a = adj;
            if (fl & 1) {
                u64 vp = rd64(adj);
                a += rd64(vp + (fl >> 8));
            } else
                a += (u64)(fl >> 8);
            if (ti_match(b, want, a)) { adj = a; return true; }
        }
    }
    return false;
}
static void unwind(u64 exc) {
    Exc* e = find_exc(exc);
    if (!e) die("unwind of unknown exception");
    while (!S->fr.empty()) {
        Frame& f = S->fr.back();
        Inst& I = f.f->code[f.pc];
        if (I.op == O_CALL) {
            CallInfo* ci = (CallInfo*)I.p;
            if (ci->invoke) {
                bool take_it = ci->lp->cleanup;
                u64 sel = 0, adj = exc;
                for (auto& c : ci->lp->cl) {
                    if (c.filter) {
                        bool ok = false;
                        for (u64 t : c.tis) {
                            u64 a = exc;
                            ok |= t == 0 || ti_match(e->ti, t, a);
                        }
                        if (!ok) { take_it = true; sel = (u64)(u32)-1; break; }
                        continue;
                    }
                    u64 a = exc;
                    if (c.ti == 0 || ti_match(e->ti, c.ti, a)) {
                        take_it = true;
                        adj = a;
                        sel = c.ti == 0 ? ti_id(0) : ti_id(c.ti);
                        break;
                    }
                }
                if (take_it) {
                    if (sel) e->adj = adj;
                    S->lp_ptr = exc;
                    S->lp_sel = sel;
                    take(f, ci->unwind);
                    return;
                }
            }
        }
        drop_frame();
    }
    std::string n;
    {
        u64 np = rd64(e->ti + 8);
        n = demangle("_ZTI" + read_cstr(np));
    }
    violation("exception", "uncaught exception: " + n, *S->model);
    throw Kill{};
}

static void complete_call(const Val* r) { // finish the call instruction of the top frame
    Frame& f = S->fr.back();
    Inst& I = f.f->code[f.pc];
    CallInfo* ci = (CallInfo*)I.p;
    Val* R = S->regs.data() + f.base;
    for (u32 k = 0; k < ci->nret; ++k) R[I.dst + k] = r[k];
    if (ci->invoke) take(f, ci->normal);
    else f.pc++;
}

// ---------------------------------------------------------------- builtins
#define BI(name) static BRes name(State& s, CallInfo& ci, const Val* a, Val* r)

static u64 do_malloc(u64 n, u8 fl) {
    if (n > (1ull << 31)) return 0; // out of memory
    S->heap_bytes += n;
    return new_obj(n ? n : 1, OBJ_HEAP | fl, 0xA5);
}
BI(b_malloc) {
    u64 n = concretize(a[0], 64);
    r[0] = cv(do_malloc(n, 0));
    return B_OK;
}
BI(b_calloc) {
    u64 n = concretize(a[0], 64), m = concretize(a[1], 64);
    u64 p = do_malloc(n * m, 0);
    if (p) set_mem(p, cv(0), n * m);
    r[0] = cv(p);
    return B_OK;
}
BI(b_aligned_alloc) {
    concretize(a[0], 64);
    r[0] = cv(do_malloc(concretize(a[1], 64), 0));
    return B_OK;
}
static void do_free(u64 p, u8 want, u8 mask) {
    if (!p) return;
    Obj* o = (u32)p == 0 ? lookup(p >> 32) : nullptr;
    if (!o || !(o->flags & OBJ_HEAP) || (o->flags & mask) != want) {
        violation("memory", !o ? "free of an invalid or already freed pointer" : "mismatched deallocation function", *S->model);
        throw Kill{};
    }
    del_obj(p >> 32);
}
BI(b_free) { do_free(concretize(a[0], 64), 0, OBJ_NEW | OBJ_NEWARR); return B_OK; }
BI(b_realloc) {
    u64 p = concretize(a[0], 64), n = concretize(a[1], 64);
    u64 q = do_malloc(n, 0);
    if (p && q) {
        Obj* o = lookup(p >> 32);
        if (!o) mem_violation(p, 1, false, *S->model);
        copy_mem(q, p, std::min<u64>(o->size, n));
        del_obj(p >> 32);
    }
    r[0] = cv(q);
    return B_OK;
}
BI(b_new) { r[0] = cv(do_malloc(concretize(a[0], 64), OBJ_NEW)); if (!r[0].c) { incomplete["operator new out of memory"]++; throw Kill{}; } return B_OK; }
BI(b_newarr) { r[0] = cv(do_malloc(concretize(a[0], 64), OBJ_NEWARR)); if (!r[0].c) { incomplete["operator new out of memory"]++; throw Kill{}; } return B_OK; }
BI(b_new_nothrow) { r[0] = cv(do_malloc(concretize(a[0], 64), OBJ_NEW)); return B_OK; }
BI(b_delete) { do_free(concretize(a[0], 64), OBJ_NEW, OBJ_NEW | OBJ_NEWARR); return B_OK; }
BI(b_deletearr) { do_free(concretize(a[0], 64), OBJ_NEWARR, OBJ_NEW | OBJ_NEWARR); return B_OK; }

BI(b_memcpy) {
    u64 n = concretize(a[2], 64);
    if (n) {
        u64 d = concretize(a[0], 64), sp = concretize(a[1], 64);
        copy_mem(d, sp, n);
    }
    r[0] = a[0];
    return B_OK;
}
BI(b_memset) {
    u64 n = concretize(a[2], 64);
    if (n) {
        u64 d = concretize(a[0], 64);
        set_mem(d, a[1], n);
    }
    r[0] = a[0];
    return B_OK;
}
BI(b_memcmp) {
    u64 n = concretize(a[2], 64);
    u64 p = concretize(a[0], 64), q = concretize(a[1], 64);
    if (!n) { r[0] = cv(0); return B_OK; }
    Obj* o1 = chk(p, n, false);
    Obj* o2 = chk(q, n, false);
    bool eqonly = ci.imm == 1;
    if (!range_sym(o1, (u32)p, n) && !range_sym(o2, (u32)q, n)) {
        int res = 0;
        for (u64 i = 0; i < n && !res; ++i) {
            u8 x = o1->pages[((u32)p + i) >> 12]->data[((u32)p + i) & 4095];
            u8 y = o2->pages[((u32)q + i) >> 12]->data[((u32)q + i) & 4095];
            res = x < y ? -1 : x > y;
        }
        r[0] = cv((u32)res);
        return B_OK;
    }
    Expr* e = X.cst(0, 32);
    for (u64 i = n; i-- > 0;) {
        Expr* x = byte_expr(o1, (u32)p + i);
        Expr* y = byte_expr(o2, (u32)q + i);
        Expr* d = eqonly ? X.cst(1, 32) : X.ite(X.cmp(K::Ult, x, y), X.cst(0xffffffffu, 32), X.cst(1, 32));
        e = X.ite(X.cmp(K::Eq, x, y), e, d);
    }
    r[0] = mkval(e);
    return B_OK;
}
BI(b_bcmp) {
    u64 save = ci.imm;
    ci.imm = 1;
    BRes x = b_memcmp(s, ci, a, r);
    ci.imm = save;
    return x;
}

BI(b_zero) { r[0] = cv(0); return B_OK; }
BI(b_void) { return B_OK; }
BI(b_fwrite) { r[0] = a[2]; return B_OK; }
BI(b_exit) {
    violation("exit", "exit() called", *s.model);
    throw Kill{};
}
BI(b_abort) {
    violation("abort", "abort/terminate called", *s.model);
    throw Kill{};
}
BI(b_guard_acquire) {
    Val g = load(a[0], 1, 8, false);
    r[0] = cv(g.c ? 0 : 1);
    return B_OK;
}
BI(b_guard_release) { store(a[0], 1, cv(1), 8); return B_OK; }
BI(b_errno) { r[0] = cv(errno_addr); return B_OK; }

BI(b_alloc_exc) {
    u64 p = new_obj(std::max<u64>(a[0].c, 1), OBJ_HEAP, 0xA5);
    r[0] = cv(p);
    return B_OK;
}
BI(b_free_exc) { del_obj(a[0].c >> 32); return B_OK; }
BI(b_throw) {
    s.excs.push_back(Exc{a[0].c, a[1].c, a[2].c, a[0].c, 0, 1, false});
    s.uncaught++;
    unwind(a[0].c);
    return B_CTRL;
}
BI(b_begin_catch) {
    Exc* e = find_exc(a[0].c);
    if (!e) die("begin_catch: unknown exception");
    e->handlers++;
    e->rethrown = false;
    s.caught.push_back(e->ptr);
    s.uncaught--;
    r[0] = cv(e->adj);
    return B_OK;
}
static bool exc_unref(u64 p) { // true: a destructor frame was pushed
    Exc* e = find_exc(p);
    if (--e->refs > 0) return false;
    u64 d = e->dtor, ptr = e->ptr;
    for (size_t i = 0; i < S->excs.size(); ++i)
        if (S->excs[i].ptr == p) { S->excs.erase(S->excs.begin() + i); break; }
    if (!d) return false;
    u32 ix = (u32)d / 16;
    Func* f = funcs[ix];
    if (f->F->isDeclaration()) return false;
    Val av = cv(ptr);
    push_frame(f, &av, 1);
    return true;
}
BI(b_end_catch) {
    if (s.caught.empty()) return B_OK;
    u64 p = s.caught.back();
    s.caught.pop_back();
    Exc* e = find_exc(p);
    e->handlers--;
    if (e->handlers > 0 || e->rethrown) return B_OK;
    return exc_unref(p) ? B_CTRL : B_OK;
}
BI(b_rethrow) {
    if (s.caught.empty()) return b_abort(s, ci, a, r);
    Exc* e = find_exc(s.caught.back());
    e->rethrown = true;
    s.uncaught++;
    unwind(e->ptr);
    return B_CTRL;
}
BI(b_get_exc_ptr) { Exc* e = find_exc(a[0].c); r[0] = cv(e ? e->adj : a[0].c); return B_OK; }
BI(b_current_exception) { // sret
    u64 p = s.caught.empty() ? 0 : s.caught.back();
    if (p) find_exc(p)->refs++;
    store(a[0], 8, cv(p), 64);
    return B_OK;
}
BI(b_excptr_addref) {
    u64 p = rd64(a[0].c);
    if (p) if (Exc* e = find_exc(p)) e->refs++;
    return B_OK;
}
BI(b_excptr_release) {
    u64 p = rd64(a[0].c);
    if (p && find_exc(p)) return exc_unref(p) ? B_CTRL : B_OK;
    return B_OK;
}
BI(b_rethrow_exception) {
    u64 p = rd64(a[0].c);
    Exc* e = find_exc(p);
    if (!e) return b_abort(s, ci, a, r);
    e->refs++;
    e->rethrown = false;
    s.uncaught++;
    unwind(p);
    return B_CTRL;
}
BI(b_uncaught) { r[0] = cv((u64)s.uncaught); return B_OK; }
BI(b_dynamic_cast) {
    // (src, src_ti, dst_ti, offset): via the most derived object
    if (!a[0].c) { r[0] = cv(0); return B_OK; }
    u64 vp = rd64(a[0].c);
    u64 top = a[0].c + rd64(vp - 16);
    u64 ti = rd64(vp - 8);
    u64 adj = top;
    r[0] = cv(ti_match(ti, a[2].c, adj) ? adj : 0);
    return B_OK;
}

static double asdv(u64 c) { double d; memcpy(&d, &c, 8); return d; }
static u64 dv(double d) { u64 c; if (std::isnan(d)) return 0x7ff8000000000000ull; memcpy(&c, &d, 8); return c; }
static int ffun_id(const std::string& n) {
    static const char* names[] = {"fmod", "pow", "log", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log2", "log10", "atan2"};
    size_t at = n.rfind("llvm.", 0) == 0 ? 5 : 0;
    for (int i = 0; i < 13; ++i) {
        size_t l = strlen(names[i]);
        if (n.compare(at, l, names[i]) == 0 && (n.size() == at + l || n[at + l] == '.')) return i;
    }
    return -1;
}
template<double (*F)(double)> static BRes b_m1(State& s, CallInfo& ci, const Val* a, Val* r) {
    if (a[0].e) {
        int id = ffun_id(ci.f->name);
        if (id < 0) { incomplete["math function on symbolic argument: " + ci.f->name]++; throw Kill{}; }
        r[0] = mkval(X.fpop(K::FFun, 64, a[0].e, X.cst(0, 64), id));
        return B_OK;
    }
    r[0] = cv(dv(F(asdv(a[0].c))));
    return B_OK;
}
template<double (*F)(double, double)> static BRes b_m2(State& s, CallInfo& ci, const Val* a, Val* r) {
    if (a[0].e || a[1].e) {
        int id = ffun_id(ci.f->name);
        if (id < 0) { incomplete["math function on symbolic argument: " + ci.f->name]++; throw Kill{}; }
        r[0] = mkval(X.fpop(K::FFun, 64, ex(a[0], 64), ex(a[1], 64), id));
        return B_OK;
    }
    r[0] = cv(dv(F(asdv(a[0].c), asdv(a[1].c))));
    return B_OK;
}
template<int MODE> static BRes b_round(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.retw;
    r[0] = mkval(X.fpop(K::FRound, w, ex(a[0], w), nullptr, MODE));
    return B_OK;
}
BI(b_sqrt) { unsigned w = ci.retw; r[0] = mkval(X.fpop(K::FSqrt, w, ex(a[0], w))); return B_OK; }
BI(b_fabs) { unsigned w = ci.retw; r[0] = mkval(X.bin(K::And, ex(a[0], w), X.cst(wmask(w - 1), w))); return B_OK; }

// --- harness API
static u32 get_array(State& s, const std::string& name, u32 n) {
    u32 k = s.seq[name];
    std::string key = name + "#" + std::to_string(k) + ":" + std::to_string(n);
    auto it = array_cache.find(key);
    if (it != array_cache.end()) return it->second;
    u32 id = X.new_array(name, n);
    array_cache[key] = id;
    return id;
}
BI(x_make) { // ptr, n, name
    std::string name = read_cstr(a[2].c);
    u32 n = (u32)concretize(a[1], 64);
    u32 id = get_array(s, name, n);
    if (n) {
        Obj* o = chk(a[0].c, n, true);
        u32 off = (u32)a[0].c;
        for (u32 i = 0; i < n; ++i) o->wpage((off + i) >> 12)->set_sym((off + i) & 4095, X.var(X.arrays[id].first_var + i));
    }
    s.seq[name]++;
    s.inputs.push_back(id);
    return B_OK;
}
BI(x_assume) {
    Expr* c = X.cmp(K::Eq, X.cst(0, 32), ex(a[0], 32));
    if (!assume(X.lnot(c))) { ++n_killed_assume; throw Kill{}; }
    return B_OK;
}
BI(x_assert) {
    Expr* c = X.lnot(X.cmp(K::Eq, X.cst(0, 32), ex(a[0], 32)));
    if (c->kind == K::Const && c->v) return B_OK;
    require(c, "assert", read_cstr(a[1].c));
    return B_OK;
}
BI(x_fail) {
    violation("assert", read_cstr(a[0].c), *s.model);
    throw Kill{};
}
BI(x_kill) { ++n_killed_assume; throw Kill{}; }
BI(x_choose) { // n, name
    u64 n = concretize(a[0], 32);
    std::string name = read_cstr(a[1].c);
    u32 id = get_array(s, name, 1);
    Expr* v = X.var(X.arrays[id].first_var);
    if (n < 256 && !assume(X.cmp(K::Ult, v, X.cst(n, 8)))) throw Kill{};
    u64 x = concretize(Val{0, v}, 8);
    s.seq[name]++;
    s.inputs.push_back(id);
    r[0] = cv(x);
    return B_OK;
}
BI(x_concretize) { r[0] = cv(concretize(a[0], 64)); return B_OK; }
BI(x_cover) { covers.insert(read_cstr(a[0].c)); return B_OK; }
BI(x_observe) { s.obs.push_back(a[0]); return B_OK; }
BI(x_is_replay) { r[0] = cv(0); return B_OK; }
BI(x_is_symbolic) { r[0] = cv(a[0].e ? 1 : 0); return B_OK; }
BI(x_ite) { // cond, a, b without forking
    Expr* c = X.lnot(X.cmp(K::Eq, X.cst(0, 32), ex(a[0], 32)));
    r[0] = mkval(X.ite(c, ex(a[1], 64), ex(a[2], 64)));
    return B_OK;
}
BI(x_log) {
    if (getenv("SYMX_LOG")) fprintf(stderr, "[log] %s %s%lld\n", read_cstr(a[0].c).c_str(), a[1].e ? "~" : "", (long long)(a[1].e ? ev(a[1].e) : a[1].c));
    return B_OK;
}
BI(x_may) { // may the condition hold here? no fork
    Expr* c = X.lnot(X.cmp(K::Eq, X.cst(0, 32), ex(a[0], 32)));
    ModelP m;
    r[0] = cv(may_be_false(X.lnot(c), m));
    return B_OK;
}
BI(x_objsize) { Obj* o = lookup(a[0].c >> 32); r[0] = cv(o ? o->size : 0); return B_OK; }
BI(x_live) { // bytes accessible at p, 0 when freed
    Obj* o = lookup(a[0].c >> 32);
    r[0] = cv(o && (u32)a[0].c < o->size ? o->size - (u32)a[0].c : 0);
    return B_OK;
}
BI(x_digits) { // out, value, n
    u64 n = concretize(a[2], 32), d = concretize(a[0], 64);
    if (!n) return B_OK;
    Obj* o = chk(d, n, true);
    Expr* v = ex(a[1], 64);
    if (v->kind == K::Mul && v->a->kind == K::Const && v->a->v == wmask(64)) v = X.neg(canon(subst(v->b)));
    else if (v->kind == K::Mul && v->b->kind == K::Const && v->b->v == wmask(64)) v = X.neg(canon(subst(v->a)));
    else if (v->kind == K::Sub && v->a->kind == K::Const && !v->a->v) v = X.neg(canon(subst(v->b)));
    else v = canon(v);
    u64 p = 1;
    for (u64 i = 0; i < n; ++i) {
        Expr* q = i == 0 ? v : i < 20 ? X.bin(K::UDiv, v, X.cst(p, 64)) : X.cst(0, 64);
        Expr* g = X.bin(K::URem, q, X.cst(10, 64));
        Expr* b = X.concat(X.cst(3, 4), X.extract(g, 0, 4));
        u32 off = (u32)d + (u32)(n - 1 - i);
        if (b->kind == K::Const) store(cv(d + (n - 1 - i)), 1, cv((u64)b->v), 8);
        else o->wpage(off >> 12)->set_sym(off & 4095, b);
        p *= 10;
    }
    return B_OK;
}
BI(b_clock) { r[0] = cv(s.clock += 1000); return B_OK; }
// snprintf-like formatting of concrete values is not needed by the code under test
BI(b_unsup) { incomplete["unsupported library function " + ci.f->name]++; throw Kill{}; }

// --- intrinsics
static BRes i_overflow(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.argw[0];
    unsigned id = (unsigned)ci.imm;
    bool sg = id & 1;
    int op = id >> 1; // 0 add 1 sub 2 mul
    if (!a[0].e && !a[1].e && w <= 64) {
        i128 x, y;
        if (sg) { x = sext64(a[0].c, w); y = sext64(a[1].c, w); }
        else { x = (i128)a[0].c; y = (i128)a[1].c; }
        if (op == 2 && !sg) {
            u128 z = (u128)a[0].c * a[1].c;
            r[0] = cv((u64)z & wmask64(w));
            r[1] = cv(z != (z & wmask(w)));
            return B_OK;
        }
        i128 z = op == 0 ? x + y : op == 1 ? x - y : x * y;
        r[0] = cv((u64)z & wmask64(w));
        if (sg) r[1] = cv(z != (i128)sext64((u64)z, w));
        else r[1] = cv(z < 0 || z > (i128)wmask(w));
        return B_OK;
    }
    Expr *x = ex(a[0], w), *y = ex(a[1], w);
    Expr* z = X.bin(op == 0 ? K::Add : op == 1 ? K::Sub : K::Mul, x, y);
    Expr* o;
    if (op == 2) {
        if (w > 64) { incomplete["wide overflow multiply"]++; throw Kill{}; }
        x = canon(x);
        y = canon(y);
        z = X.bin(K::Mul, x, y);
        if (x->kind == K::Const) std::swap(x, y);
        else if (y->kind != K::Const && x->id > y->id) std::swap(x, y);
        if (y->kind == K::Const && (y->v == 0 || y->v == 1)) o = X.cst(0, 1);
        else o = X.fpop(sg ? K::SMulOvf : K::UMulOvf, 1, x, y);
    } else if (sg) {
        Expr* zero = X.cst(0, w);
        Expr *sx = X.cmp(K::Slt, x, zero), *sy = X.cmp(K::Slt, y, zero), *sz = X.cmp(K::Slt, z, zero);
        Expr* same = X.cmp(K::Eq, sx, sy);
        Expr* diff = X.lnot(X.cmp(K::Eq, sx, sz));
        o = X.bin(K::And, op == 0 ? same : X.lnot(same), diff);
    } else
        o = op == 0 ? X.cmp(K::Ult, z, x) : X.cmp(K::Ult, x, y);
    r[0] = mkval(z);
    r[1] = mkval(o);
    return B_OK;
}
static BRes i_sat(State& s, CallInfo& ci, const Val* a, Val* r) {
    Val t[2];
    i_overflow(s, ci, a, t);
    unsigned w = ci.argw[0];
    bool sg = ci.imm & 1;
    int op = ci.imm >> 1;
    Expr* lim;
    if (!sg) lim = X.cst(op == 0 ? wmask(w) : 0, w);
    else {
        Expr* neg = X.cmp(K::Slt, ex(a[0], w), X.cst(0, w));
        lim = X.ite(neg, X.cst((u128)1 << (w - 1), w), X.cst(wmask(w - 1), w));
    }
    r[0] = mkval(X.ite(ex(t[1], 1), lim, ex(t[0], w)));
    return B_OK;
}
static BRes i_minmax(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.argw[0];
    Expr *x = ex(a[0], w), *y = ex(a[1], w);
    K k = ci.imm & 1 ? K::Slt : K::Ult;
    Expr* lt = X.cmp(k, x, y);
    r[0] = mkval(ci.imm & 2 ? X.ite(lt, y, x) : X.ite(lt, x, y));
    return B_OK;
}
static BRes i_abs(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.argw[0];
    Expr* x = ex(a[0], w);
    r[0] = mkval(X.ite(X.cmp(K::Slt, x, X.cst(0, w)), X.neg(x), x));
    return B_OK;
}
static BRes i_ctlz(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.argw[0];
    Expr* x = ex(a[0], w);
    Expr* e = X.cst(w, w);
    if (ci.imm == 0) // ctlz: highest set bit wins
        for (unsigned i = 0; i < w; ++i) e = X.ite(X.extract(x, i, 1), X.cst(w - 1 - i, w), e);
    else
        for (unsigned i = w; i-- > 0;) e = X.ite(X.extract(x, i, 1), X.cst(i, w), e);
    r[0] = mkval(e);
    return B_OK;
}
static BRes i_ctpop(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.argw[0];
    Expr* x = ex(a[0], w);
    Expr* e = X.cst(0, w);
    for (unsigned i = 0; i < w; ++i) e = X.bin(K::Add, e, X.zext(X.extract(x, i, 1), w));
    r[0] = mkval(e);
    return B_OK;
}
static BRes i_bswap(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.argw[0];
    Expr* x = ex(a[0], w);
    Expr* e = X.extract(x, 0, 8);
    for (unsigned i = 8; i < w; i += 8) e = X.concat(e, X.extract(x, i, 8));
    r[0] = mkval(e);
    return B_OK;
}
static BRes i_bitreverse(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.argw[0];
    Expr* x = ex(a[0], w);
    Expr* e = X.extract(x, 0, 1);
    for (unsigned i = 1; i < w; ++i) e = X.concat(e, X.extract(x, i, 1));
    r[0] = mkval(e);
    return B_OK;
}
static BRes i_fsh(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.argw[0];
    u64 sh = concretize(a[2], w) % w;
    Expr *x = ex(a[0], w), *y = ex(a[1], w);
    if (ci.imm == 0) // fshl
        r[0] = sh == 0 ? a[0] : mkval(X.bin(K::Or, X.bin(K::Shl, x, X.cst(sh, w)), X.bin(K::LShr, y, X.cst(w - sh, w))));
    else
        r[0] = sh == 0 ? a[1] : mkval(X.bin(K::Or, X.bin(K::Shl, x, X.cst(w - sh, w)), X.bin(K::LShr, y, X.cst(sh, w))));
    return B_OK;
}
static BRes i_copysign(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.retw;
    r[0] = mkval(X.bin(K::Or, X.bin(K::And, ex(a[0], w), X.cst(wmask(w - 1), w)),
        X.bin(K::And, ex(a[1], w), X.cst((u128)1 << (w - 1), w))));
    return B_OK;
}
static BRes i_fmuladd(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.retw;
    r[0] = mkval(X.fpop(K::FAdd, w, X.fpop(K::FMul, w, ex(a[0], w), ex(a[1], w)), ex(a[2], w)));
    return B_OK;
}
static BRes i_fminmax(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.retw;
    Expr *x = ex(a[0], w), *y = ex(a[1], w);
    Expr* lt = X.fpop(K::FOlt, 1, x, y);
    Expr* un = X.fpop(K::FUno, 1, x, x);
    Expr* uny = X.fpop(K::FUno, 1, y, y);
    Expr* m = ci.imm ? X.ite(lt, y, x) : X.ite(lt, x, y);
    r[0] = mkval(X.ite(un, y, X.ite(uny, x, m)));
    return B_OK;
}
static BRes i_isfpclass(State& s, CallInfo& ci, const Val* a, Val* r) {
    unsigned w = ci.argw[0];
    Expr* x = ex(a[0], w);
    u64 m = a[1].c;
    unsigned mant = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8;
    Expr* sign = X.extract(x, w - 1, 1);
    Expr* e = X.extract(x, mant, eb);
    Expr* f = X.extract(x, 0, mant);
    Expr* emax = X.cmp(K::Eq, e, X.cst(wmask(eb), eb));
    Expr* ezero = X.cmp(K::Eq, e, X.cst(0, eb));
    Expr* fz = X.cmp(K::Eq, f, X.cst(0, mant));
    Expr* q = X.extract(x, mant - 1, 1);
    auto AND = [&](Expr* p, Expr* t) { return X.bin(K::And, p, t); };
    Expr* ns = X.lnot(sign);
    Expr* cls[10] = {AND(AND(emax, X.lnot(fz)), X.lnot(q)), AND(AND(emax, X.lnot(fz)), q), AND(sign, AND(emax, fz)),
        AND(sign, AND(X.lnot(emax), X.lnot(ezero))), AND(sign, AND(ezero, X.lnot(fz))), AND(sign, AND(ezero, fz)),
        AND(ns, AND(ezero, fz)), AND(ns, AND(ezero, X.lnot(fz))), AND(ns, AND(X.lnot(emax), X.lnot(ezero))), AND(ns, AND(emax, fz))};
    Expr* res = X.cst(0, 1);
    for (int i = 0; i < 10; ++i)
        if (m >> i & 1) res = X.bin(K::Or, res, cls[i]);
    r[0] = mkval(res);
    return B_OK;
}
BI(i_typeid) { r[0] = cv(ti_id(a[0].c)); return B_OK; }
BI(i_trap) {
    static const char* kinds[] = {"add overflow", "builtin unreachable", "cfi", "division overflow or by zero", "dynamic type cache miss",
        "float cast out of range", "function type mismatch", "implicit conversion", "invalid builtin argument", "invalid objc cast",
        "load of invalid value", "missing return", "multiplication overflow", "negate overflow", "nullability argument", "nullability return",
        "non-null argument", "non-null return", "array index out of bounds", "pointer overflow", "shift out of bounds", "subtraction overflow",
        "type mismatch", "alignment assumption", "vla bound not positive"};
    std::string k = "trap";
    if (ci.args.size()) { k = a[0].c < 25 ? kinds[a[0].c] : "?"; }
    violation("ub", "undefined behaviour: " + k, *s.model);
    throw Kill{};
}
BI(i_first) { r[0] = a[0]; return B_OK; }
BI(i_isconst) { r[0] = cv(0); return B_OK; }
BI(i_objsize) { r[0] = cv(a[1].c ? 0 : ~0ull & wmask64(ci.retw)); return B_OK; }
BI(i_ptrmask) { r[0] = mkval(X.bin(K::And, ex(a[0], 64), ex(a[1], 64))); return B_OK; }
// offsets between objects do not fit into 32 bits here: the target is taken from the table's initializer
BI(i_load_relative) {
    u64 at = concretize(a[1], 64);
    static std::unordered_map<u64, const GlobalVariable*> tables;
    if (tables.empty())
        for (auto& [g, addr] : gaddr)
            if (auto* v = dyn_cast<GlobalVariable>(g)) tables[addr] = v;
    auto it = tables.find(a[0].c);
    if (it != tables.end() && it->second->hasInitializer() && it->second->isConstant()) {
        const Constant* e = it->second->getInitializer();
        if (auto* el = at % 4 ? nullptr : e->getAggregateElement((unsigned)(at / 4))) {
            const Constant* c = el;
            if (auto* t = dyn_cast<ConstantExpr>(c); t && t->getOpcode() == Instruction::Trunc) c = cast<Constant>(t->getOperand(0));
            if (auto* t = dyn_cast<ConstantExpr>(c); t && t->getOpcode() == Instruction::Sub && const_u64(cast<Constant>(t->getOperand(1))) == a[0].c) {
                r[0] = cv(const_u64(cast<Constant>(t->getOperand(0))));
                return B_OK;
            }
        }
    }
    load(cv(a[0].c + at), 4, 32, false);                // reports accesses out of bounds
    incomplete["relative load of an unknown table"]++;
    throw Kill{};
}
BI(i_stacksave) { r[0] = cv(0); return B_OK; }

static Builtin intrinsic_handler(const CallBase& cb, const Function* F, bool& nop) {
    if (cb.getType()->isVectorTy()) return nullptr;
    switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::sideeffect:
        nop = true; return b_void;
    default: return nullptr;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return b_memcpy;
    case Intrinsic::memset: case Intrinsic::memset_inline: return b_memset;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence: return i_first;
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        return i_overflow;
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: case Intrinsic::uadd_sat: case Intrinsic::usub_sat: return i_sat;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: return i_minmax;
    case Intrinsic::abs: return i_abs;
    case Intrinsic::ctlz: case Intrinsic::cttz: return i_ctlz;
    case Intrinsic::ctpop: return i_ctpop;
    case Intrinsic::bswap: return i_bswap;
    case Intrinsic::bitreverse: return i_bitreverse;
    case Intrinsic::fshl: case Intrinsic::fshr: return i_fsh;
    case Intrinsic::fabs: return b_fabs;
    case Intrinsic::floor: return b_round<0>;
    case Intrinsic::ceil: return b_round<1>;
    case Intrinsic::trunc: return b_round<2>;
    case Intrinsic::round: return b_round<3>;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return b_round<4>;
    case Intrinsic::sqrt: return b_sqrt;
    case Intrinsic::pow: return b_m2<std::pow>;
    case Intrinsic::sin: return b_m1<std::sin>;
    case Intrinsic::cos: return b_m1<std::cos>;
    case Intrinsic::exp: return b_m1<std::exp>;
    case Intrinsic::log: return b_m1<std::log>;
    case Intrinsic::copysign: return i_copysign;
    case Intrinsic::fmuladd: return i_fmuladd;
    case Intrinsic::minnum: case Intrinsic::maxnum: return i_fminmax;
    case Intrinsic::is_fpclass: return i_isfpclass;
    case Intrinsic::eh_typeid_for: return i_typeid;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return i_trap;
    case Intrinsic::is_constant: return i_isconst;
    case Intrinsic::objectsize: return i_objsize;
    case Intrinsic::ptrmask: return i_ptrmask;
    case Intrinsic::load_relative: return i_load_relative;
    case Intrinsic::stacksave: return i_stacksave;
    }
}
static u64 intrinsic_imm(unsigned id) {
    switch (id) {
    case Intrinsic::uadd_with_overflow: case Intrinsic::uadd_sat: return 0;
    case Intrinsic::sadd_with_overflow: case Intrinsic::sadd_sat: return 1;
    case Intrinsic::usub_with_overflow: case Intrinsic::usub_sat: return 2;
    case Intrinsic::ssub_with_overflow: case Intrinsic::ssub_sat: return 3;
    case Intrinsic::umul_with_overflow: return 4;
    case Intrinsic::smul_with_overflow: return 5;
    case Intrinsic::umin: return 0;
    case Intrinsic::smin: return 1;
    case Intrinsic::umax: return 2;
    case Intrinsic::smax: return 3;
    case Intrinsic::ctlz: return 0;
    case Intrinsic::cttz: return 1;
    case Intrinsic::fshl: return 0;
    case Intrinsic::fshr: return 1;
    case Intrinsic::minnum: return 0;
    case Intrinsic::maxnum: return 1;
    default: return 0;
    }
}

static void register_builtins() {
    auto B = [&](const char* n, Builtin b) { builtins[n] = b; };
    B("malloc", b_malloc); B("calloc", b_calloc); B("realloc", b_realloc); B("free", b_free);
    B("aligned_alloc", b_aligned_alloc);
    B("_Znwm", b_new); B("_Znam", b_newarr); B("_ZnwmRKSt9nothrow_t", b_new_nothrow);
    B("_ZnwmSt11align_val_t", b_new); B("_ZnamSt11align_val_t", b_newarr);
    B("_ZdlPv", b_delete); B("_ZdlPvm", b_delete); B("_ZdaPv", b_deletearr); B("_ZdaPvm", b_deletearr);
    B("_ZdlPvSt11align_val_t", b_delete); B("_ZdlPvmSt11align_val_t", b_delete); B("_ZdaPvSt11align_val_t", b_deletearr);
    B("memcpy", b_memcpy); B("memmove", b_memcpy); B("memset", b_memset); B("memcmp", b_memcmp); B("bcmp", b_bcmp);
    B("fwrite", b_fwrite); B("fprintf", b_zero); B("fflush", b_zero); B("fputs", b_zero); B("fputc", b_zero); B("puts", b_zero); B("printf", b_zero);
    B("exit", b_exit); B("_exit", b_exit); B("abort", b_abort); B("_ZSt9terminatev", b_abort); B("__cxa_pure_virtual", b_abort);
    B("__assert_fail", b_abort); B("__cxa_bad_cast", b_abort); B("__cxa_call_unexpected", b_abort); B("_ZSt10unexpectedv", b_abort);
    B("__cxa_guard_acquire", b_guard_acquire); B("__cxa_guard_release", b_guard_release); B("__cxa_guard_abort", b_void);
    B("__cxa_atexit", b_zero); B("__cxa_thread_atexit", b_zero); B("atexit", b_zero); B("__errno_location", b_errno);
    B("__cxa_allocate_exception", b_alloc_exc); B("__cxa_free_exception", b_free_exc);
    B("__cxa_throw", b_throw); B("__cxa_begin_catch", b_begin_catch); B("__cxa_end_catch", b_end_catch);
    B("__cxa_rethrow", b_rethrow); B("__cxa_get_exception_ptr", b_get_exc_ptr);
    B("_ZSt17current_exceptionv", b_current_exception);
    B("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_excptr_addref);
    B("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_excptr_release);
    B("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_exception);
    B("_ZSt18uncaught_exceptionv", b_uncaught); B("_ZSt19uncaught_exceptionsv", b_uncaught);
    B("__dynamic_cast", b_dynamic_cast);
    B("sqrt", b_sqrt); B("sqrtf", b_sqrt); B("floor", b_round<0>); B("ceil", b_round<1>); B("trunc", b_round<2>); B("round", b_round<3>);
    B("rint", b_round<4>); B("nearbyint", b_round<4>); B("fabs", b_fabs); B("floorf", b_round<0>); B("ceilf", b_round<1>);
    B("sin", b_m1<std::sin>); B("cos", b_m1<std::cos>); B("tan", b_m1<std::tan>);
    B("asin", b_m1<std::asin>); B("acos", b_m1<std::acos>); B("atan", b_m1<std::atan>);
    B("exp", b_m1<std::exp>); B("log", b_m1<std::log>); B("log2", b_m1<std::log2>); B("log10", b_m1<std::log10>);
    B("pow", b_m2<std::pow>); B("fmod", b_m2<std::fmod>); B("atan2", b_m2<std::atan2>);
    B("_ZNSt6chrono3_V212steady_clock3nowEv", b_clock);
    B("symx_make", x_make); B("symx_assume", x_assume); B("symx_assert", x_assert); B("symx_fail", x_fail);
    B("symx_choose", x_choose); B("symx_concretize", x_concretize); B("symx_cover", x_cover); B("symx_observe", x_observe);
    B("symx_is_replay", x_is_replay); B("symx_is_symbolic", x_is_symbolic); B("symx_ite", x_ite); B("symx_log", x_log);
    B("symx_kill", x_kill); B("symx_may", x_may); B("symx_objsize", x_objsize); B("symx_digits", x_digits); B("symx_live", x_live);
    for (const char* n : {"snprintf", "vsnprintf", "strtod", "strtof", "strtold"}) B(n, b_unsup);
}

// ---------------------------------------------------------------- the loop
static void finish_path() {
    ++n_paths;
    if (S->inputs.empty()) return;
    // reservoir sample of path models, for validation against the native build
    ++sample_seen;
    auto mk = [&] {
        Sample sm;
        sm.inputs = dump_inputs(*S->model);
        X.new_eval();
        for (auto& o : S->obs) sm.obs += std::to_string((unsigned long long)(o.e ? (u64)X.eval(o.e, *S->model) : o.c)) + " ";
        return sm;
    };
    if (samples.size() < opt_samples) samples.push_back(mk());
    else {
        u64 k = rnd() % sample_seen;
        if (k < opt_samples) samples[k] = mk();
    }
}

static void run_state();
static bool over_limits();
#include "exec.inc"

// ---------------------------------------------------------------- work sharing between processes
struct Shared { volatile int active; volatile int stop; volatile u64 paths; volatile int seq; };
static Shared* sh;
static std::string tmpdir;
static void write_partial(int id);

static double last_split;
static void maybe_split(size_t least) {
    if (pending.size() < least || opt_procs < 2) return;
    if (sh->active >= (int)opt_procs) return;
    double t = elapsed();
    if (t - last_split < 0.02) return;
    last_split = t;
    int a = __sync_add_and_fetch(&sh->active, 1);
    if (a > (int)opt_procs) { __sync_sub_and_fetch(&sh->active, 1); return; }
    int id = __sync_add_and_fetch(&sh->seq, 1);
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { __sync_sub_and_fetch(&sh->active, 1); return; }
    std::vector<State*> mine, other;
    for (size_t i = 0; i < pending.size(); ++i) ((i + (least & 1)) % 2 ? other : mine).push_back(pending[i]);
    if (p == 0) {
        // child: takes `other`; its counters start from zero
        pending = other;
        S = nullptr;
        n_paths = n_forks = n_instrs = n_killed_assume = n_branches = n_loads_ite = 0;
        incomplete.clear(); violations.clear(); samples.clear(); sample_seen = 0; covers.clear();
        for (Func* f : funcs) f->prof = 0;
        SS = SolverStats();
        rng ^= (u64)id * 0x9E3779B97F4A7C15ull;
        solver_reset_after_fork();
        extern void explore_loop();
        cache_flush();
        explore_loop();
        write_partial(id);
        __sync_sub_and_fetch(&sh->active, 1);
        _exit(0);
    }
    for (State* s : other) free_state(s);
    pending = mine;
}

static u64 rss_mb() {
    FILE* f = fopen("/proc/self/statm", "r");
    if (!f) return 0;
    unsigned long a = 0, b = 0;
    if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
    fclose(f);
    return b * 4096 / (1 << 20);
}
static int lim_ctr;
static bool over_limits() {
    if (sh->stop) return true;
    if (elapsed() > opt_time) { sh->stop = 1; return true; }
    if ((++lim_ctr & 63) == 0 && rss_mb() > opt_mem_mb) { incomplete["memory limit"]++; return true; }
    return false;
}

void explore_loop() {
    while (!pending.empty()) {
        if (over_limits()) {
            incomplete["time or memory budget exhausted"] += pending.size();
            break;
        }
        S = pending.back();
        pending.pop_back();
        facts = &S->facts;
        cache_flush();
        try {
            run_state();
            finish_path();
        } catch (Kill&) {
            if (elapsed() > opt_time) incomplete["time or memory budget exhausted"]++;
        }
        u64 p = __sync_add_and_fetch(&sh->paths, 1);
        if (p > opt_max_paths) { sh->stop = 1; incomplete["path limit"]++; }
        free_state(S);
        S = nullptr;
        facts = &no_facts;
        maybe_split(2);
    }
}

// ---------------------------------------------------------------- output
static std::unordered_map<std::string, std::pair<u64, double>> prof; // developer aid
static void prof_query(double dt, Expr*) {
    std::string w;
    for (size_t i = S->fr.size(); i-- > 0 && i + 4 > S->fr.size();) w += short_name(S->fr[i].f).substr(0, 70) + " < ";
    auto& p = prof[w];
    p.first++;
    p.second += dt;
}
static void prof_dump() {
    FILE* f = fopen((std::string(getenv("SYMX_PROF")) + "." + std::to_string(getpid())).c_str(), "w");
    if (!f) return;
    for (auto& p : prof) fprintf(f, "%llu\t%.3f\t%s\n", (unsigned long long)p.second.first, p.second.second, p.first.c_str());
    fclose(f);
}
static std::string jesc(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
// a partial result is a line-oriented list of JSON fragments merged by the parent process' reader
static void write_json(FILE* f) {
    fprintf(f, "{\"paths\":%llu,\"forks\":%llu,\"instrs\":%llu,\"assume_killed\":%llu,\"branches\":%llu,\"ite_loads\":%llu,", (unsigned long long)n_paths,
        (unsigned long long)n_forks, (unsigned long long)n_instrs, (unsigned long long)n_killed_assume, (unsigned long long)n_branches, (unsigned long long)n_loads_ite);
    fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"solver_s\":%.3f,",
        (unsigned long long)SS.queries, (unsigned long long)SS.sat, (unsigned long long)SS.unsat, (unsigned long long)SS.unknown,
        (unsigned long long)SS.cache_hits, (unsigned long long)SS.model_hits, SS.seconds);
    fprintf(f, "\"covers\":[");
    bool first = true;
    for (auto& c : covers) { fprintf(f, "%s%s", first ? "" : ",", jesc(c).c_str()); first = false; }
    fprintf(f, "],\"incomplete\":{");
    first = true;
    for (auto& c : incomplete) { fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"violations\":[");
    first = true;
    for (auto& l : violations)
        for (auto& v : l.second) {
            fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"inputs\":%s,\"stack\":[", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.inputs).c_str());
            for (size_t i = 0; i < v.stack.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jesc(v.stack[i]).c_str());
            fprintf(f, "],\"notes\":[");
            for (size_t i = 0; i < v.notes.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jesc(v.notes[i]).c_str());
            fprintf(f, "]}");
            first = false;
        }
    fprintf(f, "],\"samples\":[");
    first = true;
    for (auto& s : samples) { fprintf(f, "%s{\"inputs\":%s,\"obs\":%s}", first ? "" : ",", jesc(s.inputs).c_str(), jesc(s.obs).c_str()); first = false; }
    fprintf(f, "],\"functions\":[");
    first = true;
    for (Func* x : funcs)
        if (x->ran_sym && x->name.compare(0, 6, "_ZN4ti") == 0) { fprintf(f, "%s%s", first ? "" : ",", jesc(short_name(x)).c_str()); first = false; }
    fprintf(f, "],\"cfunctions\":[");
    first = true;
    for (Func* x : funcs)
        if (x->ran_sym && (x->name.compare(0, 5, "tiro_") == 0 || x->name.compare(0, 7, "_ZNK4ti") == 0)) { fprintf(f, "%s%s", first ? "" : ",", jesc(short_name(x)).c_str()); first = false; }
    fprintf(f, "],\"pid\":%d,\"elapsed\":%.2f}\n", getpid(), elapsed());
}
static void write_partial(int id) {
    std::string p = opt_out + "." + std::to_string(id);
    if (solver_prof) prof_dump();
    FILE* f = fopen((p + ".tmp").c_str(), "w");
    if (!f) _exit(71);
    write_json(f);
    fclose(f);
    rename((p + ".tmp").c_str(), p.c_str());
    if (opt_profile && id == 0) {
        std::vector<Func*> v(funcs);
        std::sort(v.begin(), v.end(), [](Func* a, Func* b) { return a->prof > b->prof; });
        for (size_t i = 0; i < 40 && i < v.size() && v[i]->prof; ++i)
            fprintf(stderr, "%12llu %s\n", (unsigned long long)v[i]->prof, fname(v[i]).c_str());
    }
}

// ---------------------------------------------------------------- setup
static void init_const(u64 addr, const Constant* c);
static void init_const(u64 addr, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    Type* t = c->getType();
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = d->getRawDataValues();
        Obj* o = lookup_w(addr >> 32);
        u32 off = (u32)addr;
        for (size_t i = 0; i < raw.size(); ++i) o->wpage((off + i) >> 12)->data[(off + i) & 4095] = raw[i];
        return;
    }
    if (isa<ConstantStruct>(c)) {
        const StructLayout* sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < c->getNumOperands(); ++i) init_const(addr + sl->getElementOffset(i), cast<Constant>(c->getOperand(i)));
        return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        Type* et = isa<ConstantArray>(c) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
        u64 sz = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < c->getNumOperands(); ++i) init_const(addr + i * sz, cast<Constant>(c->getOperand(i)));
        return;
    }
    std::vector<Val> v;
    const_slots(c, v);
    unsigned w = swidth(t);
    u32 n = DL->getTypeStoreSize(t);
    Obj* o = lookup_w(addr >> 32);
    if (w > 64) {
        for (u32 i = 0; i < n; ++i) o->wpage(((u32)addr + i) >> 12)->data[((u32)addr + i) & 4095] = (u8)(v[0].e->v >> (8 * i));
    } else
        store_at(o, (u32)addr, n, v[0], w);
}

int main(int argc, char** argv) {
    t_start = std::chrono::steady_clock::now();
    std::string file, entry = "main";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--out") opt_out = nx();
        else if (a == "--entry") entry = nx();
        else if (a == "--time") opt_time = atof(argv[++i]);
        else if (a == "--procs") opt_procs = atoi(argv[++i]);
        else if (a == "--max-icount") opt_max_icount = strtoull(argv[++i], 0, 10);
        else if (a == "--max-paths") opt_max_paths = strtoull(argv[++i], 0, 10);
        else if (a == "--enum") opt_enum = atoi(argv[++i]);
        else if (a == "--samples") opt_samples = atoi(argv[++i]);
        else if (a == "--mem-mb") opt_mem_mb = strtoull(argv[++i], 0, 10);
        else if (a == "--solver-ms") solver_timeout_ms = atoi(argv[++i]);
        else if (a == "--seed") { rng ^= strtoull(argv[++i], 0, 10) * 0x9E3779B97F4A7C15ull; if (!rng) rng = 1; }
        else if (a == "--profile") opt_profile = true;
        else if (a == "--trace") opt_trace = true;
        else file = a;
    }
    if (opt_out.empty()) opt_out = "/dev/stdout";
    register_builtins();
    if (getenv("SYMX_PROF")) solver_prof = prof_query;
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> mod = parseIRFile(file, err, ctx);
    if (!mod) { err.print("symx", errs()); return 70; }
    M = mod.get();
    DL = &M->getDataLayout();
    sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->active = 1;
    solver_time_left = [] { return opt_time - elapsed(); };
    setpgid(0, 0);
    prctl(PR_SET_CHILD_SUBREAPER, 1);

    State* st = new State;
    S = st;
    st->root = Node::make();
    st->next_id = 16;
    st->model = std::make_shared<Model>();
    for (Function& f : *M) get_func(&f);
    for (GlobalVariable& g : M->globals()) {
        u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
        if (g.isDeclaration()) sz = std::max<u64>(sz, 256);
        gaddr[&g] = new_obj(std::max<u64>(sz, 1), OBJ_GLOBAL, 0);
    }
    auto vt = [&](const char* n) -> u64 {
        GlobalVariable* g = M->getGlobalVariable(n);
        return g ? gaddr[g] + 16 : 1;
    };
    vt_class = vt("_ZTVN10__cxxabiv117__class_type_infoE");
    vt_si = vt("_ZTVN10__cxxabiv120__si_class_type_infoE");
    vt_vmi = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    errno_addr = new_obj(8, OBJ_GLOBAL, 0);
    if (GlobalVariable* g = M->getGlobalVariable("__libc_single_threaded")) store(cv(gaddr[g]), 1, cv(1), 8);
    for (GlobalVariable& g : M->globals())
        if (g.hasInitializer()) init_const(gaddr[&g], g.getInitializer());
    for (GlobalVariable& g : M->globals())
        if (g.hasInitializer() && g.isConstant()) lookup_w(gaddr[&g] >> 32)->flags |= OBJ_RO;
    if (GlobalVariable* g = M->getGlobalVariable("llvm.global_ctors"))
        if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer())) {
            std::vector<std::pair<u64, Func*>> v;
            for (unsigned i = 0; i < arr->getNumOperands(); ++i) {
                auto* s = cast<ConstantStruct>(arr->getOperand(i));
                if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()))
                    v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), get_func(f)});
            }
            std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : v) entries.push_back(p.second);
        }
    Function* mf = M->getFunction(entry);
    if (!mf) die("no entry %s", entry.c_str());
    entries.push_back(get_func(mf));
    pending.push_back(st);
    explore_loop();
    write_partial(0);
    __sync_sub_and_fetch(&sh->active, 1);
    // all workers are our children (subreaper)
    int wst, bad = 0;
    bool late = false;
    double t_end = std::max(elapsed(), opt_time) + 30;
    for (;;) {
        pid_t p = waitpid(-1, &wst, WNOHANG);
        if (p < 0) break;
        if (p == 0) {
            if (elapsed() > t_end) { fprintf(stderr, "symx: a worker does not finish\n"); late = true; signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); break; }
            usleep(5000);
            continue;
        }
        if (!WIFEXITED(wst) || WEXITSTATUS(wst)) { fprintf(stderr, "symx: worker %d failed: status %x\n", p, wst); bad = 1; }
    }
    printf("%d\n", sh->seq + 1); // number of partial results
    return bad ? 70 : late ? 71 : 0;
}
