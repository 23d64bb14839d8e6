#include "expr.h"
#include <cmath>
#include <cstdlib>

ExprCtx X;

ExprCtx::ExprCtx() { table.resize(1 << 16, nullptr); }

static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
static inline u64 hash_of(K k, unsigned w, Expr* a, Expr* b, Expr* c, u128 v) {
    u64 h = mix((u64)k * 1315423911u, w);
    h = mix(h, a ? a->id + 1 : 0);
    h = mix(h, b ? b->id + 1 : 0);
    h = mix(h, c ? c->id + 1 : 0);
    h = mix(h, (u64)v);
    h = mix(h, (u64)(v >> 64));
    return h;
}

void ExprCtx::grow() {
    std::vector<Expr*> old;
    old.swap(table);
    table.assign(old.size() * 2, nullptr);
    size_t m = table.size() - 1;
    for (Expr* e : old)
        if (e) {
            size_t i = hash_of(e->kind, e->width, e->a, e->b, e->c, e->v) & m;
            while (table[i]) i = (i + 1) & m;
            table[i] = e;
        }
}

bool hard_op(Expr* e) {
    switch (e->kind) {
    case K::Mul: return e->a->kind != K::Const && e->width >= 12;
    case K::UDiv: case K::SDiv: case K::URem: case K::SRem:
        return e->width >= 12 && !(e->b->kind == K::Const && (e->b->v & (e->b->v - 1)) == 0);
    case K::SMulOvf: case K::UMulOvf: return true;
    case K::FOeq: case K::FOlt: case K::FOle: case K::FUno: return false;
    default: return e->kind >= K::FAdd;
    }
}
double ffun(int id, double a, double b) {
    switch (id) {
    case 0: return std::fmod(a, b);
    case 1: return std::pow(a, b);
    case 2: return std::log(a);
    case 3: return std::sin(a);
    case 4: return std::cos(a);
    case 5: return std::tan(a);
    case 6: return std::asin(a);
    case 7: return std::acos(a);
    case 8: return std::atan(a);
    case 9: return std::exp(a);
    case 10: return std::log2(a);
    case 11: return std::log10(a);
    case 12: return std::atan2(a, b);
    default: return 0;
    }
}

Expr* ExprCtx::mk(K k, unsigned w, Expr* a, Expr* b, Expr* c, u128 v) {
    size_t m = table.size() - 1;
    size_t i = hash_of(k, w, a, b, c, v) & m;
    while (Expr* e = table[i]) {
        if (e->kind == k && e->width == w && e->a == a && e->b == b && e->c == c && e->v == v)
            return e;
        i = (i + 1) & m;
    }
    const size_t per = 4096;
    if (slabs.empty() || slab_used == per) {
        slabs.push_back((char*)aligned_alloc(64, per * sizeof(Expr)));
        slab_used = 0;
    }
    Expr* e = (Expr*)(slabs.back() + slab_used++ * sizeof(Expr));
    e->kind = k;
    e->width = w;
    e->id = count;
    e->a = a;
    e->b = b;
    e->c = c;
    e->v = v;
    e->z = nullptr;
    e->stamp = 0;
    e->fp = (k >= K::FAdd && k != K::SMulOvf && k != K::UMulOvf) || (a && a->fp) || (b && b->fp) || (c && c->fp);
    e->za = nullptr;
    e->hard = hard_op(e) || (a && a->hard) || (b && b->hard) || (c && c->hard);
    e->mask = (a ? a->mask : 0) | (b ? b->mask : 0) | (c ? c->mask : 0);
    if (k == K::Var) e->mask |= 1ull << (vars[(u32)v].array % 64);
    table[i] = e;
    ++count;
    if (count * 2 > table.size()) grow();
    return e;
}

Expr* ExprCtx::cst(u128 v, unsigned w) { return mk(K::Const, w, 0, 0, 0, v & wmask(w)); }
Expr* ExprCtx::var(u32 idx) { return mk(K::Var, 8, 0, 0, 0, idx); }
u32 ExprCtx::new_array(const std::string& name, u32 size) {
    u32 id = arrays.size();
    arrays.push_back({name, size, (u32)vars.size()});
    for (u32 i = 0; i < size; ++i) vars.push_back({id, i});
    return id;
}

static double asd(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asf(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 ofd(double d) { if (std::isnan(d)) return 0x7ff8000000000000ull; u64 x; memcpy(&x, &d, 8); return x; }
static u128 off_(float d) { if (std::isnan(d)) return 0x7fc00000u; u32 x; memcpy(&x, &d, 4); return x; }

bool fold(K k, unsigned w, unsigned wa, unsigned wb, u128 a, u128 b, u128 c, u128 imm, u128& o) {
    u128 m = wmask(w);
    switch (k) {
    case K::Add: o = (a + b) & m; return true;
    case K::Sub: o = (a - b) & m; return true;
    case K::Mul: o = (a * b) & m; return true;
    case K::UDiv: o = b ? (a / b) & m : m; return true;
    case K::URem: o = b ? (a % b) & m : a; return true;
    case K::SDiv: {
        i128 x = sext128(a, w), y = sext128(b, w);
        if (y == 0) o = x < 0 ? 1 : m;
        else if (y == -1) o = (u128)(-(u128)x) & m;
        else o = (u128)(x / y) & m;
        return true;
    }
    case K::SRem: {
        i128 x = sext128(a, w), y = sext128(b, w);
        if (y == 0) o = a;
        else if (y == -1) o = 0;
        else o = (u128)(x % y) & m;
        return true;
    }
    case K::And: o = a & b; return true;
    case K::Or: o = a | b; return true;
    case K::Xor: o = a ^ b; return true;
    case K::Shl: o = b >= w ? 0 : (a << (unsigned)b) & m; return true;
    case K::LShr: o = b >= w ? 0 : (a >> (unsigned)b) & m; return true;
    case K::AShr: {
        i128 x = sext128(a, w);
        o = (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m;
        return true;
    }
    case K::Eq: o = a == b; return true;
    case K::Ult: o = a < b; return true;
    case K::Ule: o = a <= b; return true;
    case K::Slt: o = sext128(a, wa) < sext128(b, wa); return true;
    case K::Sle: o = sext128(a, wa) <= sext128(b, wa); return true;
    case K::ZExt: o = a; return true;
    case K::SExt: o = (u128)sext128(a, wa) & m; return true;
    case K::Extract: o = (a >> (unsigned)imm) & m; return true;
    case K::Concat: o = ((a << wb) | b) & m; return true;
    case K::Ite: o = a ? b : c; return true;
    case K::FAdd: o = w == 64 ? ofd(asd(a) + asd(b)) : off_(asf(a) + asf(b)); return true;
    case K::FSub: o = w == 64 ? ofd(asd(a) - asd(b)) : off_(asf(a) - asf(b)); return true;
    case K::FMul: o = w == 64 ? ofd(asd(a) * asd(b)) : off_(asf(a) * asf(b)); return true;
    case K::FDiv: o = w == 64 ? ofd(asd(a) / asd(b)) : off_(asf(a) / asf(b)); return true;
    case K::FSqrt: o = w == 64 ? ofd(std::sqrt(asd(a))) : off_(std::sqrt(asf(a))); return true;
    case K::FOeq: o = wa == 64 ? asd(a) == asd(b) : asf(a) == asf(b); return true;
    case K::FOlt: o = wa == 64 ? asd(a) < asd(b) : asf(a) < asf(b); return true;
    case K::FOle: o = wa == 64 ? asd(a) <= asd(b) : asf(a) <= asf(b); return true;
    case K::FUno:
        o = wa == 64 ? (std::isnan(asd(a)) || std::isnan(asd(b)))
                     : (std::isnan(asf(a)) || std::isnan(asf(b)));
        return true;
    case K::FPToSI:
    case K::FPToUI: {
        double d = wa == 64 ? asd(a) : asf(a);
        // x86 "integer indefinite" for out of range conversions (flagged separately as UB)
        if (std::isnan(d)) { o = (u128)1 << (w - 1); return true; }
        if (k == K::FPToSI) {
            double lim = std::ldexp(1.0, w - 1);
            if (!(d > -lim - 1 && d < lim) || d < -lim) { o = (u128)1 << (w - 1); return true; }
            o = (u128)(i128)d & m;
        } else {
            double lim = std::ldexp(1.0, w);
            if (!(d > -1 && d < lim)) { o = (u128)1 << (w - 1); return true; }
            o = (u128)d & m;
        }
        return true;
    }
    case K::SIToFP:
        o = w == 64 ? ofd((double)sext64((u64)a, wa)) : off_((float)sext64((u64)a, wa));
        return true;
    case K::UIToFP: o = w == 64 ? ofd((double)(u64)a) : off_((float)(u64)a); return true;
    case K::FPExt: o = ofd((double)asf(a)); return true;
    case K::FPTrunc: o = off_((float)asd(a)); return true;
    case K::FFun: o = ofd(ffun((int)imm, asd(a), asd(b))); return true;
    case K::SMulOvf: {
        i64 r;
        i128 z = (i128)sext64((u64)a, wa) * sext64((u64)b, wa);
        o = z != (i128)sext64((u64)z & wmask64(wa), wa);
        return true;
    }
    case K::UMulOvf: o = (u128)(u64)a * (u64)b > (u128)wmask64(wa); return true;
    case K::FRound: {
        double d = w == 64 ? asd(a) : asf(a), r;
        switch ((int)imm) {
        case 0: r = std::floor(d); break;
        case 1: r = std::ceil(d); break;
        case 2: r = std::trunc(d); break;
        case 3: r = std::round(d); break;
        default: r = std::nearbyint(d); break;
        }
        o = w == 64 ? ofd(r) : off_((float)r);
        return true;
    }
    default: return false;
    }
}

static inline bool isc(Expr* e) { return e->kind == K::Const; }

u128 umaxval(Expr* e) {
    switch (e->kind) {
    case K::Const: return e->v;
    case K::ZExt: return umaxval(e->a);
    case K::And: {
        u128 x = umaxval(e->a), y = umaxval(e->b);
        return x < y ? x : y;
    }
    case K::URem: if (isc(e->b) && e->b->v) return e->b->v - 1; break;
    case K::UDiv: if (isc(e->b) && e->b->v) return umaxval(e->a) / e->b->v; break;
    case K::LShr: if (isc(e->b) && e->b->v < e->width) return umaxval(e->a) >> (unsigned)e->b->v; break;
    case K::Ite: {
        u128 x = umaxval(e->b), y = umaxval(e->c);
        return x > y ? x : y;
    }
    default: break;
    }
    return wmask(e->width);
}

Expr* ExprCtx::lnot(Expr* a) {
    if (isc(a)) return cst(!a->v, 1);
    if (a->kind == K::Eq && a->a->kind == K::Const && a->a->width == 1 && a->a->v == 0)
        return a->b;
    switch (a->kind) { // keep comparisons positive
    case K::Ult: return cmp(K::Ule, a->b, a->a);
    case K::Ule: return cmp(K::Ult, a->b, a->a);
    case K::Slt: return cmp(K::Sle, a->b, a->a);
    case K::Sle: return cmp(K::Slt, a->b, a->a);
    default: break;
    }
    return mk(K::Eq, 1, cst(0, 1), a);
}

Expr* ExprCtx::zext(Expr* a, unsigned w) {
    if (a->width == w) return a;
    if (isc(a)) return cst(a->v, w);
    if (a->kind == K::ZExt) return mk(K::ZExt, w, a->a);
    return mk(K::ZExt, w, a);
}
Expr* ExprCtx::sext(Expr* a, unsigned w) {
    if (a->width == w) return a;
    if (isc(a)) return cst((u128)sext128(a->v, a->width), w);
    if (a->kind == K::SExt) return mk(K::SExt, w, a->a);
    if (a->kind == K::ZExt) return mk(K::ZExt, w, a->a);
    return mk(K::SExt, w, a);
}
Expr* ExprCtx::extract(Expr* a, unsigned off, unsigned w) {
    if (off == 0 && w == a->width) return a;
    if (isc(a)) return cst(a->v >> off, w);
    switch (a->kind) {
    case K::Extract: return extract(a->a, off + (unsigned)a->v, w);
    case K::Concat: {
        unsigned lw = a->b->width;
        if (off + w <= lw) return extract(a->b, off, w);
        if (off >= lw) return extract(a->a, off - lw, w);
        return concat(extract(a->a, 0, off + w - lw), extract(a->b, off, lw - off));
    }
    case K::ZExt: {
        unsigned iw = a->a->width;
        if (off >= iw) return cst(0, w);
        if (off + w <= iw) return extract(a->a, off, w);
        return zext(extract(a->a, off, iw - off), w);
    }
    case K::SExt: {
        unsigned iw = a->a->width;
        if (off + w <= iw) return extract(a->a, off, w);
        if (off < iw) return sext(extract(a->a, off, iw - off), w);
        break;
    }
    case K::And: case K::Or: case K::Xor:
        return bin(a->kind, extract(a->a, off, w), extract(a->b, off, w));
    case K::Mul:
            if (hard_op(a)) break; // keep hard operations shared
            [[fallthrough]];
        case K::Add: case K::Sub:
        if (off == 0) return bin(a->kind, extract(a->a, 0, w), extract(a->b, 0, w));
        break;
    case K::Shl:
        if (isc(a->b) && a->b->v < a->width) {
            unsigned s = (unsigned)a->b->v;
            if (off >= s) return extract(a->a, off - s, w);
            if (off + w <= s) return cst(0, w);
        }
        break;
    case K::LShr:
        if (isc(a->b) && a->b->v < a->width) {
            unsigned s = (unsigned)a->b->v;
            if (off + s + w <= a->width) return extract(a->a, off + s, w);
            if (off + s >= a->width) return cst(0, w);
        }
        break;
    case K::AShr:
        if (isc(a->b) && a->b->v < a->width) {
            unsigned s = (unsigned)a->b->v;
            if (off + s + w <= a->width) return extract(a->a, off + s, w);
        }
        break;
    case K::Ite:
        if (isc(a->b) || isc(a->c) || a->b->kind == K::Concat || a->c->kind == K::Concat)
            return ite(a->a, extract(a->b, off, w), extract(a->c, off, w));
        break;
    default: break;
    }
    return mk(K::Extract, w, a, 0, 0, off);
}
Expr* ExprCtx::concat(Expr* hi, Expr* lo) {
    unsigned w = hi->width + lo->width;
    if (isc(hi) && isc(lo)) return cst((hi->v << lo->width) | lo->v, w);
    if (isc(hi) && hi->v == 0) return zext(lo, w);
    // adjacent extracts
    if (hi->kind == K::Extract) {
        if (lo->kind == K::Extract && hi->a == lo->a && (unsigned)hi->v == (unsigned)lo->v + lo->width)
            return extract(hi->a, (unsigned)lo->v, w);
        if (lo == hi->a && false) return lo;
        if (lo->kind == K::Concat && lo->a->kind == K::Extract && lo->a->a == hi->a
            && (unsigned)hi->v == (unsigned)lo->a->v + lo->a->width)
            return concat(extract(hi->a, (unsigned)lo->a->v, hi->width + lo->a->width), lo->b);
    }
    if (hi->kind == K::ZExt && hi->a->kind == K::Extract && lo->kind == K::Extract
        && hi->a->a == lo->a && (unsigned)hi->a->v == (unsigned)lo->v + lo->width)
        return zext(extract(lo->a, (unsigned)lo->v, lo->width + hi->a->width), w);
    if (hi->kind == K::ZExt) return zext(concat(hi->a, lo), w);
    if (hi->kind == K::Ite && lo->kind == K::Ite && hi->a == lo->a)
        return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    // normalise to right-nested? keep hi-left: concat(concat(a,b),c) -> concat(a,concat(b,c))
    if (hi->kind == K::Concat) return concat(hi->a, concat(hi->b, lo));
    return mk(K::Concat, w, hi, lo);
}

Expr* ExprCtx::ite(Expr* c, Expr* t, Expr* f) {
    if (isc(c)) return c->v ? t : f;
    if (t == f) return t;
    if (t->width == 1) {
        if (isc(t) && isc(f)) return t->v ? c : lnot(c);
        if (isc(t)) return t->v ? bin(K::Or, c, f) : bin(K::And, lnot(c), f);
        if (isc(f)) return f->v ? bin(K::Or, lnot(c), t) : bin(K::And, c, t);
    }
    if (c->kind == K::Eq && c->a->width == 1 && isc(c->a) && c->a->v == 0)
        return ite(c->b, f, t);
    if (t->kind == K::Ite && t->a == c) return ite(c, t->b, f);
    if (f->kind == K::Ite && f->a == c) return ite(c, t, f->c);
    if (f->kind == K::Ite && f->b == t) return ite(bin(K::Or, c, f->a), t, f->c);
    return mk(K::Ite, t->width, c, t, f);
}

static u128 mul_inverse(u128 a) { // of an odd number modulo 2^128, hence modulo every smaller power of two
    u128 x = a;
    for (int i = 0; i < 7; ++i) x *= 2 - a * x;
    return x;
}

Expr* ExprCtx::cmp(K k, Expr* a, Expr* b) {
    u128 o;
    if (isc(a) && isc(b)) {
        fold(k, 1, a->width, b->width, a->v, b->v, 0, 0, o);
        return cst(o, 1);
    }
    unsigned w = a->width;
    if (a == b) return cst(k == K::Eq || k == K::Ule || k == K::Sle, 1);
    if (k == K::Eq) {
        if (isc(b)) std::swap(a, b); // constant first
        if (!isc(a) && a->id > b->id) std::swap(a, b);
        if (isc(a)) {
            if (w == 1) return a->v ? b : lnot(b);
            switch (b->kind) {
            case K::ZExt:
                if (a->v > wmask(b->a->width)) return cst(0, 1);
                return cmp(K::Eq, cst(a->v, b->a->width), b->a);
            case K::SExt: {
                u128 t = a->v & wmask(b->a->width);
                if (((u128)sext128(t, b->a->width) & wmask(w)) != a->v) return cst(0, 1);
                return cmp(K::Eq, cst(t, b->a->width), b->a);
            }
            case K::Concat:
                return bin(K::And, cmp(K::Eq, cst(a->v >> b->b->width, b->a->width), b->a),
                    cmp(K::Eq, cst(a->v, b->b->width), b->b));
            case K::Add:
                if (isc(b->a)) return cmp(K::Eq, cst(a->v - b->a->v, w), b->b);
                break;
            case K::Sub:
                if (isc(b->a)) return cmp(K::Eq, cst(b->a->v - a->v, w), b->b);
                if (a->v == 0) return cmp(K::Eq, b->a, b->b);
                break;
            case K::Xor:
                if (isc(b->a)) return cmp(K::Eq, cst(a->v ^ b->a->v, w), b->b);
                break;
            case K::Mul: // odd factors are invertible
                if (isc(b->a) && (b->a->v & 1)) return cmp(K::Eq, cst(a->v * mul_inverse(b->a->v), w), b->b);
                break;
            case K::Ite:
                if (isc(b->b) && isc(b->c))
                    return ite(b->a, cst(a->v == b->b->v, 1), cst(a->v == b->c->v, 1));
                if (isc(b->b) && b->b->v != a->v) return bin(K::And, lnot(b->a), cmp(K::Eq, a, b->c));
                if (isc(b->c) && b->c->v != a->v) return bin(K::And, b->a, cmp(K::Eq, a, b->b));
                if (isc(b->b) && b->b->v == a->v) return bin(K::Or, b->a, cmp(K::Eq, a, b->c));
                if (isc(b->c) && b->c->v == a->v) return bin(K::Or, lnot(b->a), cmp(K::Eq, a, b->b));
                break;
            case K::Shl:
                if (isc(b->b) && b->b->v < w) {
                    unsigned s = (unsigned)b->b->v;
                    if (a->v & wmask(s)) return cst(0, 1);
                    return cmp(K::Eq, cst(a->v >> s, w - s), extract(b->a, 0, w - s));
                }
                break;
            case K::Or: // (x | c) == v
                if (isc(b->a) && (b->a->v & ~a->v)) return cst(0, 1);
                break;
            case K::And:
                if (isc(b->a) && (a->v & ~b->a->v)) return cst(0, 1);
                break;
            default: break;
            }
            if (a->v > umaxval(b)) return cst(0, 1);
        } else if (a->kind == K::ZExt && b->kind == K::ZExt && a->a->width == b->a->width)
            return cmp(K::Eq, a->a, b->a);
        else if (a->kind == K::Mul && b->kind == K::Mul && isc(a->a) && a->a == b->a && (a->a->v & 1))
            return cmp(K::Eq, a->b, b->b);
        else if ((a->kind == K::Xor || a->kind == K::Add) && a->kind == b->kind && isc(a->a) && a->a == b->a)
            return cmp(K::Eq, a->b, b->b);
        return mk(K::Eq, 1, a, b);
    }
    if (k == K::Ult) {
        if (isc(b) && b->v == 0) return cst(0, 1);
        if (isc(b) && umaxval(a) < b->v) return cst(1, 1);
        if (isc(b) && b->v == 1) return cmp(K::Eq, cst(0, w), a);
        if (isc(a) && a->v == wmask(w)) return cst(0, 1);
        if (isc(a) && umaxval(b) <= a->v) return cst(0, 1);
    }
    if (k == K::Ule) {
        if (isc(a) && a->v == 0) return cst(1, 1);
        if (isc(b) && umaxval(a) <= b->v) return cst(1, 1);
        if (isc(a) && umaxval(b) < a->v) return cst(0, 1);
    }
    if (k == K::Slt || k == K::Sle) {
        // both non negative -> unsigned
        u128 sm = (u128)1 << (w - 1);
        if (umaxval(a) < sm && umaxval(b) < sm) return cmp(k == K::Slt ? K::Ult : K::Ule, a, b);
        if (k == K::Slt && isc(b) && b->v == sm) return cst(0, 1);
        if (k == K::Sle && isc(a) && a->v == sm) return cst(1, 1);
        if (k == K::Slt && isc(b) && b->v == 0 && umaxval(a) < sm) return cst(0, 1);
        if (a->kind == K::SExt && b->kind == K::SExt && a->a->width == b->a->width)
            return cmp(k, a->a, b->a);
    }
    if (k == K::Ult || k == K::Ule) {
        if (a->kind == K::ZExt && b->kind == K::ZExt && a->a->width == b->a->width)
            return cmp(k, a->a, b->a);
        if (a->kind == K::ZExt && isc(b) && b->v <= wmask(a->a->width))
            return cmp(k, a->a, cst(b->v, a->a->width));
        if (b->kind == K::ZExt && isc(a) && a->v <= wmask(b->a->width))
            return cmp(k, cst(a->v, b->a->width), b->a);
        if (a->kind == K::Ite && isc(b) && isc(a->b) && isc(a->c))
            return ite(a->a, cmp(k, a->b, b), cmp(k, a->c, b));
        if (b->kind == K::Ite && isc(a) && isc(b->b) && isc(b->c))
            return ite(b->a, cmp(k, a, b->b), cmp(k, a, b->c));
    }
    return mk(k, 1, a, b);
}

Expr* ExprCtx::bin(K k, Expr* a, Expr* b) {
    u128 o;
    unsigned w = a->width;
    if (isc(a) && isc(b)) {
        fold(k, w, w, w, a->v, b->v, 0, 0, o);
        return cst(o, w);
    }
    switch (k) {
    case K::Add: case K::Mul: case K::And: case K::Or: case K::Xor:
        if (isc(b)) std::swap(a, b); // constant first
        else if (!isc(a) && a->id > b->id) std::swap(a, b);
        break;
    default: break;
    }
    if (w == 1) {
        if (k == K::Add || k == K::Sub) k = K::Xor;
        if (k == K::Mul) k = K::And;
    }
    u128 all = wmask(w);
    switch (k) {
    case K::Add:
        if (isc(a)) {
            if (a->v == 0) return b;
            if (b->kind == K::Add && isc(b->a)) return bin(K::Add, cst(a->v + b->a->v, w), b->b);
            if (b->kind == K::Sub && isc(b->a)) return bin(K::Sub, cst(a->v + b->a->v, w), b->b);
            if (b->kind == K::Ite && isc(b->b) && isc(b->c))
                return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        } else {
            if (b->kind == K::Add && isc(b->a)) return bin(K::Add, b->a, bin(K::Add, a, b->b));
            if (a->kind == K::Add && isc(a->a)) return bin(K::Add, a->a, bin(K::Add, a->b, b));
            if (b->kind == K::Sub && b->b == a) return b->a;
            if (a->kind == K::Sub && a->b == b) return a->a;
        }
        break;
    case K::Sub:
        if (a == b) return cst(0, w);
        if (isc(b)) return bin(K::Add, cst(-b->v, w), a);
        if (a->kind == K::Add) {
            if (a->b == b) return a->a;
            if (a->a == b) return a->b;
            if (isc(a->a)) {
                if (b->kind == K::Add && isc(b->a))
                    return bin(K::Add, cst(a->a->v - b->a->v, w), bin(K::Sub, a->b, b->b));
                return bin(K::Add, a->a, bin(K::Sub, a->b, b));
            }
        }
        if (b->kind == K::Add && isc(b->a) && !isc(a))
            return bin(K::Add, cst(-b->a->v, w), bin(K::Sub, a, b->b));
        break;
    case K::Mul:
        if (isc(a)) {
            if (a->v == 0) return a;
            if (a->v == 1) return b;
            if ((a->v & (a->v - 1)) == 0) {
                unsigned s = 0;
                while (((a->v >> s) & 1) == 0) ++s;
                return bin(K::Shl, b, cst(s, w));
            }
            if (b->kind == K::Mul && isc(b->a)) return bin(K::Mul, cst(a->v * b->a->v, w), b->b);
        }
        break;
    case K::UDiv:
        if (isc(b) && b->v == 1) return a;
        if (isc(b) && b->v && (b->v & (b->v - 1)) == 0) {
            unsigned s = 0;
            while (((b->v >> s) & 1) == 0) ++s;
            return bin(K::LShr, a, cst(s, w));
        }
        if (isc(b) && b->v && umaxval(a) < b->v) return cst(0, w);
        if (isc(b) && b->v && a->kind == K::ZExt && b->v <= wmask(a->a->width))
            return zext(bin(k, a->a, cst(b->v, a->a->width)), w);
        break;
    case K::URem:
        if (isc(b) && b->v == 1) return cst(0, w);
        if (isc(b) && b->v && (b->v & (b->v - 1)) == 0) return bin(K::And, a, cst(b->v - 1, w));
        if (isc(b) && b->v && umaxval(a) < b->v) return a;
        if (isc(b) && b->v && a->kind == K::ZExt && b->v <= wmask(a->a->width))
            return zext(bin(k, a->a, cst(b->v, a->a->width)), w);
        break;
    case K::SDiv:
        if (isc(b) && b->v == 1) return a;
        break;
    case K::And:
        if (a == b) return a;
        if (isc(a)) {
            if (a->v == 0) return a;
            if (a->v == all) return b;
            if (b->kind == K::And && isc(b->a)) return bin(K::And, cst(a->v & b->a->v, w), b->b);
            // low mask -> zext(extract)
            if ((a->v & (a->v + 1)) == 0) {
                unsigned n = 0;
                while ((a->v >> n) & 1) ++n;
                return zext(extract(b, 0, n), w);
            }
            if (b->kind == K::ZExt) {
                u128 mm = wmask(b->a->width);
                return zext(bin(K::And, cst(a->v & mm, b->a->width), b->a), w);
            }
            if (b->kind == K::Concat) {
                unsigned lw = b->b->width;
                return concat(bin(K::And, cst(a->v >> lw, w - lw), b->a), bin(K::And, cst(a->v, lw), b->b));
            }
            if (b->kind == K::Ite && isc(b->b) && isc(b->c))
                return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        }
        if (w == 1) {
            if (a == lnot(b)) return cst(0, 1);
            if (b->kind == K::And && (b->a == a || b->b == a)) return b;
            if (a->kind == K::And && (a->a == b || a->b == b)) return a;
        }
        break;
    case K::Or:
        if (a == b) return a;
        if (isc(a)) {
            if (a->v == 0) return b;
            if (a->v == all) return a;
            if (b->kind == K::Or && isc(b->a)) return bin(K::Or, cst(a->v | b->a->v, w), b->b);
            if (b->kind == K::Ite && isc(b->b) && isc(b->c))
                return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
            if (b->kind == K::Concat) {
                unsigned lw = b->b->width;
                return concat(bin(K::Or, cst(a->v >> lw, w - lw), b->a), bin(K::Or, cst(a->v, lw), b->b));
            }
            if (b->kind == K::ZExt && (a->v & wmask(b->a->width)) == 0)
                return concat(cst(a->v >> b->a->width, w - b->a->width), b->a);
        } else {
            // disjoint shifted parts: (x << n) | zext(y) with y narrower than n
            for (int s = 0; s < 2; ++s) {
                Expr *p = s ? b : a, *q = s ? a : b;
                if (q->kind == K::ZExt && p->kind == K::Shl && isc(p->b) && p->b->v < w
                    && q->a->width <= p->b->v) {
                    unsigned sh = (unsigned)p->b->v;
                    return concat(extract(p->a, 0, w - sh), zext(q->a, sh));
                }
                if (q->kind == K::ZExt && p->kind == K::Concat && isc(p->b) && p->b->v == 0
                    && q->a->width <= p->b->width)
                    return concat(p->a, zext(q->a, p->b->width));
                if (q->kind == K::ZExt && p->kind == K::ZExt && p->a->kind == K::Concat && isc(p->a->b)
                    && p->a->b->v == 0 && q->a->width <= p->a->b->width)
                    return zext(concat(p->a->a, zext(q->a, p->a->b->width)), w);
            }
        }
        if (w == 1) {
            if (a == lnot(b)) return cst(1, 1);
            if (b->kind == K::Or && (b->a == a || b->b == a)) return b;
            if (a->kind == K::Or && (a->a == b || a->b == b)) return a;
        }
        break;
    case K::Xor:
        if (a == b) return cst(0, w);
        if (isc(a)) {
            if (a->v == 0) return b;
            if (w == 1) return lnot(b);
            if (b->kind == K::Xor && isc(b->a)) return bin(K::Xor, cst(a->v ^ b->a->v, w), b->b);
            if (b->kind == K::Ite && isc(b->b) && isc(b->c))
                return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        }
        break;
    case K::Shl:
        if (isc(a) && a->v == 0) return a;
        if (isc(b)) {
            if (b->v == 0) return a;
            if (b->v >= w) return cst(0, w);
            unsigned s = (unsigned)b->v;
            return concat(extract(a, 0, w - s), cst(0, s));
        }
        break;
    case K::LShr:
        if (isc(a) && a->v == 0) return a;
        if (isc(b)) {
            if (b->v == 0) return a;
            if (b->v >= w) return cst(0, w);
            unsigned s = (unsigned)b->v;
            return zext(extract(a, s, w - s), w);
        }
        break;
    case K::AShr:
        if (isc(b)) {
            if (b->v == 0) return a;
            unsigned s = b->v >= w ? w - 1 : (unsigned)b->v;
            return sext(extract(a, s, w - s), w);
        }
        break;
    default: break;
    }
    return mk(k, w, a, b);
}

Expr* ExprCtx::fpop(K k, unsigned w, Expr* a, Expr* b, u128 v) {
    if (isc(a) && (!b || isc(b))) {
        u128 o;
        if (fold(k, w, a->width, b ? b->width : 0, a->v, b ? b->v : 0, 0, v, o)) return cst(o, w);
    }
    return mk(k, w, a, b, nullptr, v);
}

u128 ExprCtx::eval_rec(Expr* e, const std::vector<u8>& m) {
    if (e->kind == K::Const) return e->v;
    if (e->stamp == eval_stamp) return e->ev;
    u128 r = 0;
    if (e->kind == K::Var) {
        u32 i = (u32)e->v;
        r = i < m.size() ? m[i] : 0;
    } else if (e->kind == K::Ite) {
        r = eval_rec(e->a, m) ? eval_rec(e->b, m) : eval_rec(e->c, m);
    } else {
        u128 a = eval_rec(e->a, m), b = e->b ? eval_rec(e->b, m) : 0;
        fold(e->kind, e->width, e->a->width, e->b ? e->b->width : 0, a, b, 0, e->v, r);
    }
    e->stamp = eval_stamp;
    e->ev = r;
    return r;
}
u128 ExprCtx::eval(Expr* e, const std::vector<u8>& m) { return eval_rec(e, m); }
