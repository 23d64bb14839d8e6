// main interpreter loop; included by interp.cpp
#define OPV(i) ((i) >= 0 ? R[i] : Kp[~(i)])
#define RELOAD() do { F = &S->fr.back(); R = S->regs.data() + F->base; Kp = F->f->K.data(); code = F->f->code.data(); } while (0)

static inline i64 SX(u64 v, unsigned w) { return sext64(v, w); }
static float asf_(u64 c) { u32 x = (u32)c; float f; memcpy(&f, &x, 4); return f; }

static void run_state() {
    Frame* F;
    Val* R;
    const Val* Kp;
    const Inst* code;
    u64 local = 0;
    if (S->fr.empty()) {
        if (S->next_entry >= entries.size()) return;
        push_frame(entries[S->next_entry++], nullptr, 0);
    }
    RELOAD();
    for (;;) {
        const Inst& I = code[F->pc];
        if (++local == 4096) {
            n_instrs += local;
            S->icount += local;
            F->f->prof += local;
            local = 0;
            if (S->icount > opt_max_icount) {
                // confirmed or refuted by the native run
                violation("hang", "the program does not terminate", *S->model);
                throw Kill{};
            }
            static u32 tick;
            if ((++tick & 255) == 0 && over_limits()) {
                incomplete["time or memory budget exhausted"]++;
                throw Kill{};
            }
        }
        switch (I.op) {
        case O_NOP: ++F->pc; break;
        case O_MOV: R[I.dst] = OPV(I.a); ++F->pc; break;
#define ARITH(OP, KIND, CEXPR)                                                     \
    case OP: {                                                                     \
        const Val &x = OPV(I.a), &y = OPV(I.b);                                    \
        if (__builtin_expect(!x.e && !y.e, 1)) {                                   \
            R[I.dst] = cv((CEXPR) & wmask64(I.w));                                 \
        } else                                                                     \
            R[I.dst] = mkval(X.bin(KIND, ex(x, I.w), ex(y, I.w)));                 \
        ++F->pc;                                                                   \
        break;                                                                     \
    }
        ARITH(O_ADD, K::Add, x.c + y.c)
        ARITH(O_SUB, K::Sub, x.c - y.c)
        case O_MUL: {
            const Val &x = OPV(I.a), &y = OPV(I.b);
            if (__builtin_expect(!x.e && !y.e, 1)) R[I.dst] = cv((x.c * y.c) & wmask64(I.w));
            else {
                Expr *p = ex(x, I.w), *q = ex(y, I.w);
                if (p->kind != K::Const && q->kind != K::Const) { p = canon(p); q = canon(q); }
                R[I.dst] = mkval(X.bin(K::Mul, p, q));
            }
            ++F->pc;
            break;
        }
        ARITH(O_AND, K::And, x.c & y.c)
        ARITH(O_OR, K::Or, x.c | y.c)
        ARITH(O_XOR, K::Xor, x.c ^ y.c)
        ARITH(O_SHL, K::Shl, y.c >= I.w ? 0 : x.c << y.c)
        ARITH(O_LSHR, K::LShr, y.c >= I.w ? 0 : x.c >> y.c)
        ARITH(O_ASHR, K::AShr, (u64)(SX(x.c, I.w) >> (y.c >= I.w ? I.w - 1 : y.c)))
        case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
            Val x = OPV(I.a), y = OPV(I.b);
            unsigned w = I.w;
            bool sg = I.op == O_SDIV || I.op == O_SREM;
            if (!x.e && !y.e) {
                if (y.c == 0 || (sg && SX(y.c, w) == -1 && x.c == 1ull << (w - 1))) {
                    violation("ub", y.c == 0 ? "division by zero" : "signed division overflow", *S->model);
                    throw Kill{};
                }
                u64 v;
                if (I.op == O_UDIV) v = x.c / y.c;
                else if (I.op == O_UREM) v = x.c % y.c;
                else if (I.op == O_SDIV) v = (u64)(SX(x.c, w) / SX(y.c, w));
                else v = (u64)(SX(x.c, w) % SX(y.c, w));
                R[I.dst] = cv(v & wmask64(w));
            } else {
                Expr *a = ex(x, w), *b = ex(y, w);
                if (w >= 32) { a = canon(a); b = canon(b); }
                require(X.lnot(X.cmp(K::Eq, X.cst(0, w), b)), "ub", "division by zero");
                if (sg) {
                    Expr* bad = X.bin(K::And, X.cmp(K::Eq, X.cst(wmask(w), w), b), X.cmp(K::Eq, X.cst((u128)1 << (w - 1), w), a));
                    require(X.lnot(bad), "ub", "signed division overflow");
                }
                K k = I.op == O_UDIV ? K::UDiv : I.op == O_SDIV ? K::SDiv : I.op == O_UREM ? K::URem : K::SRem;
                R[I.dst] = mkval(X.bin(k, a, b));
            }
            ++F->pc;
            break;
        }
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
            static const K ks[] = {K::FAdd, K::FSub, K::FMul, K::FDiv};
            R[I.dst] = mkval(X.fpop(ks[I.op - O_FADD], I.w, canon(ex(OPV(I.a), I.w)), canon(ex(OPV(I.b), I.w))));
            ++F->pc;
            break;
        }
        case O_FREM: {
            Val x = OPV(I.a), y = OPV(I.b);
            if (I.w != 64) { incomplete["float frem"]++; throw Kill{}; }
            if (x.e || y.e) { R[I.dst] = mkval(X.fpop(K::FFun, 64, canon(ex(x, 64)), canon(ex(y, 64)), 0)); ++F->pc; break; }
            R[I.dst] = cv(dv(std::fmod(asdv(x.c), asdv(y.c))));
            ++F->pc;
            break;
        }
        case O_FNEG: R[I.dst] = mkval(X.bin(K::Xor, ex(OPV(I.a), I.w), X.cst((u128)1 << (I.w - 1), I.w))); ++F->pc; break;
#define CMP(OP, CEXPR, SEXPR)                                                      \
    case OP: {                                                                     \
        const Val &x = OPV(I.a), &y = OPV(I.b);                                    \
        if (__builtin_expect(!x.e && !y.e, 1)) R[I.dst] = cv(CEXPR);               \
        else {                                                                     \
            Expr *p = ex(x, I.w), *q = ex(y, I.w);                                 \
            R[I.dst] = mkval(SEXPR);                                               \
        }                                                                          \
        ++F->pc;                                                                   \
        break;                                                                     \
    }
        CMP(O_EQ, x.c == y.c, X.cmp(K::Eq, p, q))
        CMP(O_NE, x.c != y.c, X.lnot(X.cmp(K::Eq, p, q)))
        CMP(O_UGT, x.c > y.c, X.cmp(K::Ult, q, p))
        CMP(O_UGE, x.c >= y.c, X.cmp(K::Ule, q, p))
        CMP(O_ULT, x.c < y.c, X.cmp(K::Ult, p, q))
        CMP(O_ULE, x.c <= y.c, X.cmp(K::Ule, p, q))
        CMP(O_SGT, SX(x.c, I.w) > SX(y.c, I.w), X.cmp(K::Slt, q, p))
        CMP(O_SGE, SX(x.c, I.w) >= SX(y.c, I.w), X.cmp(K::Sle, q, p))
        CMP(O_SLT, SX(x.c, I.w) < SX(y.c, I.w), X.cmp(K::Slt, p, q))
        CMP(O_SLE, SX(x.c, I.w) <= SX(y.c, I.w), X.cmp(K::Sle, p, q))
        case O_FCMP: {
            Expr *p = ex(OPV(I.a), I.w), *q = ex(OPV(I.b), I.w);
            unsigned pred = (unsigned)I.imm; // bit0 eq, bit1 gt, bit2 lt, bit3 unordered
            Expr* r = X.cst(0, 1);
            if (pred == CmpInst::FCMP_TRUE) r = X.cst(1, 1);
            else {
                unsigned m = pred & 7;
                if (m == 5) r = X.fpop(K::FOle, 1, p, q);
                else if (m == 3) r = X.fpop(K::FOle, 1, q, p);
                else if (m == 7) r = X.lnot(X.fpop(K::FUno, 1, p, q));
                else {
                    if (m & 1) r = X.bin(K::Or, r, X.fpop(K::FOeq, 1, p, q));
                    if (m & 2) r = X.bin(K::Or, r, X.fpop(K::FOlt, 1, q, p));
                    if (m & 4) r = X.bin(K::Or, r, X.fpop(K::FOlt, 1, p, q));
                }
                if (pred & 8) {
                    // unordered or <m>:  simplify common negations
                    if (m == 6) r = X.lnot(X.fpop(K::FOeq, 1, p, q)); // une
                    else if (m == 3) r = X.lnot(X.fpop(K::FOlt, 1, p, q));
                    else if (m == 2) r = X.lnot(X.fpop(K::FOle, 1, p, q));
                    else if (m == 5) r = X.lnot(X.fpop(K::FOlt, 1, q, p));
                    else if (m == 4) r = X.lnot(X.fpop(K::FOle, 1, q, p));
                    else r = X.bin(K::Or, r, X.fpop(K::FUno, 1, p, q));
                }
            }
            R[I.dst] = mkval(r);
            ++F->pc;
            break;
        }
        case O_SELECT: {
            const Val& c = OPV(I.a);
            if (!c.e) R[I.dst] = c.c & 1 ? OPV(I.b) : OPV(I.c);
            else {
                const Val &x = OPV(I.b), &y = OPV(I.c);
                if (x.e == y.e && x.c == y.c) R[I.dst] = x;
                else if (I.imm) {
                    bool v = decide(c.e);
                    RELOAD();
                    const Inst& J = code[F->pc];
                    R[J.dst] = v ? OPV(J.b) : OPV(J.c);
                } else
                    R[I.dst] = mkval(X.ite(c.e, ex(x, I.w), ex(y, I.w)));
            }
            ++F->pc;
            break;
        }
        case O_ZEXT: {
            const Val& x = OPV(I.a);
            if (!x.e && I.w <= 64) R[I.dst] = cv(x.c);
            else R[I.dst] = mkval(X.zext(ex(x, I.w2), I.w));
            ++F->pc;
            break;
        }
        case O_SEXT: {
            const Val& x = OPV(I.a);
            if (!x.e && I.w <= 64) R[I.dst] = cv((u64)SX(x.c, I.w2) & wmask64(I.w));
            else R[I.dst] = mkval(X.sext(ex(x, I.w2), I.w));
            ++F->pc;
            break;
        }
        case O_TRUNC: {
            const Val& x = OPV(I.a);
            if (!x.e) R[I.dst] = cv(x.c & wmask64(I.w));
            else R[I.dst] = mkval(X.extract(x.e, 0, I.w));
            ++F->pc;
            break;
        }
        case O_FPTOSI: case O_FPTOUI: case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC: {
            K k = I.op == O_FPTOSI ? K::FPToSI : I.op == O_FPTOUI ? K::FPToUI : I.op == O_SITOFP ? K::SIToFP
                : I.op == O_UITOFP ? K::UIToFP : I.op == O_FPEXT ? K::FPExt : K::FPTrunc;
            R[I.dst] = mkval(X.fpop(k, I.w, canon(ex(OPV(I.a), I.w2))));
            ++F->pc;
            break;
        }
        case O_BITCASTV: {
            u32 dn = I.b, sn = I.c;
            Expr* e = ex(OPV(I.a), I.w2);
            for (u32 k = 1; k < sn; ++k) {
                i32 o = I.a >= 0 ? I.a + (i32)k : ~(~I.a + (i32)k);
                e = X.concat(ex(OPV(o), I.w2), e);
            }
            for (u32 k = 0; k < dn; ++k) R[I.dst + k] = mkval(X.extract(e, k * I.w, I.w));
            ++F->pc;
            break;
        }
        case O_EXTRACTDYN: {
            u64 k = concretize(OPV(I.b), 64);
            RELOAD();
            const Inst& J = code[F->pc];
            i32 o = J.a >= 0 ? J.a + (i32)k : ~(~J.a + (i32)k);
            R[J.dst] = OPV(o);
            ++F->pc;
            break;
        }
        case O_ALLOCA: {
            u64 n = concretize(OPV(I.a), 64) * I.imm;
            u64 p = new_obj(n ? n : 1, OBJ_STACK, 0xA5);
            S->allocas.push_back(p >> 32);
            R[I.dst] = cv(p);
            ++F->pc;
            break;
        }
        case O_LOAD: {
            const Val& x = OPV(I.a);
            if (__builtin_expect(!x.e, 1)) {
                u64 ad = x.c + I.imm;
                u32 id = ad >> 32, off = (u32)ad;
                Obj* o = lookup(id);
                if (__builtin_expect(!o || (u64)off + (u32)I.b > o->size, 0)) mem_violation(ad, I.b, false, *S->model);
                Val v = load_at(o, off, I.b);
                if (I.w != (u32)I.b * 8) {
                    if (v.e) v = mkval(X.extract(v.e, 0, I.w));
                    else v.c &= wmask64(I.w);
                }
                R[I.dst] = v;
            } else {
                Expr* ad = I.imm ? X.bin(K::Add, x.e, X.cst(I.imm, 64)) : x.e;
                Val v = load_sym(ad, I.b, I.w, I.c);
                RELOAD();
                const Inst& J = code[F->pc];
                if (J.w != (u32)J.b * 8) {
                    if (v.e) v = mkval(X.extract(v.e, 0, J.w));
                    else v.c &= wmask64(J.w);
                }
                R[J.dst] = v;
            }
            ++F->pc;
            break;
        }
        case O_STORE: {
            const Val& x = OPV(I.a);
            const Val& v = OPV(I.b);
            if (__builtin_expect(!x.e, 1)) {
                u64 ad = x.c + I.imm;
                u32 id = ad >> 32, off = (u32)ad;
                Obj* o = lookup_w(id);
                if (__builtin_expect(!o || (u64)off + (u32)I.c > o->size || (o->flags & OBJ_RO), 0)) mem_violation(ad, I.c, true, *S->model);
                store_at(o, off, I.c, v, I.w);
            } else {
                Val ad = I.imm ? mkval(X.bin(K::Add, x.e, X.cst(I.imm, 64))) : x;
                store(ad, I.c, v, I.w);
                RELOAD();
            }
            ++F->pc;
            break;
        }
        case O_ADDC: {
            const Val& x = OPV(I.a);
            R[I.dst] = x.e ? mkval(X.bin(K::Add, x.e, X.cst(I.imm, 64))) : cv(x.c + I.imm);
            ++F->pc;
            break;
        }
        case O_ADDV: {
            const Val &x = OPV(I.a), &y = OPV(I.b);
            if (!x.e && !y.e) R[I.dst] = cv(x.c + (u64)SX(y.c, I.w2) * I.imm);
            else {
                Expr* ix = X.sext(ex(y, I.w2), 64);
                if (I.imm != 1) ix = X.bin(K::Mul, ix, X.cst(I.imm, 64));
                R[I.dst] = mkval(X.bin(K::Add, ex(x, 64), ix));
            }
            ++F->pc;
            break;
        }
        case O_BR: take(*F, *(const Edge*)I.p); break;
        case O_CONDBR: {
            const Val& c = OPV(I.a);
            const BrInfo* b = (const BrInfo*)I.p;
            bool v;
            if (!c.e) v = c.c & 1;
            else {
                v = decide(c.e);
                F = &S->fr.back();
            }
            take(*F, v ? b->t : b->f);
            break;
        }
        case O_SWITCH: {
            const Val& c = OPV(I.a);
            const SwitchInfo* si = (const SwitchInfo*)I.p;
            u32 e = 0;
            if (!c.e) {
                auto it = si->m.find(c.c);
                if (it != si->m.end()) e = it->second;
            } else {
                Expr* ce = c.e;
                unsigned w = I.w;
                u64 v = ev(ce);
                auto it = si->m.find(v);
                if (it != si->m.end()) e = it->second;
                Expr* cond = X.cst(0, 1);
                if (e == 0) {
                    cond = X.cst(1, 1);
                    for (u32 k = 1; k < si->edges.size(); ++k)
                        for (u64 cvv : si->vals[k]) cond = X.bin(K::And, cond, X.lnot(X.cmp(K::Eq, X.cst(cvv, w), ce)));
                } else
                    for (u64 cvv : si->vals[e]) cond = X.bin(K::Or, cond, X.cmp(K::Eq, X.cst(cvv, w), ce));
                if (!decide(cond)) die("switch: model does not satisfy its own case");
                F = &S->fr.back();
            }
            take(*F, si->edges[e]);
            break;
        }
        case O_RET: {
            Val rv[16];
            std::vector<Val> big;
            Val* r = rv;
            if (I.p) {
                auto& ops = *(std::vector<i32>*)I.p;
                if (ops.size() > 16) { big.resize(ops.size()); r = big.data(); }
                for (size_t k = 0; k < ops.size(); ++k) r[k] = OPV(ops[k]);
            }
            n_instrs += local; S->icount += local; F->f->prof += local; local = 0;
            drop_frame();
            if (S->fr.empty()) {
                if (S->next_entry >= entries.size()) return;
                push_frame(entries[S->next_entry++], nullptr, 0);
            } else
                complete_call(r);
            RELOAD();
            break;
        }
        case O_CALL: {
            CallInfo* ci = (CallInfo*)I.p;
            Func* f = ci->f;
            u32 na = ci->args.size();
            Val av[24];
            std::vector<Val> big;
            Val* a = av;
            if (na > 24) { big.resize(na); a = big.data(); }
            for (u32 k = 0; k < na; ++k) a[k] = OPV(ci->args[k]);
            Builtin bi = ci->intrinsic;
            if (!bi) {
                if (!f) {
                    u64 p = concretize(OPV(ci->fop), 64);
                    u32 ix = (u32)p / 16;
                    if (p >> 32 != 1 || ix >= funcs.size()) {
                        violation("memory", "call through an invalid function pointer", *S->model);
                        throw Kill{};
                    }
                    f = funcs[ix];
                    F = &S->fr.back();
                }
                bi = f->bi;
            }
            if (bi) {
                Val r[16] = {};
                if (ci->intrinsic && !ci->imm) ci->imm = intrinsic_imm(ci->f->F->getIntrinsicID());
                if (bi(*S, *ci, a, r) == B_OK) complete_call(r);
                RELOAD();
                break;
            }
            if (f->F->isDeclaration()) {
                incomplete["call to external function " + f->name]++;
                throw Kill{};
            }
            if (f->conc)
                for (u32 k = 0; k < na; ++k)
                    if (a[k].e) a[k] = cv(concretize(a[k], ci->argw[k]));
            F = &S->fr.back();
            n_instrs += local; S->icount += local; F->f->prof += local; local = 0;
            std::vector<u64> bv;
            for (auto& b : ci->byval) {
                u64 p = new_obj(b.second, OBJ_STACK, 0);
                copy_mem(p, concretize(a[b.first], 64), b.second);
                a[b.first] = cv(p);
                bv.push_back(p);
            }
            push_frame(f, a, na);
            for (u64 p : bv) S->allocas.push_back(p >> 32);
            RELOAD();
            break;
        }
        case O_LANDINGPAD: R[I.dst] = cv(S->lp_ptr); R[I.dst + 1] = cv(S->lp_sel); ++F->pc; break;
        case O_RESUME: {
            u64 p = OPV(I.a).c;
            drop_frame();
            unwind(p);
            RELOAD();
            break;
        }
        case O_UNREACHABLE:
            violation("ub", "unreachable code reached", *S->model);
            throw Kill{};
        case O_CMPXCHG: {
            u64 p = concretize(OPV(I.a), 64);
            Val old = load(cv(p), (u32)I.imm, I.w, false);
            Expr* eq = X.cmp(K::Eq, ex(old, I.w), ex(OPV(I.b), I.w));
            bool v = decide(eq);
            RELOAD();
            const Inst& J = code[F->pc];
            if (v) store(cv(p), (u32)J.imm, OPV(J.c), J.w);
            R[J.dst] = old;
            R[J.dst + 1] = cv(v);
            ++F->pc;
            break;
        }
        case O_ATOMICRMW: {
            u64 p = concretize(OPV(I.a), 64);
            Val old = load(cv(p), (u32)I.imm, I.w, false);
            Expr *x = ex(old, I.w), *y = ex(OPV(I.b), I.w), *n = nullptr;
            switch ((AtomicRMWInst::BinOp)I.c) {
            case AtomicRMWInst::Xchg: n = y; break;
            case AtomicRMWInst::Add: n = X.bin(K::Add, x, y); break;
            case AtomicRMWInst::Sub: n = X.bin(K::Sub, x, y); break;
            case AtomicRMWInst::And: n = X.bin(K::And, x, y); break;
            case AtomicRMWInst::Or: n = X.bin(K::Or, x, y); break;
            default: incomplete["atomicrmw"]++; throw Kill{};
            }
            store(cv(p), (u32)I.imm, mkval(n), I.w);
            R[I.dst] = old;
            ++F->pc;
            break;
        }
        case O_UNSUPPORTED: {
            incomplete["unsupported instruction: " + *(std::string*)I.p]++;
            throw Kill{};
        }
        default: die("bad op %d", I.op);
        }
    }
}
