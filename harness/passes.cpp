// C10: the control flow passes and the register allocation of the compiler keep every value.
// COVERS: done
#include "symx.h"
#include "common/text/string_table.hpp"
#include "compiler/ir/function.hpp"
#include "compiler/ir/traversal.hpp"
#include "compiler/ir_passes/critical_edges.hpp"
#include "compiler/ir_passes/dominators.hpp"
#include "compiler/ir_passes/liveness.hpp"
#include "compiler/bytecode_gen/alloc_registers.hpp"
#include "compiler/bytecode_gen/parallel_copy.hpp"
#include <vector>
using namespace tiro;
using namespace tiro::ir;
// ids are small numbers
template<class K, class V> struct Map {
    std::vector<V> v;
    std::vector<bool> has;
    V& operator[](K k) { size_t i = k.value(); if (i >= v.size()) { v.resize(i + 1); has.resize(i + 1); } has[i] = true; return v[i]; }
    V& at(K k) { size_t i = k.value(); symx_assert(i < v.size() && has[i], "value is used before its definition"); return v[i]; }
    bool count(K k) const { return k.value() < v.size() && has[k.value()]; }
};

#if defined(COPIES)
// all parallel copies over REGS registers, in every rotation and both directions
#ifndef REGS
#define REGS 5
#endif
int main() {
    uint64_t init[REGS + 1], cur[REGS + 1], want[REGS + 1];
    for (int i = 0; i < REGS; ++i) {
        init[i] = 0;
        symx_make(&init[i], 8, "register");
    }
    init[REGS] = 0;
    std::vector<RegisterCopy> copies;
    for (int i = 0; i <= REGS; ++i) cur[i] = want[i] = init[i];
    for (int d = 0; d < REGS; ++d) {
        int s = symx_choose(REGS + 1, "source");
        if (s == REGS) continue;
        copies.push_back({BytecodeRegister(s), BytecodeRegister(d)});
        want[d] = init[s];
    }
    int n = copies.size();
    if (n > 1) {
        int rot = symx_choose(n, "rotation");
        std::rotate(copies.begin(), copies.begin() + rot, copies.end());
        if (n > 2 && symx_choose(2, "reverse")) std::reverse(copies.begin(), copies.end());
    }
    int spares = 0;
    ParallelCopyAlgorithm alg;
    // the working memory is reused: an earlier run must not matter
    std::vector<RegisterCopy> first{{BytecodeRegister(0), BytecodeRegister(1)}, {BytecodeRegister(1), BytecodeRegister(0)}};
    alg.sequentialize(first, [&] { return BytecodeRegister(REGS); });
    alg.sequentialize(copies, [&] { ++spares; return BytecodeRegister(REGS); });
    symx_assert(spares <= 1, "more than one spare register for a set of parallel copies");
    for (auto& c : copies) {
        symx_assert(c.src.valid() && c.dest.valid() && c.src.value() <= REGS && c.dest.value() <= REGS, "copy with an unknown register");
        cur[c.dest.value()] = cur[c.src.value()];
    }
    for (int i = 0; i < REGS; ++i) symx_assert(cur[i] == want[i], "sequential copies do not have the effect of the parallel copies");
    symx_cover("done");
    return 0;
}
#else
#ifndef BLOCKS
#define BLOCKS 3
#endif
// node 0 = entry, 1 = body, 2.. = further blocks, last = exit
static const int N = BLOCKS + 3, X = N - 1;
struct Node { int kind, a, b; };      // 0 jump, 1 branch, 2 return
static Node nodes[16];
static std::vector<int> succs(int i) {
    if (i == 0) return {1};
    if (i == X) return {};
    if (nodes[i].kind == 0) return {nodes[i].a};
    if (nodes[i].kind == 1) return {nodes[i].a, nodes[i].b};
    return {X};
}
static bool reach(int from, int to, int without) {
    if (from == without) return false;
    bool seen[16] = {};
    std::vector<int> w{from};
    seen[from] = true;
    while (!w.empty()) {
        int c = w.back(); w.pop_back();
        if (c == to) return true;
        for (int s : succs(c)) if (s != without && !seen[s]) { seen[s] = true; w.push_back(s); }
    }
    return false;
}
static BlockId ids[16];
static bool live[16];
static void choose_graph() {
    for (int i = 0; i < N; ++i) live[i] = false;
    live[0] = live[1] = true;
    // blocks are decided in the order in which they become reachable
    std::vector<int> order{1};
    for (size_t k = 0; k < order.size(); ++k) {
        int i = order[k];
        Node& n = nodes[i];
        n.kind = symx_choose(3, "terminator");
        if (n.kind == 2) { live[X] = true; continue; }
        n.a = 2 + symx_choose(BLOCKS, "target");
        if (n.kind == 1) {
            n.b = 2 + symx_choose(BLOCKS, "fallthrough");
            symx_assume(n.a != n.b);
        }
        for (int s : succs(i)) if (!live[s]) {
            live[s] = true;
            // numbering: new blocks in ascending order
            for (int t = 2; t < s; ++t) symx_assume(live[t]);
            order.push_back(s);
        }
    }
}
static StringTable* strings;
static Function* fn;
static InstId add(int block, Value&& v) {
    InstId id = fn->make(Inst(std::move(v)));
    (*fn)[ids[block]].append_inst(id);
    return id;
}
static void make_blocks() {
    strings = new StringTable;
    fn = new Function(strings->insert("f"), FunctionType::Normal, *strings);
    ids[0] = fn->entry(); ids[1] = fn->body(); ids[X] = fn->exit();
    for (int i = 2; i < X; ++i) ids[i] = fn->make(Block(strings->insert("block")));
}
static void terminate(int i, InstId value) {
    Node& n = nodes[i];
    Block& b = (*fn)[ids[i]];
    if (n.kind == 0) b.terminator(Terminator::make_jump(ids[n.a]));
    else if (n.kind == 1) b.terminator(Terminator::make_branch(BranchType::IfTrue, value, ids[n.a], ids[n.b]));
    else b.terminator(Terminator::make_return(value, ids[X]));
    for (int s : succs(i)) (*fn)[ids[s]].append_predecessor(ids[i]);
}
static int node_of(BlockId b) { for (int i = 0; i < N; ++i) if (ids[i] == b) return i; return -1; }
static std::vector<BlockId> targets(BlockId b) {
    std::vector<BlockId> r;
    visit_targets((*fn)[b].terminator(), [&](BlockId t) { r.push_back(t); });
    return r;
}
static void check_edges() {
    // every edge is in the list of predecessors exactly as often as it exists, no edge is critical
    Map<BlockId, std::vector<BlockId>> preds;
    for (BlockId b : fn->block_ids()) {
        bool reachable = b == fn->entry() || (*fn)[b].predecessor_count() > 0;
        if (reachable) for (BlockId t : targets(b)) preds[t].push_back(b);
    }
    for (BlockId b : fn->block_ids()) {
        auto& want = preds[b];
        size_t n = (*fn)[b].predecessor_count();
        symx_assert(n == want.size(), "list of predecessors does not match the edges");
        for (BlockId p : want) {
            int c = 0;
            for (BlockId q : (*fn)[b].predecessors()) c += q == p;
            symx_assert(c == 1, "list of predecessors does not match the edges");
        }
        auto t = targets(b);
        if (t.size() > 1 && (b == fn->entry() || n > 0))
            for (BlockId s : t) symx_assert((*fn)[s].predecessor_count() <= 1, "critical edge left");
    }
}
static void split() {
    std::vector<std::vector<BlockId>> order(N);
    for (int i = 0; i < N; ++i) if (live[i]) for (BlockId p : (*fn)[ids[i]].predecessors()) order[i].push_back(p);
    bool any = false;
    for (int i = 0; i < X; ++i) if (live[i] && nodes[i].kind == 1 && i)
        for (int s : succs(i)) any |= (*fn)[ids[s]].predecessor_count() > 1;
    bool changed = split_critical_edges(*fn);
    symx_assert(changed == any, "split_critical_edges reports a wrong result");
    check_edges();
    // the same paths, and the order of the predecessors (which phi operands rely on) is kept
    for (int i = 0; i < X; ++i) if (live[i]) {
        auto t = targets(ids[i]), s = std::vector<BlockId>();
        for (int k : succs(i)) s.push_back(ids[k]);
        symx_assert(t.size() == s.size(), "split edge changed the number of successors");
        for (size_t k = 0; k < t.size(); ++k) {
            if (t[k] == s[k]) continue;
            auto u = targets(t[k]);
            symx_assert(node_of(t[k]) < 0 && u.size() == 1 && u[0] == s[k], "split edge leads to another block");
        }
    }
    for (int i = 0; i < N; ++i) if (live[i])
        for (size_t k = 0; k < order[i].size(); ++k) {
            BlockId p = (*fn)[ids[i]].predecessor(k);
            if (p != order[i][k]) symx_assert((*fn)[p].predecessor_count() == 1 && (*fn)[p].predecessor(0) == order[i][k], "order of the predecessors changed");
        }
    symx_assert(!split_critical_edges(*fn), "split_critical_edges is not idempotent");
}

#if defined(DOMS)
static void check_dominators() {
    DominatorTree d(*fn);
    d.compute();
    for (int i = 0; i < N; ++i) if (live[i]) {
        int idom = i, count = 0;
        for (int p = 0; p < N; ++p) if (live[p]) {
            bool want = p == i || !reach(0, i, p);
            symx_assert(d.dominates(ids[p], ids[i]) == want, "wrong dominance relation");
            symx_assert(d.dominates_strict(ids[p], ids[i]) == (want && p != i), "wrong strict dominance relation");
        }
        // immediate dominator: the strict dominator dominated by all others
        for (int p = 0; p < N; ++p) if (live[p] && p != i && !reach(0, i, p)) {
            bool last = true;
            for (int q = 0; q < N; ++q)
                if (live[q] && q != i && q != p && !reach(0, i, q) && reach(0, p, q)) last = false;
            if (last) idom = p;
        }
        symx_assert(d.immediate_dominator(ids[i]) == ids[idom], "wrong immediate dominator");
        for (BlockId c : d.immediately_dominated(ids[idom])) count += c == ids[i];
        symx_assert(count == (i == 0 ? 0 : 1), "block is not listed once below its immediate dominator");
    }
}
static void check_orders() {
    Map<BlockId, int> pre, post;
    for (BlockId b : PreorderTraversal(*fn)) { symx_assert(!pre.count(b), "block is visited twice"); pre[b] = true; }
    Map<BlockId, int> rank;
    int n = 0;
    for (BlockId b : ReversePostorderTraversal(*fn)) {
        { symx_assert(!post.count(b), "block is visited twice"); post[b] = true; }
        rank[b] = n++;
    }
    for (int i = 0; i < N; ++i) {
        symx_assert(pre.count(ids[i]) == live[i] && post.count(ids[i]) == live[i], "traversal does not visit the reachable blocks");
        // forward edges go forward in reverse post order: an edge goes back only when its target reaches its source
        if (live[i]) for (int s : succs(i)) symx_assert(rank[ids[s]] > rank[ids[i]] || reach(s, i, -1), "reverse post order visits a block before its predecessors");
    }
}
int main() {
    choose_graph();
    make_blocks();
    InstId c = add(0, Value(Constant::make_integer(1)));
    for (int i = 1; i < X; ++i) if (live[i]) terminate(i, c);
    check_dominators();
    check_orders();
    split();
    symx_cover("done");
    return 0;
}
#else
// VARS variables are changed by the blocks of an arbitrary function; the registers always hold the values of the SSA form
#ifndef VARS
#define VARS 3
#endif
#ifndef STEPS
#define STEPS 6
#endif
enum Op { NONE, SWAP, ROTATE, COPY, ADD, FORMAT, NEW, ALIAS, NOPS, NEWLAST = NOPS, USEIN };
#ifndef OPS
#define OPS 1            // operations per block; more than one: only in the first block after the body
#endif
int main() {
    choose_graph();
    Op ops[16][OPS] = {};
    for (int i = 1; i < X; ++i) if (live[i]) {
#if OPS > 1
        if (i != 2) continue;
        static const Op ALL[] = {NEWLAST, USEIN, SWAP, ROTATE, COPY, ADD, FORMAT, ALIAS};
        for (Op& o : ops[i]) o = ALL[symx_choose(8, "operation")];
#elif defined(FEWOPS)
        static const Op FEW[] = {ROTATE, FORMAT, ADD};
        ops[i][0] = FEW[symx_choose(3, "operation")];
#else
        ops[i][0] = (Op) symx_choose(NOPS, "operation");
#endif
    }
    make_blocks();
    InstId vars[16][4];
    uint32_t init[VARS] = {}, fresh = 0;
    for (int v = 0; v < VARS; ++v) symx_make(&init[v], 4, "value");
    symx_make(&fresh, 4, "fresh");
    Map<InstId, uint32_t> konst;
    std::vector<int> preds[16];
    for (int i = 0; i < X; ++i) if (live[i]) for (int s : succs(i)) preds[s].push_back(i);
    // predecessor lists are filled in this order, too
    for (int v = 0; v < VARS; ++v) {
        vars[0][v] = add(0, Value(Constant::make_integer(v)));
        konst[vars[0][v]] = init[v];
    }
    InstId phis[16][4];
    InstId in[16][4];
    bool done[16] = {};
    done[0] = true;
    for (int i = 1; i < X; ++i) if (live[i] && preds[i].size() > 1)
        for (int v = 0; v < VARS; ++v) phis[i][v] = add(i, Value::make_phi(Phi()));
    for (int round = 0; round < N; ++round)
        for (int i = 1; i < X; ++i) {
            if (!live[i] || done[i]) continue;
            if (preds[i].size() > 1) { for (int v = 0; v < VARS; ++v) in[i][v] = phis[i][v]; }
            else {
                if (!done[preds[i][0]]) continue;
                for (int v = 0; v < VARS; ++v) in[i][v] = vars[preds[i][0]][v];
            }
            InstId* o = vars[i];
            for (int v = 0; v < VARS; ++v) o[v] = in[i][v];
            for (Op op : ops[i]) switch (op) {
            case NEWLAST: o[VARS - 1] = add(i, Value(Constant::make_integer(100))); konst[o[VARS - 1]] = fresh; break;
            case USEIN: add(i, Value::make_binary_op(BinaryOpType::Plus, in[i][VARS - 1], in[i][VARS - 1])); break;
            case SWAP: std::swap(o[0], o[1]); break;
            case ROTATE: { InstId t = o[0]; o[0] = o[1]; o[1] = o[VARS - 1]; o[VARS - 1] = t; break; }
            case COPY: o[1] = o[0]; break;
            case ADD: o[0] = add(i, Value::make_binary_op(BinaryOpType::Plus, o[0], o[1])); break;
            case FORMAT: o[1] = add(i, Value::make_format(fn->make(LocalList{o[1], o[0]}))); break;
            case NEW: o[0] = add(i, Value(Constant::make_integer(100))); konst[o[0]] = fresh; break;
            case ALIAS: o[0] = add(i, Value::make_alias(o[VARS - 1])); break;
            default: break;
            }
            done[i] = true;
        }
    for (int i = 1; i < X; ++i) if (live[i] && preds[i].size() > 1)
        for (int v = 0; v < VARS; ++v) {
            LocalList l;
            for (int p : preds[i]) l.append(vars[p][v]);
            (*fn)[phis[i][v]].value(Value::make_phi(Phi(fn->make(std::move(l)))));
        }
    for (int i = 1; i < X; ++i) if (live[i]) terminate(i, vars[i][nodes[i].kind == 2 ? VARS - 1 : 0]);
    split();

    // liveness: only ever smaller than what is needed is an error; checked by the run below
    BytecodeLocations locs = allocate_locations(*fn);
    auto reg = [&](InstId id) {
        BytecodeLocation l = locs.get(id);
        symx_assert(l.size() == 1 && l[0].valid() && l[0].value() < locs.total_registers(), "value without a register");
        return (int) l[0].value();
    };
    std::vector<uint32_t> regs(locs.total_registers() + 1, 0xdeadbeef);
    Map<InstId, uint32_t> ssa;
    BlockId at = fn->entry(), from;
    auto use = [&](InstId id) {
        symx_assert(regs[reg(id)] == ssa.at(id), "register of a value is overwritten before its last use");
        return ssa.at(id);
    };
    for (int step = 0; step < STEPS; ++step) {
        Block& b = (*fn)[at];
        if (b.terminator().type() == TerminatorType::Exit) { break; }
        size_t phi_count = b.phi_count(*fn);
        if (phi_count) {
            size_t idx = 0;
            while (b.predecessor(idx) != from) ++idx;
            std::vector<uint32_t> nv;
            for (size_t k = 0; k < phi_count; ++k) nv.push_back(ssa.at((*fn)[b.inst(k)].value().as_phi().operand(*fn, idx)));
            for (size_t k = 0; k < phi_count; ++k) {
                ssa[b.inst(k)] = nv[k];
                symx_assert(regs[reg(b.inst(k))] == nv[k], "value is not passed to the following block");
            }
        }
        for (size_t k = phi_count; k < b.inst_count(); ++k) {
            InstId id = b.inst(k);
            const Value& v = (*fn)[id].value();
            uint32_t r = 0;
            switch (v.type()) {
            case ValueType::Constant: r = konst.at(id); break;
            case ValueType::BinaryOp: r = use(v.as_binary_op().left) * 3 + use(v.as_binary_op().right) + 1; break;
            case ValueType::Alias: r = use(v.as_alias().target); break;
            case ValueType::Format: {
                // the formatter is created in the result register before the operands are read
                regs[reg(id)] = 0x5eed;
                for (InstId a : (*fn)[v.as_format().args]) r = r * 5 + use(a) + 7;
                break;
            }
            default: symx_fail("unexpected instruction");
            }
            regs[reg(id)] = r;
            ssa[id] = r;
        }
        BlockId next;
        switch (b.terminator().type()) {
        case TerminatorType::Entry: next = b.terminator().as_entry().body; break;
        case TerminatorType::Jump: next = b.terminator().as_jump().target; break;
        case TerminatorType::Return: use(b.terminator().as_return().value); next = b.terminator().as_return().target; break;
        case TerminatorType::Branch: {
            auto& br = b.terminator().as_branch();
            use(br.value);
            next = symx_choose(2, "direction") ? br.target : br.fallthrough;
            break;
        }
        default: symx_fail("unexpected terminator"); break;
        }
        if (locs.has_phi_copies(at))
            for (auto& c : locs.get_phi_copies(at)) {
                symx_assert(c.dest.value() < locs.total_registers() && c.src.value() < locs.total_registers(), "unknown register in a copy");
                regs[c.dest.value()] = regs[c.src.value()];
            }
        from = at;
        at = next;
    }
    symx_cover("done");
    return 0;
}
#endif
#endif
