// C29: the bytecode verifier accepts a module exactly if every operand of every instruction refers to something that exists and has the
// kind the instruction needs (an independent table of the instruction set decides), and decoding yields the encoded operands.
#include "tiroh.hpp"
#include "bytecode/module.hpp"
#include "bytecode/reader.hpp"
#include "bytecode/writer.hpp"
#include "vm/modules/verify.hpp"
#include <vector>
using namespace th;
using namespace tiro;

// operands: r register, p parameter, m member, s symbol, c closure function, e record schema, o offset, u any number, n count, N even count, i integer, d float
struct Ins { BytecodeOp op; const char* args; bool halts = false, closure = false; };
static const Ins T[] = {
    {BytecodeOp::LoadNull, "r"}, {BytecodeOp::LoadFalse, "r"}, {BytecodeOp::LoadTrue, "r"}, {BytecodeOp::LoadInt, "ir"}, {BytecodeOp::LoadFloat, "dr"},
    {BytecodeOp::LoadParam, "pr"}, {BytecodeOp::StoreParam, "rp"}, {BytecodeOp::LoadModule, "mr"}, {BytecodeOp::StoreModule, "rm"},
    {BytecodeOp::LoadMember, "rsr"}, {BytecodeOp::StoreMember, "rrs"}, {BytecodeOp::LoadTupleMember, "rur"}, {BytecodeOp::StoreTupleMember, "rru"},
    {BytecodeOp::LoadIndex, "rrr"}, {BytecodeOp::StoreIndex, "rrr"}, {BytecodeOp::LoadClosure, "r", false, true}, {BytecodeOp::LoadEnv, "ruur"}, {BytecodeOp::StoreEnv, "rruu"},
    {BytecodeOp::Add, "rrr"}, {BytecodeOp::Sub, "rrr"}, {BytecodeOp::Mul, "rrr"}, {BytecodeOp::Div, "rrr"}, {BytecodeOp::Mod, "rrr"}, {BytecodeOp::Pow, "rrr"},
    {BytecodeOp::UAdd, "rr"}, {BytecodeOp::UNeg, "rr"}, {BytecodeOp::LSh, "rrr"}, {BytecodeOp::RSh, "rrr"}, {BytecodeOp::BAnd, "rrr"}, {BytecodeOp::BOr, "rrr"}, {BytecodeOp::BXor, "rrr"}, {BytecodeOp::BNot, "rr"},
    {BytecodeOp::Gt, "rrr"}, {BytecodeOp::Gte, "rrr"}, {BytecodeOp::Lt, "rrr"}, {BytecodeOp::Lte, "rrr"}, {BytecodeOp::Eq, "rrr"}, {BytecodeOp::NEq, "rrr"}, {BytecodeOp::LNot, "rr"},
    {BytecodeOp::Array, "nr"}, {BytecodeOp::Tuple, "nr"}, {BytecodeOp::Set, "nr"}, {BytecodeOp::Map, "Nr"}, {BytecodeOp::Env, "rur"}, {BytecodeOp::Closure, "crr"}, {BytecodeOp::Record, "er"},
    {BytecodeOp::Iterator, "rr"}, {BytecodeOp::IteratorNext, "rrr"}, {BytecodeOp::Formatter, "r"}, {BytecodeOp::AppendFormat, "rr"}, {BytecodeOp::FormatResult, "rr"},
    {BytecodeOp::Copy, "rr"}, {BytecodeOp::Swap, "rr"}, {BytecodeOp::Push, "r"}, {BytecodeOp::Pop, ""}, {BytecodeOp::PopTo, "r"},
    {BytecodeOp::Jmp, "o", true}, {BytecodeOp::JmpTrue, "ro"}, {BytecodeOp::JmpFalse, "ro"}, {BytecodeOp::JmpNull, "ro"}, {BytecodeOp::JmpNotNull, "ro"},
    {BytecodeOp::Call, "ru"}, {BytecodeOp::LoadMethod, "rsrr"}, {BytecodeOp::CallMethod, "ru"}, {BytecodeOp::Return, "r", true}, {BytecodeOp::Rethrow, "", true}, {BytecodeOp::AssertFail, "rr", true}};
static const unsigned NT = sizeof(T) / sizeof(*T);

static uint32_t u32sym(const char* name) { uint32_t v; symx_make(&v, 4, name); return v; }

enum Kind { STRING, SYMBOL, INTEGER, FLOATING, VARIABLE, IMPORT, NORMAL, CLOSURE, SCHEMA };
struct M {
    BytecodeModule m;
    std::vector<Kind> kinds;
    BytecodeMemberId add(BytecodeMember x, Kind k) { kinds.push_back(k); return m.members().push_back(x); }
    BytecodeMemberId func(BytecodeFunction f, Kind k) { auto id = m.functions().push_back(std::move(f)); return add(BytecodeMember::make_function(id), k); }
    static BytecodeFunction simple(BytecodeFunctionType t) {
        BytecodeFunction f;
        f.type(t);
        f.locals(1);
        BytecodeWriter w(f);
        w.load_null(BytecodeRegister(0));
        w.ret(BytecodeRegister(0));
        w.finish();
        return f;
    }
    // one member of each kind
    M() {
        m.name(m.strings().insert("test"));
        auto s = add(BytecodeMember::make_string(m.strings().insert("s")), STRING);
        auto y = add(BytecodeMember::make_symbol(s), SYMBOL);
        add(BytecodeMember::make_integer(1), INTEGER);
        add(BytecodeMember::make_float(2), FLOATING);
        add(BytecodeMember::make_variable(s, {}), VARIABLE);
        add(BytecodeMember::make_import(s), IMPORT);
        func(simple(BytecodeFunctionType::Normal), NORMAL);
        func(simple(BytecodeFunctionType::Closure), CLOSURE);
        BytecodeRecordSchema r;
        r.keys().push_back(y);
        auto id = m.records().push_back(std::move(r));
        add(BytecodeMember::make_record_schema(id), SCHEMA);
    }
    // does the number refer to one of the first n members, of kind k (or any)?
    bool is(uint32_t id, int k, size_t n) const {
        if (id >= n) return false;
        if (k < 0) return true;
        bool r = false;
        for (size_t x = 0; x < n; ++x)
            if (kinds[x] == k) r |= id == x;
        return r;
    }
    bool verify() {
        try { vm::verify_module(m); return true; }
        catch (const tiro::Error& e) { return false; }
    }
};

static void put(std::vector<byte>& c, uint64_t v, unsigned n) { for (unsigned k = n; k-- > 0;) c.push_back((byte) (v >> (8 * k))); }

int main() {
    M x;
    bool good = true;
#ifdef MODULE
    // references between the members of a module
    size_t n = x.kinds.size();
    switch (symx_choose(8, "what")) {
    case 0: { uint32_t id = u32sym("name"); x.add(BytecodeMember::make_symbol(BytecodeMemberId(id)), SYMBOL); good = x.is(id, STRING, n); break; }
    case 1: { uint32_t id = u32sym("name"); x.add(BytecodeMember::make_import(BytecodeMemberId(id)), IMPORT); good = x.is(id, STRING, n); break; }
    case 2: { uint32_t id = u32sym("name"); auto f = x.simple(BytecodeFunctionType::Normal); f.name(BytecodeMemberId(id)); x.func(std::move(f), NORMAL); good = id == BytecodeMemberId::invalid_value || x.is(id, STRING, n); break; }
    case 3: { BytecodeRecordSchema r; unsigned c = symx_choose(3, "keys"); for (unsigned k = 0; k < c; ++k) { uint32_t id = u32sym("key"); r.keys().push_back(BytecodeMemberId(id)); good &= x.is(id, SYMBOL, n); } auto id = x.m.records().push_back(std::move(r)); x.add(BytecodeMember::make_record_schema(id), SCHEMA); break; }
    case 4: { uint32_t a = u32sym("symbol"), b = u32sym("value"); symx_assume(a != BytecodeMemberId::invalid_value && b != BytecodeMemberId::invalid_value); x.m.add_export(BytecodeMemberId(a), BytecodeMemberId(b)); good = x.is(a, SYMBOL, n) && x.is(b, -1, n) && !x.is(b, IMPORT, n) && !x.is(b, SCHEMA, n) && !x.is(b, CLOSURE, n); break; }
    case 5: { uint32_t a = u32sym("init"); x.m.init(BytecodeMemberId(a)); good = a == BytecodeMemberId::invalid_value || x.is(a, NORMAL, n); break; }
    case 6: { if (symx_choose(2, "no name")) x.m.name({}), good = false; if (symx_choose(2, "no text")) x.add(BytecodeMember::make_string({}), STRING), good = false; break; }
    case 7: { uint32_t id = u32sym("index"); if (symx_choose(2, "function")) x.add(BytecodeMember::make_function(BytecodeFunctionId(id)), NORMAL), good = id < x.m.functions().size(); else x.add(BytecodeMember::make_record_schema(BytecodeRecordSchemaId(id)), SCHEMA), good = id < x.m.records().size(); break; }
    }
#else
    BytecodeFunction f;
    bool closure = symx_choose(2, "closure");
    f.type(closure ? BytecodeFunctionType::Closure : BytecodeFunctionType::Normal);
    std::vector<byte>& c = f.code();
    uint32_t locals = 4, params = 3;
#ifdef HANDLERS
    // exception handlers: three instructions, at 0, 5 and 10; the code ends at 15
    for (unsigned k = 0; k < 2; ++k) c.push_back((byte) BytecodeOp::LoadNull), put(c, k, 4);
    c.push_back((byte) BytecodeOp::Return), put(c, 0, 4);
    auto start = [](uint32_t o) { return o == 0 || o == 5 || o == 10; };
    uint32_t last = 0;
    for (unsigned k = 0; k < HANDLERS; ++k) {
        uint32_t from = u32sym("from"), to = u32sym("to"), target = u32sym("target");
        f.handlers().push_back({BytecodeOffset(from), BytecodeOffset(to), BytecodeOffset(target)});
        good &= start(from) && (start(to) || to == 15) && start(target) && from < to && from >= last;
        last = to;
    }
#else
    // one symbolic instruction between others
    locals = u32sym("locals"); params = u32sym("params");
    good &= locals <= vm::max_locals;
    struct Operand { char kind; uint64_t value; };
    std::vector<Operand> ops;
    std::vector<uint32_t> starts;
    unsigned before = symx_choose(2, "before");
    if (before) starts.push_back(0), c.push_back((byte) BytecodeOp::Pop);
    bool known = symx_choose(2, "opcode"), halts = false;
    starts.push_back(c.size());
    size_t begin = c.size();
    const Ins* ins = nullptr;
    if (known) {
        ins = &T[symx_choose(NT, "instruction")];
        c.push_back((byte) ins->op);
        for (const char* a = ins->args; *a; ++a) {
            uint64_t v = 0;
            if (*a == 'i' || *a == 'd') symx_make(&v, 8, "constant"), put(c, v, 8);
            else v = u32sym("operand"), put(c, v, 4);
            ops.push_back({*a, v});
        }
        halts = ins->halts;
        if (ins->closure && !closure) good = false;
    } else {
        uint8_t b; symx_make(&b, 1, "byte");
        for (auto& t : T) symx_assume(b != (uint8_t) t.op);
        c.push_back((byte) b);
        good = false;
    }
    size_t end = c.size();
    if (known && symx_choose(2, "incomplete")) {
        size_t keep = symx_choose(end - begin, "length");
        c.resize(begin + keep);
        good = (keep == 0 && before) ? false : false;      // a partial instruction, or no halting instruction at the end
        known = false;
    } else if (symx_choose(2, "followed by a return")) {
        starts.push_back(c.size());
        c.push_back((byte) BytecodeOp::Return); put(c, 0, 4);
        good &= locals > 0;
        halts = true;
    }
    good &= halts;
    size_t n = x.kinds.size();
    for (auto& o : ops) {
        uint32_t v = (uint32_t) o.value;
        switch (o.kind) {
        case 'r': good &= v < locals; break;
        case 'p': good &= v < params; break;
        case 'm': good &= v < n + 1; break;
        case 's': good &= x.is(v, SYMBOL, n); break;
        case 'c': good &= x.is(v, CLOSURE, n) || (closure && v == n); break;
        case 'e': good &= x.is(v, SCHEMA, n); break;
        case 'n': good &= v <= vm::max_container_args; break;
        case 'N': good &= v <= vm::max_container_args && v % 2 == 0; break;
        case 'o': { bool any = false; for (uint32_t s : starts) any |= v == s; good &= any; break; }
        }
    }
    // an operand that is the marker of missing values is never accepted
    for (auto& o : ops) if (strchr("rpmsceo", o.kind)) good &= (uint32_t) o.value != UINT32_MAX;
    if (known) {
        // decoding and encoding again yields the same bytes, and has the size of the operands
        BytecodeReader r(f.code());
        if (before) r.read();
        size_t at = r.pos();
        auto d = r.read();
        symx_assert(std::holds_alternative<BytecodeInstr>(d), "valid instruction is not decoded");
        symx_assert(std::get<BytecodeInstr>(d).type() == ins->op, "decoded as another instruction");
        symx_assert(r.pos() - at == end - begin, "wrong size of an instruction");
    }
#endif
    f.locals(locals); f.params(params);
    x.func(std::move(f), closure ? CLOSURE : NORMAL);
#endif
    bool accepted = x.verify();
    symx_observe(accepted);
    symx_assert(!accepted || good, "bad module is accepted");
    symx_assert(accepted || !good, "valid module is rejected");
    if (accepted) symx_cover("accepted"); else symx_cover("rejected");
    return 0;
}
