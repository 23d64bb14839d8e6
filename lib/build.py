"""Builds everything a check needs from /repo's current working tree: the engine, one bitcode file
per source of tiro, the linked library, harnesses and their native replay executables.
Results are cached in /verif/.cache by content; nothing is reused unless every input file is unchanged."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TIRO_REPO", "/repo")
CACHE = os.environ.get("SYMX_CACHE", os.path.join(VERIF, ".cache"))
JOBS = int(os.environ.get("SYMX_JOBS", "8"))

SAN = ("-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,"
       "unreachable,return,bounds,builtin -fsanitize-trap=all").split()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def need(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode != 0:
        raise BuildError("%s failed (%d): %s\n%s" % (what, r.returncode, " ".join(cmd)[:400], r.stdout[-6000:]))
    return r.stdout

_hash = {}
def fhash(p):
    if p not in _hash:
        try:
            with open(p, "rb") as f:
                _hash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash[p] = "missing"
    return _hash[p]

def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(fhash(p).encode())
    return h.hexdigest()

class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + ".lock")
    def __enter__(self):
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def engine():
    src = [os.path.join(VERIF, "engine", f) for f in os.listdir(os.path.join(VERIF, "engine"))]
    key = tree_hash(src)[:16]
    d = os.path.join(CACHE, "engine-" + key)
    with Lock("engine"):
        if not os.path.exists(os.path.join(d, "ok")):
            for o in os.listdir(CACHE):
                if o.startswith("engine-"):
                    shutil.rmtree(os.path.join(CACHE, o), ignore_errors=True)
            need(["bash", os.path.join(VERIF, "engine", "build.sh"), d], "engine build")
            open(os.path.join(d, "ok"), "w").close()
    return d

PCH = """
#include <any>
#include <algorithm>
#include <array>
#include <bitset>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstdio>
#include <exception>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <queue>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <absl/container/flat_hash_map.h>
#include <absl/container/flat_hash_set.h>
#include <absl/container/inlined_vector.h>
#include <absl/container/node_hash_map.h>
#include <absl/hash/hash.h>
#include <fmt/format.h>
"""

def geninc():
    """the generated tiro/version.h; built by /repo's build in _build, recreated when that is absent"""
    p = os.path.join(REPO, "_build", "include")
    if os.path.exists(os.path.join(p, "tiro", "version.h")):
        return p
    d = os.path.join(CACHE, "geninc")
    os.makedirs(os.path.join(d, "tiro"), exist_ok=True)
    tmpl = None
    for root, _, fs in os.walk(REPO):
        for f in fs:
            if f in ("version.h.in",):
                tmpl = os.path.join(root, f)
    with open(tmpl) as f:
        t = f.read()
    t = re.sub(r"@[A-Za-z_]*(MAJOR|MINOR|PATCH)[A-Za-z_]*@", "0", t)
    t = re.sub(r"@[A-Za-z_]+@", "unknown", t)
    t = re.sub(r"#cmakedefine01 (\w+)", r"#define \1 0", t)
    with open(os.path.join(d, "tiro", "version.h"), "w") as f:
        f.write(t)
    return d

def base_flags():
    return ["-std=gnu++17", "-O1", "-g0", "-fno-rtti", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
            "-w", "-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + geninc(), "-isystem", "/usr/include/utf8cpp",
            "-DTIRO_BUILDING_LIBRARY", "-DTIRO_VERIFY", "-DFMT_HEADER_ONLY", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-U__SSE2__"] + SAN

def pch():
    """precompiled system headers; a copy of fmt with one member made mutable (g++ builds tiro with
    -fpermissive there, clang has no such switch)"""
    d = os.path.join(CACHE, "pch")
    key = hashlib.sha256((PCH + "v6" + " ".join(base_flags())).encode()).hexdigest()
    with Lock("pch"):
        ok = os.path.join(d, "ok")
        if not (os.path.exists(ok) and open(ok).read() == key):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shutil.copytree("/usr/include/fmt", os.path.join(d, "inc", "fmt"))
            p = os.path.join(d, "inc", "fmt", "format.h")
            t = open(p).read()
            t2 = re.sub(r"(\n\s*)(formatter_type value_formatter_;)", r"\1mutable \2", t)
            if "mutable formatter_type value_formatter_" not in t2:
                t2 = re.sub(r"(\n\s*)(formatter<[^\n]*> value_formatter_;)", r"\1mutable \2", t)
            # decimal digits of symbolic numbers: one operation per digit instead of table lookups
            def rep(t, a, b, what):
                if t.count(a) != 1:
                    raise BuildError("fmt/charconv: %s not found" % what)
                return t.replace(a, b)
            DIG = ("extern \"C\" void symx_digits(char*, unsigned long, unsigned);\n"
                   "extern \"C\" unsigned long symx_concretize(unsigned long);\n")
            t2 = rep(t2, "template <typename T> FMT_CONSTEXPR auto count_digits_fallback(T n) -> int {",
                     "template <typename T> inline auto symx_count(T n) -> int {\n  T p = 10;\n  int c = 1;\n"
                     "  while (c < (sizeof(T) == 8 ? 20 : 10) && n >= p) { p *= 10; ++c; }\n  return c;\n}\n"
                     "template <typename T> FMT_CONSTEXPR auto count_digits_fallback(T n) -> int {", "count_digits")
            t2 = t2.replace("  if (!is_constant_evaluated()) {\n    return do_count_digits(n);", "  if (!is_constant_evaluated()) {\n    return symx_count(n);")
            t2 = rep(t2, "  FMT_ASSERT(size >= count_digits(value), \"invalid digit count\");\n  out += size;\n",
                     "  if constexpr (sizeof(Char) == 1 && sizeof(UInt) <= 8) {\n    if (!is_constant_evaluated()) { symx_digits((char*) out, (unsigned long) value, size); return {out, out + size}; }\n  }\n  out += size;\n", "format_decimal")
            t2 = rep(t2, "constexpr auto is_negative(T value) -> bool {\n  return value < 0;",
                     "constexpr auto is_negative(T value) -> bool {\n  return is_constant_evaluated() ? value < 0 : symx_concretize(value < 0) != 0;", "is_negative")
            t2 = rep(t2, "#ifndef FMT_FORMAT_H_\n#define FMT_FORMAT_H_\n", "#ifndef FMT_FORMAT_H_\n#define FMT_FORMAT_H_\n" + DIG, "start")
            open(p, "w").write(t2)
            os.makedirs(os.path.join(d, "inc", "bits"))
            cc = sh(["clang++", "-std=gnu++17", "-E", "-H", "-x", "c++", "-", "-o", "/dev/null"], input="#include <string>\n").stdout
            cc = [l.split()[-1] for l in cc.splitlines() if l.endswith("bits/charconv.h")][0]
            t = open(cc).read()
            t = rep(t, "namespace std _GLIBCXX_VISIBILITY(default)\n", DIG + "namespace std _GLIBCXX_VISIBILITY(default)\n", "charconv start")
            m = re.search(r"__to_chars_10_impl\(char\* __first, unsigned __len, _Tp __val\) noexcept\n\s*\{\n", t)
            e = t.index("} // namespace __detail", m.end())
            t = t[:m.end()] + "      symx_digits(__first, (unsigned long) __val, __len);\n    }\n\n" + t[e:]
            open(os.path.join(d, "inc", "bits", "charconv.h"), "w").write(t)
            # hash tables are correct for every hash function: one that does not look at values that tend to be
            # symbolic (64-bit constants, string contents), so that lookups compare instead of reasoning about hashes
            os.makedirs(os.path.join(d, "inc", "absl", "hash", "internal"))
            t = open("/usr/include/absl/hash/internal/hash.h").read()
            t, n = re.subn(r"(std::integral_constant<int, 8> /\* sizeof_size_t \*/\) \{\n)(  // For large values)",
                           r"\1  if (len != 4) return Mix(state, len);\n\2", t)
            if n != 1:
                raise BuildError("absl's hash function not found")
            open(os.path.join(d, "inc", "absl", "hash", "internal", "hash.h"), "w").write(t)
            h = os.path.join(d, "pch.hpp")
            open(h, "w").write(PCH)
            need(["clang++"] + base_flags() + ["-I" + os.path.join(d, "inc"), "-x", "c++-header", h, "-o", os.path.join(d, "pch.pch")], "pch")
            open(ok, "w").write(key)
    return d

def parse_deps(f):
    t = open(f).read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [os.path.normpath(x) for x in t.split()]

def compile_bc(src, extra=(), tag=""):
    """bitcode of one source file, by content"""
    d = pch()
    fl = base_flags() + ["-I" + os.path.join(d, "inc"), "-I" + os.path.join(VERIF, "rt")] + list(extra)
    use_pch = "/rt/" not in src
    name = hashlib.sha256((src + tag + open(os.path.join(d, "ok")).read() + " ".join(fl)).encode()).hexdigest()[:20]
    bc = os.path.join(CACHE, "bc", name + ".bc")
    meta = os.path.join(CACHE, "bc", name + ".json")
    os.makedirs(os.path.dirname(bc), exist_ok=True)
    if os.path.exists(meta) and os.path.exists(bc):
        try:
            m = json.load(open(meta))
            if tree_hash(m["deps"]) == m["key"]:
                return bc, m["key"] + name
        except (ValueError, KeyError):
            pass
    dep = bc + ".d"
    tmp = bc + ".%d.tmp" % os.getpid()
    need(["clang++"] + fl + (["-include-pch", os.path.join(d, "pch.pch")] if use_pch else []) +
         ["-MMD", "-MF", dep, "-emit-llvm", "-c", src, "-o", tmp], "compiling " + src)
    deps = parse_deps(dep)
    deps = [x for x in deps if not x.startswith(CACHE + "/pch")]
    os.rename(tmp, bc)
    os.unlink(dep)
    key = tree_hash(deps)
    json.dump({"deps": deps, "key": key}, open(meta, "w"))
    return bc, key + name

def repo_sources():
    r = []
    for root, _, fs in os.walk(os.path.join(REPO, "src")):
        if root.startswith(os.path.join(REPO, "src", "run")):
            continue
        for f in fs:
            if f.endswith((".cpp", ".cc", ".c")):
                r.append(os.path.join(root, f))
    return sorted(r)

def compile_many(srcs, extra=()):
    pch()
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda s: compile_bc(s, extra), srcs))

def lib():
    """all of tiro's library sources, linked"""
    with ThreadPoolExecutor(1) as ex, Lock("lib"):
        fe = ex.submit(engine)
        r = compile_many(repo_sources() + [os.path.join(VERIF, "rt", "rt_common.cpp")])
        eng = fe.result()
        key = hashlib.sha256("".join(k for _, k in r).encode()).hexdigest()[:20]
        out = os.path.join(CACHE, "lib", key + ".bc")
        if not os.path.exists(out):
            shutil.rmtree(os.path.join(CACHE, "lib"), ignore_errors=True)
            os.makedirs(os.path.join(CACHE, "lib"))
            need([eng + "/symx-link", "-r", "-o", out + ".tmp"] + [b for b, _ in r], "link of the library")
            os.rename(out + ".tmp", out)
    return out, key

def harness(name, defines=()):
    """linked symbolic program of a harness, and its native replay executable"""
    l, lkey = lib()
    eng = engine()
    src = os.path.join(VERIF, "harness", name + ".cpp")
    extra = ["-D" + d for d in defines] + ["-I" + os.path.join(VERIF, "harness")]
    h, hkey = compile_bc(src, extra)
    rs, rkey = compile_bc(os.path.join(VERIF, "rt", "rt_sym.cpp"), ["-fno-builtin"])
    rp, pkey = compile_bc(os.path.join(VERIF, "rt", "replay.cpp"), ["-fno-sanitize=all"])
    key = hashlib.sha256((lkey + hkey + rkey + pkey + os.path.basename(eng)).encode()).hexdigest()[:20]
    d = os.path.join(CACHE, "h", name + "-" + hashlib.sha256(" ".join(defines).encode()).hexdigest()[:8])
    okf = os.path.join(d, "ok")
    with Lock("h-" + os.path.basename(d)):
        if not (os.path.exists(okf) and open(okf).read() == key):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            sym = os.path.join(d, "sym.bc")
            nat = os.path.join(d, "nat.bc")
            with ThreadPoolExecutor(2) as ex:
                f1 = ex.submit(need, [eng + "/symx-link", "-o", sym, h, l, rs], "link of the harness")
                f2 = ex.submit(need, [eng + "/symx-link", "-o", nat, h, l, rp], "link of the replay")
                f1.result(); f2.result()
            need(["clang++", "-O0", "-w", nat, "-o", os.path.join(d, "native"), "-lm"], "native link of the replay program")
            os.unlink(nat)
            open(okf, "w").write(key)
    return d, eng

if __name__ == "__main__":
    print(engine())
    print(lib())
    for n in sys.argv[1:]:
        print(harness(n))
