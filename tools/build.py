#!/usr/bin/env python3
"""Content-addressed builder: compiles nasa/europa's libraries from /repo's
current working tree plus the harnesses under /verif/harness into
/verif/build/<variant>.  Nothing under /repo is written.

usage: build.py [--variant plain|asan] [--all | HARNESS...]
An object is rebuilt when the sha256 of (command, every file its last compile
read) differs from what is recorded; mtimes are never used.
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EUROPA_REPO", "/repo")
PLASMA = f"{REPO}/src/PLASMA"
OUT = os.environ.get("VERIF_BUILD", f"{VERIF}/build")
MODULES = ["TinyXml", "Utils", "ConstraintEngine", "PlanDatabase", "RulesEngine",
           "TemporalNetwork", "NDDL", "Solvers", "Resource", "ANML", "System"]
VARIANTS = {
    "plain": dict(cc="g++", cflags="-O1 -g1 -fno-omit-frame-pointer".split(), ld=[]),
    "asan": dict(cc="g++", cflags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address".split(),
                 ld=["-fsanitize=address"]),
}
COMMON = ["-w", "-m64", "-fPIC", "-std=gnu++17", "-DEUROPA_64_BIT_PLATFORM", "-DTIXML_USE_STL=1"]
_hash = {}


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "absent"
        _hash[p] = h
    return h


def incdirs(gen):
    d = []
    for m in MODULES:
        for s in ("", "/base", "/component"):
            p = f"{PLASMA}/{m}{s}"
            if os.path.isdir(p):
                d.append(p)
    for p in (f"{PLASMA}/Resource/component/NDDL", f"{PLASMA}/Resource/component/Solvers"):
        if os.path.isdir(p):
            d.append(p)
    return [f"-I{p}" for p in d] + [f"-I{gen}"]


def sources(mod):
    """Sources the module's CMakeLists lists, resolved; falls back to globbing."""
    root = f"{PLASMA}/{mod}"
    out = []
    try:
        text = open(f"{root}/CMakeLists.txt").read()
    except OSError:
        text = ""
    text = re.sub(r"#[^\n]*", "", text)
    for kind, sub in (("root_sources", ""), ("base_sources", "base/"), ("component_sources", "component/")):
        for m in re.finditer(r"(?:set|list)\s*\(\s*(?:APPEND\s+)?" + kind + r"\s+([^)]*)\)", text):
            for w in m.group(1).split():
                w = w.strip('"')
                if w.endswith((".cc", ".cpp")) and os.path.isfile(f"{root}/{sub}{w}"):
                    out.append(f"{root}/{sub}{w}")
                elif "${" in w:
                    v = re.match(r"\$\{(\w+)\}", w)
                    for mm in re.finditer(r"set\s*\(\s*" + v.group(1) + r"\s+([^)]*)\)", text) if v else []:
                        for x in mm.group(1).split():
                            if x.endswith((".cc", ".cpp")) and os.path.isfile(f"{root}/{sub}{x}"):
                                out.append(f"{root}/{sub}{x}")
    seen, res = set(), []
    for s in out:
        if s not in seen:
            seen.add(s)
            res.append(s)
    return res


def gen_parser(gen):
    """antlr output for the NDDL grammars, regenerated when a grammar changes."""
    os.makedirs(gen, exist_ok=True)
    g = [f"{PLASMA}/NDDL/base/antlr/NDDL3.g", f"{PLASMA}/NDDL/base/antlr/NDDL3Tree.g"]
    key = " ".join(fhash(x) for x in g)
    stamp = f"{gen}/.key"
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    jar = None
    for c in (f"{REPO}/ext/lib/antlr-3.jar", f"{REPO}/ext/antlr/antlr.jar"):
        if os.path.isfile(c):
            jar = c
    if jar is None:
        for d, _, fs in os.walk(f"{REPO}/ext"):
            for f in fs:
                if f.startswith("antlr") and f.endswith(".jar"):
                    jar = jar or os.path.join(d, f)
    tmp = gen + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for x in g:
        subprocess.run(["java", "-Xmx1g", "-cp", jar, "org.antlr.Tool", "-fo", tmp, x], check=True,
                       stdout=subprocess.DEVNULL)
    for f in os.listdir(tmp):
        p, q = f"{tmp}/{f}", f"{gen}/{f}"
        new = open(p, "rb").read()
        if not os.path.exists(q) or open(q, "rb").read() != new:
            with open(q, "wb") as o:
                o.write(new)
        _hash.pop(q, None)
    shutil.rmtree(tmp, ignore_errors=True)
    with open(stamp, "w") as o:
        o.write(key)


def parse_deps(path):
    try:
        t = open(path).read()
    except OSError:
        return []
    t = t.replace("\\\n", " ").split(":", 1)[1]
    return [os.path.normpath(w) for w in t.split()]


def compile_one(cc, flags, src, obj, lang=None):
    rec = obj + ".json"
    cmd = [cc, *flags, *(["-x", lang] if lang else []), "-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    try:
        r = json.load(open(rec))
        if r["cmd"] == cmd and os.path.exists(obj) and all(fhash(p) == h for p, h in r["deps"].items()):
            return obj, False, ""
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(rec):
        os.unlink(rec)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return obj, None, p.stdout
    deps = {d: fhash(d) for d in parse_deps(obj + ".d") if not d.startswith("/usr/")}
    json.dump({"cmd": cmd, "deps": deps}, open(rec, "w"))
    _hash.pop(obj, None)
    return obj, True, ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--variant", default="plain")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--needed", action="store_true", help="the harnesses the registry runs in this variant")
    ap.add_argument("harness", nargs="*")
    ap.add_argument("-j", type=int, default=os.cpu_count())
    a = ap.parse_args()
    v = VARIANTS[a.variant]
    out = f"{OUT}/{a.variant}"
    os.makedirs(out, exist_ok=True)
    lock = open(f"{out}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = f"{OUT}/gen"
    gl = open(f"{OUT}/.genlock", "w")
    fcntl.flock(gl, fcntl.LOCK_EX)
    gen_parser(gen)
    fcntl.flock(gl, fcntl.LOCK_UN)
    inc = incdirs(gen)
    flags = [*v["cflags"], *COMMON, *inc]
    jobs = []
    for m in MODULES:
        for s in sources(m):
            jobs.append((s, f"{out}/obj/{m}/" + os.path.relpath(s, f"{PLASMA}/{m}").replace("/", "_") + ".o", None))
        if m == "NDDL":
            for s in ("NDDL3Lexer", "NDDL3Parser", "NDDL3Tree"):
                jobs.append((f"{gen}/{s}.c", f"{out}/obj/NDDL/{s}.o", "c++"))
    libobjs = [j[1] for j in jobs]
    hs = a.harness
    if a.all:
        hs = sorted(f[:-3] for f in os.listdir(f"{VERIF}/harness") if f.endswith(".cc") and not f.startswith("_"))
    if a.needed:
        sys.path.insert(0, f"{VERIF}/tools")
        from registry import RUNS
        hs = sorted({h for r in RUNS.values() for h, v, _ in r if v == a.variant})
        if not hs:
            return 0
    hobjs = {}
    for h in hs:
        o = f"{out}/obj/harness/{h}.o"
        hobjs[h] = o
        jobs.append((f"{VERIF}/harness/{h}.cc", o, None))
    jobs.append((f"{VERIF}/harness/_pbt.cc", f"{out}/obj/harness/_pbt.o", None))
    # big files first
    jobs.sort(key=lambda j: -(os.path.getsize(j[0]) if os.path.exists(j[0]) else 0))
    failed, rebuilt = [], 0
    with cf.ThreadPoolExecutor(a.j) as ex:
        fs = [ex.submit(compile_one, v["cc"], flags + [f"-I{VERIF}/harness"] if "/harness/" in o else flags, s, o, l)
              for s, o, l in jobs]
        for f in cf.as_completed(fs):
            o, st, msg = f.result()
            if st is None:
                failed.append((o, msg))
            elif st:
                rebuilt += 1
    if failed:
        for o, m in failed:
            sys.stderr.write(f"BUILD FAILED {o}\n{m[-3000:]}\n")
        return 3

    def link(target, cmd, inputs):
        key = hashlib.sha256((" ".join(cmd) + " ".join(fhash(i) for i in inputs)).encode()).hexdigest()
        st = target + ".key"
        if os.path.exists(target) and os.path.exists(st) and open(st).read() == key:
            return
        tmp = target + ".tmp"
        p = subprocess.run([tmp if c == "@OUT" else c for c in cmd], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stderr.write(f"LINK FAILED {target}\n{p.stdout[-4000:]}\n")
            sys.exit(3)
        os.replace(tmp, target)
        _hash.pop(target, None)
        with open(st, "w") as f:
            f.write(key)

    lib = f"{out}/libeuropa.so"
    ext = ["-lantlr3c", "-ldl", "-lpthread"]
    link(lib, [v["cc"], "-m64", "-shared", *v["ld"], "-o", "@OUT", *libobjs, *ext], libobjs)
    with cf.ThreadPoolExecutor(a.j) as ex:
        list(ex.map(lambda h: link(f"{out}/{h}", [v["cc"], "-m64", "-rdynamic", *v["ld"], "-o", "@OUT", hobjs[h],
                                   f"{out}/obj/harness/_pbt.o", lib, f"-Wl,-rpath,{out}", *ext],
                                   [hobjs[h], f"{out}/obj/harness/_pbt.o", lib]), hs))
    sys.stderr.write(f"build: {rebuilt} of {len(jobs)} objects compiled ({a.variant})\n")
    return 0


if __name__ == "__main__":
    sys.exit(main())
