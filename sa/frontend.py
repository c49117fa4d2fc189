"""Front end: compile the working tree of the repository to LLVM IR with the
project's own language flags and load the resolved program into Python.

Nothing is executed: clang translates, `opt -passes=sroa` puts locals in SSA
form, tools/irdump renders the result as JSON, and the classes below index it.
"""
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class AnalysisBroken(Exception):
    """The analysis could not be set up or lost its anchor: never a verdict."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
    return p.stdout


def _irdump():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(exe):
        flags = run(["llvm-config-18", "--cxxflags"]).split()
        tmp = exe + ".%d" % os.getpid()
        run(["g++", "-O1", "-w"] + flags + ["-fexceptions", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.replace(tmp, exe)
    return exe


def source_files(repo):
    out = []
    for root, dirs, files in os.walk(os.path.join(repo, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".l", ".y")):
                out.append(os.path.relpath(os.path.join(root, f), repo))
    return out


def tree_hash(repo):
    h = hashlib.sha256()
    for top in ("src", "include"):
        for root, dirs, files in os.walk(os.path.join(repo, top)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, repo).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for p in (os.path.join(VERIF, "tools", "irdump.cpp"), os.path.abspath(__file__)):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


class Fn:
    __slots__ = ("name", "mod", "decl", "internal", "noreturn", "ret", "line", "file", "args", "blocks", "vars",
                 "key", "ins", "bof", "succ", "pred", "_live", "_loops", "oname", "dts")

    def __repr__(self):
        return "<fn %s>" % self.key


class Program:
    def __init__(self, repo, modules):
        self.repo = repo
        self.fns = {}        # key -> Fn
        self.by_name = {}    # name -> [Fn]
        self.globals = {}    # (mod,name) -> g ; external also under (None,name)
        self.records = {}
        self.enums = {}
        self.structs = {}
        self.modules = []
        for m in modules:
            src = m["source_rel"]
            self.modules.append(src)
            self.structs.update(m["structs"])
            for k, v in m["records"].items():
                self.records.setdefault(k, v)
            for k, v in m["enums"].items():
                if k.startswith("anon"):
                    k = src + ":" + k
                self.enums.setdefault(k, {e["n"]: e["v"] for e in v})
            for n, g in m["globals"].items():
                for c in g.get("cells", ()):
                    if isinstance(c.get("str"), str):
                        c["str"] = bytes.fromhex(c["str"])
                        c["s"] = len(c["str"])
                    elif "zero" in c:
                        c["s"] = c["zero"]
                self.globals[(src, n)] = g
                if not g["internal"] and "cells" in g:
                    self.globals[(None, n)] = g
            for f in m["functions"]:
                if f["decl"]:
                    continue
                F = Fn()
                F.name = f["name"]
                F.oname = f.get("oname", F.name)
                F.mod = src
                F.decl = False
                F.internal = f["internal"]
                F.noreturn = f["noreturn"]
                F.ret = f["ret"]
                F.line = f.get("line", 0)
                F.file = src
                F.args = f["args"]
                F.dts = f.get("dts", [])
                F.blocks = [b["ins"] for b in f["blocks"]]
                F.vars = f["vars"]
                F.key = (src + ":" + F.name) if F.internal else F.name
                F.ins = {}
                F.bof = {}
                F.succ = []
                for bi, b in enumerate(F.blocks):
                    for x in b:
                        F.ins[x["id"]] = x
                        F.bof[x["id"]] = bi
                    F.succ.append(successors(b[-1]))
                F.pred = [[] for _ in F.blocks]
                for bi, ss in enumerate(F.succ):
                    for s in ss:
                        F.pred[s].append(bi)
                F._live = None
                F._loops = None
                self.fns[F.key] = F
                self.by_name.setdefault(F.name, []).append(F)

    def resolve(self, mod, name):
        """function definition called `name` from module `mod` (or None if external)"""
        f = self.fns.get(mod + ":" + name)
        if f is None:
            f = self.fns.get(name)
        return f

    def fn(self, name, mod=None):
        if mod is not None:
            f = self.resolve(mod, name)
            if f is not None:
                return f
        c = self.by_name.get(name, [])
        if len(c) != 1:
            raise AnalysisBroken("anchor function %s%s: %d definitions" % (name, " in " + mod if mod else "", len(c)))
        return c[0]

    def global_(self, mod, name):
        g = self.globals.get((mod, name))
        if g is None or ("cells" not in g):
            g = self.globals.get((None, name), g)
        return g

    def field(self, rec, name):
        r = self.records.get(rec)
        if r is None:
            raise AnalysisBroken("record %s not found" % rec)
        for f in r["fields"]:
            if f["n"] == name:
                return f
        raise AnalysisBroken("field %s.%s not found" % (rec, name))

    def off(self, rec, name):
        return self.field(rec, name)["o"]

    def enum(self, name):
        for v in self.enums.values():
            if name in v:
                return v[name]
        raise AnalysisBroken("enumerator %s not found" % name)


def successors(x):
    if x["op"] == "br":
        return list(x["succ"])
    if x["op"] == "switch":
        s = [c["b"] for c in x["cases"]]
        if x["def"] not in s:
            s.append(x["def"])
        return s
    return []


def _compile_one(args):
    repo, tmp, cfile, rel, exe, incs, skip_body = args
    base = re.sub(r"[^A-Za-z0-9]", "_", rel)
    ll = os.path.join(tmp, base + ".ll")
    sl = os.path.join(tmp, base + ".s.ll")
    js = os.path.join(tmp, base + ".json")
    run(["clang-18", "-std=gnu11", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g", "-w",
         "-S", "-emit-llvm", "-fpic"] + incs + [cfile, "-o", ll], cwd=repo)
    run(["opt-18", "-S", "-passes=sroa", ll, "-o", sl])
    run([exe, sl, js])
    with open(js) as fh:
        m = json.load(fh)
    m["source_rel"] = rel
    return m


def load(repo=None, use_cache=True):
    repo = repo or REPO
    if not os.path.isdir(os.path.join(repo, "src")):
        raise AnalysisBroken("no source tree at " + repo)
    key = tree_hash(repo)
    cache = os.path.join(BUILD, "ir-" + key[:24] + ".pickle")
    if use_cache and os.path.exists(cache):
        try:
            with open(cache, "rb") as fh:
                mods = pickle.load(fh)
            return Program(repo, mods)
        except Exception:
            pass
    exe = _irdump()
    tmp = tempfile.mkdtemp(prefix="vsa-")
    try:
        gen = os.path.join(tmp, "gen")
        os.makedirs(gen)
        jobs = []
        incs = ["-I", os.path.join(repo, "include"), "-I", gen]
        srcs = source_files(repo)
        if len(srcs) < 20:
            raise AnalysisBroken("only %d source files found" % len(srcs))
        for s in srcs:
            p = os.path.join(repo, s)
            b = os.path.splitext(os.path.basename(s))[0]
            if s.endswith(".l"):
                out = os.path.join(gen, b + ".yy.c")
                run(["flex", "--header-file=" + os.path.join(gen, b + ".yy.h"), "-o", out, p])
                jobs.append((repo, tmp, out, s, exe, incs, True))
            elif s.endswith(".y"):
                out = os.path.join(gen, b + ".tab.c")
                run(["bison", "-Wnone", "-d", "-o", out, p])
                jobs.append((repo, tmp, out, s, exe, incs, True))
            else:
                jobs.append((repo, tmp, p, s, exe, incs, False))
        with ThreadPoolExecutor(8) as ex:
            mods = list(ex.map(_compile_one, jobs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if use_cache:
        try:
            t = cache + ".%d" % os.getpid()
            with open(t, "wb") as fh:
                pickle.dump(mods, fh, protocol=4)
            os.replace(t, cache)
        except OSError:
            pass
    return Program(repo, mods)


if __name__ == "__main__":
    P = load()
    print(len(P.fns), "functions", sum(len(f.ins) for f in P.fns.values()), "instructions")
