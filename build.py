#!/usr/bin/env python3
"""Builds the simulator around the current working tree of the repository.

  build.py [OUTDIR]     prints the directory that holds `engine`, `libcut.so`

The library's sources are compiled unmodified, with the compiler's
thread-sanitizer instrumentation (whose runtime is sim/rt/rt.cpp), against a
simulated Sleipnir (sim/stub) and a stand-in for cxx's C++ header; every clock,
lock, wait, thread and memory primitive they use is routed to the simulator at
link time (sim/rt/wrap.cpp). Nothing is written inside the repository.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = Path(os.environ.get("SIM_REPO", "/repo"))
SIM = HERE / "sim"
CXX = os.environ.get("SIM_CXX", "g++")


class BuildError(Exception):
    pass


def run(cmd, env=None):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("$ " + " ".join(map(str, cmd)) + "\n" + r.stdout[-6000:])
    return r.stdout


# ------------------------------------------------------- cxx bridge structures
RUST_TYPES = {"f64": "double", "f32": "float", "usize": "::std::size_t", "isize": "::std::ptrdiff_t",
              "bool": "bool", "u8": "::std::uint8_t", "i8": "::std::int8_t", "u16": "::std::uint16_t",
              "i16": "::std::int16_t", "u32": "::std::uint32_t", "i32": "::std::int32_t",
              "u64": "::std::uint64_t", "i64": "::std::int64_t", "String": "::rust::String"}


def cpp_type(t):
    t = t.strip()
    m = re.fullmatch(r"Vec\s*<(.*)>", t, re.S)
    if m:
        return "::rust::Vec<%s>" % cpp_type(m.group(1))
    m = re.fullmatch(r"\[(.*);\s*(\d+)\]", t, re.S)
    if m:
        return "::std::array<%s, %s>" % (cpp_type(m.group(1)), m.group(2))
    return RUST_TYPES.get(t, t)


def strip_comments(src):
    src = re.sub(r"//[^\n]*", "", src)
    return re.sub(r"/\*.*?\*/", "", src, flags=re.S)


class Bridge:
    """The cxx bridge module of lib.rs: its shared structures and functions."""

    def __init__(self, lib_rs):
        src = strip_comments(lib_rs)
        m = re.search(r"#\[cxx::bridge(?:\(namespace\s*=\s*\"([^\"]*)\"\))?\]\s*(?:pub\s+)?mod\s+\w+\s*\{", src)
        if not m:
            raise BuildError("no cxx bridge module in lib.rs")
        self.ns = m.group(1) or ""
        body = src[m.end():self.close(src, m.end())]
        structs, self.derives = {}, {}
        for s in re.finditer(r"((?:#\[[^\]]*\]\s*)*)(?:pub\s+)?struct\s+(\w+)\s*\{(.*?)\}", body, re.S):
            fields = []
            text = re.sub(r"#\[[^\]]*\]", "", s.group(3))
            for f in re.findall(r"(?:pub\s+)?(\w+)\s*:\s*((?:Vec\s*<[^,]*>|\[[^\]]*\]|[\w:]+))", text):
                fields.append((f[0], f[1]))
            structs[s.group(2)] = fields
            self.derives[s.group(2)] = [d for ds in re.findall(r"derive\(([^)]*)\)", s.group(1))
                                        for d in re.findall(r"\w+", ds)]
        # structures in an order in which every one follows those it contains
        self.structs = {}

        def visit(n):
            if n in self.structs:
                return
            for _, t in structs[n]:
                for w in re.findall(r"\w+", t):
                    if w in structs and w != n:
                        visit(w)
            self.structs[n] = structs[n]

        for n in structs:
            visit(n)
        self.types, self.fns = [], []
        for m in re.finditer(r"extern\s+\"C\+\+\"\s*\{", body):
            block = body[m.end():self.close(body, m.end())]
            block = re.sub(r"#\[[^\]]*\]", "", block)
            self.types += re.findall(r"\btype\s+(\w+)\s*;", block)
            for f in re.finditer(r"\b(?:unsafe\s+)?fn\s+(\w+)\s*\(", block):
                end = self.close(block, f.end(), "(", ")")
                rest = block[end + 1:block.index(";", end)]
                r = re.match(r"\s*->\s*(.*)", rest, re.S)
                args = []
                for a in self.split(block[f.end():end]):
                    k, _, t = a.partition(":")
                    args.append((k.strip(), " ".join(t.split())))
                self.fns.append((f.group(1), args, " ".join(r.group(1).split()) if r else ""))

    @staticmethod
    def close(s, i, a="{", b="}"):
        depth = 1
        while i < len(s):
            depth += {a: 1, b: -1}.get(s[i], 0)
            if not depth:
                return i
            i += 1
        raise BuildError("unbalanced lib.rs")

    @staticmethod
    def split(s):
        out, depth, cur = [], 0, ""
        for c in s:
            depth += {"(": 1, "<": 1, "[": 1, ")": -1, ">": -1, "]": -1}.get(c, 0)
            if c == "," and not depth:
                out.append(cur)
                cur = ""
            else:
                cur += c
        return [x.strip() for x in out + [cur] if x.strip()]

    def header(self):
        out = ["#pragma once", "#include <array>", "#include <cstddef>", "#include <cstdint>",
               "#include <vector>", "#include <rust/cxx.h>", '#include "RustFFI.hpp"',
               "namespace %s {" % self.ns]
        for n, fields in self.structs.items():
            out.append("struct %s final {" % n)
            for name, t in fields:
                out.append("  %s %s{};" % (cpp_type(t), name))
            out.append("};")
        out.append("}")
        return "\n".join(out) + "\n"

    # The rest makes both halves of the bridge callable without cxx: generated
    # code on either side exchanges values in the byte format of sim/rust.
    def receiver(self, args):
        if not args or args[0][0] not in ("self", "&self", "&mut self"):
            return None
        t = args[0][1] or ("&" + self.types[0])
        return re.sub(r"Pin\s*<\s*&mut\s+(\w+)\s*>|&\s*(?:mut\s+)?(\w+)", lambda m: m.group(1) or m.group(2), t)

    def full(self, t):  # C++ spelling, names qualified
        if t == "&str" or t == "&String":
            t = "String"
        t = re.sub(r"^&\s*(mut\s+)?", "", t)
        return re.sub(r"(?<![:\w])(\w+)", lambda m: "::%s::%s" % (self.ns, m.group(1))
                      if m.group(1) in self.structs else m.group(1), cpp_type(t))

    def rust_half(self):
        o = ["use cxx::wire::{call, Reply, Wire};", "use std::pin::Pin;", "use cxx::UniquePtr;"]
        for t in self.types:
            o.append("#[repr(C)] pub struct %s { _p: [u8; 0], _m: std::marker::PhantomData<(*mut u8, "
                     "std::marker::PhantomPinned)> }" % t)
            o.append('extern "C" { fn simbridge_release_%s(p: *mut u8); }' % t)
            o.append("impl cxx::Target for %s { unsafe fn __release(p: *mut Self) "
                     "{ simbridge_release_%s(p as *mut u8) } }" % (t, t))
        for n, fields in self.structs.items():
            d = [x for x in self.derives[n] if x not in ("Serialize", "Deserialize")]
            if d:
                o.append("#[derive(%s)]" % ", ".join(d))
            o.append("pub struct %s {" % n)
            o += ["    pub %s: %s," % f for f in fields]
            o.append("}")
            o.append("impl Wire for %s {" % n)
            o.append("    fn put(&self, o: &mut Vec<u8>) { %s }" % " ".join("self.%s.put(o);" % f for f, _ in fields))
            o.append("    fn get(i: &mut &[u8]) -> Self { %s { %s } }" % (
                n, ", ".join("%s: Wire::get(i)" % f for f, _ in fields)))
            o.append("}")
        for k, (name, args, ret) in enumerate(self.fns):
            recv = self.receiver(args)
            o.append('extern "C" { fn simbridge_%s(this: *const u8, a: *const u8, n: usize, r: *mut Reply); }' % name)
            body = ["let mut w: Vec<u8> = Vec::new();"]
            for j, (a, t) in enumerate(args[1:] if recv else args):
                fm = re.match(r"fn\s*\((.*)\)$", t)
                if fm:
                    ts = self.split(fm.group(1))
                    ts = [x.split(":")[-1].strip() for x in ts]
                    o.append('#[no_mangle] pub unsafe extern "C" fn simbridge_cb_%s_%d(f: usize, p: *const u8, n: usize) {'
                             % (name, j))
                    o.append("    let f: fn(%s) = std::mem::transmute(f);" % ", ".join(ts))
                    o.append("    let mut i: &[u8] = std::slice::from_raw_parts(p, n);")
                    for q, x in enumerate(ts):
                        o.append("    let a%d: %s = Wire::get(&mut i);" % (q, x))
                    o.append("    f(%s);" % ", ".join("a%d" % q for q in range(len(ts))))
                    o.append("}")
                    body.append("(%s as usize).put(&mut w);" % a)
                elif t == "&str":
                    body.append("%s.to_string().put(&mut w);" % a)
                else:
                    body.append("Wire::put(%s%s, &mut w);" % ("" if t.startswith("&") else "&", a))
            this = "std::ptr::null()"
            if recv:
                this = "(&*self as *const %s) as *const u8" % recv
            body.append("let r = unsafe { call(simbridge_%s, %s, &w) };" % (name, this))
            m = re.match(r"Result\s*<(.*)>$", ret)
            inner = m.group(1).strip() if m else ret
            u = re.match(r"UniquePtr\s*<\s*(\w+)\s*>$", inner)
            if u:
                conv = "{ let p: usize = Wire::get(&mut &v[..]); UniquePtr::__from(p as *mut %s) }" % u.group(1)
            elif inner in ("", "()"):
                conv = "()"
            else:
                conv = "<%s as Wire>::get(&mut &v[..])" % inner
            if m:
                body.append("match r { Ok(v) => Ok(%s), Err(e) => Err(cxx::Exception::__new(e)) }" % conv)
                rt = " -> Result<%s, cxx::Exception>" % inner
            elif inner in ("", "()"):
                body.append("let _ = r;")
                rt = ""
            elif u:
                body.append("match r { Ok(v) => %s, Err(_) => UniquePtr::null() }" % conv)
                rt = " -> %s" % inner
            else:
                body.append("let v = r.expect(\"exception\"); %s" % conv)
                rt = " -> %s" % inner
            sig = []
            if recv:
                sig.append("self: Pin<&mut Self>" if "Pin" in args[0][1] else "&self")
            sig += ["%s: %s" % a for a in (args[1:] if recv else args)]
            fn = "pub fn %s(%s)%s { %s }" % (name, ", ".join(sig), rt, " ".join(body))
            o.append("impl %s { %s }" % (recv, fn) if recv else fn)
        return "\n".join(o) + "\n"

    def cpp_half(self):
        o = ['#include "RustFFI.hpp"', '#include "trajoptlib/src/lib.rs.h"', '#include "wire.h"',
             "namespace simbridge {"]
        for n, fields in self.structs.items():
            f = self.full(n)
            o.append("template <> struct Wire<%s> {" % f)
            o.append("  static void put(Buf& o, const %s& v) { %s }" % (f, " ".join(
                "Wire<%s>::put(o, v.%s);" % (self.full(t), x) for x, t in fields)))
            o.append("  static void get(Reader& r, %s& v) { %s }" % (f, " ".join(
                "Wire<%s>::get(r, v.%s);" % (self.full(t), x) for x, t in fields)))
            o.append("};")
        o.append("}")
        o.append("using namespace simbridge;")
        o.append('extern "C" {')
        for t in self.types:
            o.append("void simbridge_release_%s(unsigned char* p) { delete reinterpret_cast<::%s::%s*>(p); }"
                     % (t, self.ns, t))
        for name, args, ret in self.fns:
            recv = self.receiver(args)
            pre, call, body = [], [], []
            for j, (a, t) in enumerate(args[1:] if recv else args):
                fm = re.match(r"fn\s*\((.*)\)$", t)
                if fm:
                    ts = [self.full(x.split(":")[-1].strip()) for x in self.split(fm.group(1))]
                    pre.append("void simbridge_cb_%s_%d(size_t f, const unsigned char* p, size_t n);" % (name, j))
                    pre.append("static void tramp_%s_%d(%s, void* f) { Buf b; %s simbridge_cb_%s_%d((size_t)f, b.data(), b.size()); }"
                               % (name, j, ", ".join("%s a%d" % (x, q) for q, x in enumerate(ts)),
                                  " ".join("Wire<%s>::put(b, a%d);" % (x, q) for q, x in enumerate(ts)), name, j))
                    body.append("rust::Fn<void(%s)> a%d(tramp_%s_%d, (void*)take<size_t>(in));" % (", ".join(ts), j, name, j))
                    call.append("a%d" % j)
                else:
                    body.append("auto a%d = take<%s>(in);" % (j, self.full(t)))
                    call.append("a%d" % j if t.startswith("&") else "std::move(a%d)" % j)
            m = re.match(r"Result\s*<(.*)>$", ret)
            inner = m.group(1).strip() if m else ret
            if recv:
                c = "reinterpret_cast<%s::%s::%s*>(self)->%s(%s)" % (
                    "" if "Pin" in args[0][1] else "const ", self.ns, recv, name, ", ".join(call))
            else:
                c = "::%s::%s(%s)" % (self.ns, name, ", ".join(call))
            if inner.startswith("UniquePtr"):
                act = "reply<size_t>(out, (size_t)(%s).release());" % c
            elif inner in ("", "()"):
                act = c + ";"
            else:
                act = "reply<%s>(out, %s);" % (self.full(inner), c)
            o += pre
            o.append("void simbridge_%s(unsigned char* self, const unsigned char* p, size_t n, Reply* out) {" % name)
            o.append("  Reader in{p, n};")
            o += ["  " + b for b in body]
            o.append("  guarded(out, [&] { %s });" % act)
            o.append("}")
        o.append("}")
        return "\n".join(o) + "\n"


# ----------------------------------------------------------------------- build
def sources():
    return sorted((REPO / "src").rglob("*.cpp"))


def fingerprint():
    h = hashlib.sha256()
    files = []
    for d in (REPO / "src", REPO / "include", SIM):
        files += [p for p in d.rglob("*") if p.is_file()]
    files.append(Path(__file__))
    for p in sorted(files):
        h.update(str(p).encode() + b"\0")
        h.update(p.read_bytes() + b"\0")
    h.update(CXX.encode())
    return h.hexdigest()[:16]


def build(root=None):
    root = Path(root or os.environ.get("SIM_BUILD") or HERE / "build")
    root.mkdir(parents=True, exist_ok=True)
    with open(root / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = root / fingerprint()
        if (out / "ok").exists():
            return out
        olds = sorted((p for p in root.iterdir() if p.is_dir()), key=lambda p: p.stat().st_mtime)
        for p in olds[:-3]:
            shutil.rmtree(p)
        if out.exists():
            shutil.rmtree(out)
        (out / "obj").mkdir(parents=True)
        gen = out / "gen" / "trajoptlib" / "src"
        gen.mkdir(parents=True)
        bridge = Bridge((REPO / "src" / "lib.rs").read_text())
        (gen / "lib.rs.h").write_text(bridge.header())
        (out / "gen" / "bridge.rs").write_text(bridge.rust_half())
        (out / "gen" / "bridge.cpp").write_text(bridge.cpp_half())
        compile_all(out)
        (out / "ok").touch()
        return out


RUST_FLAGS = ["--edition", "2021", "-O", "-A", "warnings"]


def rust_half(out):
    """Builds lib.rs over a stand-in for cxx; None, with the reason in out/rust, where that fails."""
    rustc = shutil.which("rustc") or "/root/.cargo/bin/rustc"
    o, src = out / "obj", SIM / "rust"
    env = dict(os.environ, SIM_BRIDGE_RS=str(out / "gen" / "bridge.rs"))

    def rs(kind, name, file, *more):
        lib = o / {"proc-macro": "lib%s.so", "rlib": "lib%s.rlib", "staticlib": "lib%s.a"}[kind].__mod__(name)
        run([rustc, *RUST_FLAGS, "--crate-type", kind, "--crate-name", name, str(file), "-L", str(o), *more,
             "-o", str(lib)], env)
        return lib

    try:
        m = rs("proc-macro", "bridge_macro", src / "bridge_macro.rs")
        c = rs("rlib", "cxx", src / "cxx.rs", "--extern", "bridge_macro=%s" % m)
        t = rs("rlib", "trajoptlib", REPO / "src" / "lib.rs", "--extern", "cxx=%s" % c)
        a = rs("staticlib", "user", src / "user.rs", "-C", "panic=abort", "--extern", "trajoptlib=%s" % t)
        (out / "rust").write_text("")
        return a
    except (BuildError, OSError) as e:
        (out / "rust").write_text(str(e))
        return None


def compile_all(out):
    inc = ["-I%s" % (REPO / "include"), "-I%s" % (REPO / "src"), "-I%s" % (out / "gen"),
           "-I%s" % (SIM / "engine"), "-isystem", str(SIM / "stub")]
    base = ["-std=c++20", "-g", "-fPIC", "-fno-omit-frame-pointer", "-w"]
    cut = base + ["-O1", "-DNDEBUG", "-fsanitize=thread", "-DTRAJOPT_EXPORTS"] + inc
    host = base + ["-O2", "-I%s" % (SIM / "stub"), "-I%s" % (SIM / "engine")]
    jobs, cut_objs, host_objs = [], [], []

    def add(src, flags, name, objs):
        o = out / "obj" / (name + ".o")
        objs.append(o)
        jobs.append([CXX, *flags, "-c", str(src), "-o", str(o)])

    add(SIM / "cut" / "adapter.cpp", cut, "adapter", cut_objs)
    for n, s in enumerate(sources()):
        add(s, cut, "lib%d_%s" % (n, s.stem), cut_objs)
    add(SIM / "rt" / "wrap.cpp", base + ["-O2"], "wrap", cut_objs)
    for s in sorted((SIM / "engine").glob("*.cpp")):
        add(s, host, "eng_" + s.stem, host_objs)
    add(SIM / "rt" / "rt.cpp", host, "rt", host_objs)
    jobs.append([CXX, "-std=c++20", "-O1", "-g", "-w", "-I%s" % (REPO / "include"), "-isystem", str(SIM / "stub"),
                 str(SIM / "expected" / "expected_sim.cpp"), "-o", str(out / "expected_sim")])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        rust = ex.submit(rust_half, out)
        list(ex.map(run, jobs[1:]))
        rust = rust.result()
    link = []
    if rust:
        o = out / "obj" / "bridge.o"
        try:
            run([CXX, *cut, "-I%s" % (SIM / "rust"), "-c", str(out / "gen" / "bridge.cpp"), "-o", str(o)])
            link = [str(o), str(rust)]
        except BuildError as e:
            (out / "rust").write_text(str(e))
    run([*jobs[0], *(["-DSIM_RUST", "-I%s" % (SIM / "rust")] if link else [])])

    wraps = sorted(set(re.findall(r"\b__wrap_(\w+)\s*\(", (SIM / "rt" / "wrap.cpp").read_text())))
    (out / "export.map").write_text('{ global: extern "C++" { cut_*; }; local: *; };\n')
    run([CXX, "-shared", "-o", str(out / "libcut.so"), *map(str, cut_objs), *link, "-Wl,-Bsymbolic",
         "-Wl,--version-script=%s" % (out / "export.map"), *["-Wl,--wrap=" + w for w in wraps]])
    run([CXX, "-o", str(out / "engine"), *map(str, host_objs), "-rdynamic", "-L%s" % out, "-lcut",
         "-Wl,-rpath,$ORIGIN", "-lpthread"])


if __name__ == "__main__":
    try:
        print(build(sys.argv[1] if len(sys.argv) > 1 else None))
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
