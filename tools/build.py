#!/usr/bin/env python3
"""Content-hash incremental builder: real libspu sources + simulator -> one binary.

Rebuilds from /repo's working tree. Never trusts mtimes.
Build output lives in /verif/build (git-ignored).
"""
import hashlib, json, os, re, shlex, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPU_REPO", "/repo")
BUILD = os.environ.get("SPU_SIM_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
CXX = os.environ.get("SIM_CXX", "clang++")

BASE_FLAGS = ("-std=gnu++17 -O1 -g0 -fno-strict-aliasing -Wno-enum-constexpr-conversion -march=x86-64-v3 -maes -mpclmul -w -pthread "
              "-DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -DFMT_SHARED -DFMT_DEPRECATED_OSTREAM "
              "-DSPU_BUILD -DSPU_SIM=1 -DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1").split()

# access instrumentation of the code under test; its call-outs are defined in sim/src/sim_access.cc
ACCESS_FLAGS = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]

# directories of libspu that are compiled, with exclusions
GROUPS = [
    ("core", []),
    ("mpc", ["cheetah/rlwe", "cheetah/arith", "cheetah/ot/emp", "cheetah/ot/yacl", "tools"]),
    ("kernel", ["test_util.cc"]),
]
EXTRA_FILES = ["device/executor.cc", "device/io.cc", "device/symbol_table.cc", "spu.cc"]
EXCLUDE = ["_test.cc", "_bench.cc", "beaver_server_main.cc", "arithmetic_gpu_ext.cc", "logging.cc"]

def repo_sources():
    out = []
    base = os.path.join(SRC, "libspu")
    for g, ex in GROUPS:
        for d, dirs, files in os.walk(os.path.join(base, g)):
            dirs.sort()
            rel = os.path.relpath(d, os.path.join(base, g))
            if any(rel == e or rel.startswith(e + "/") for e in ex):
                continue
            for f in sorted(files):
                if not f.endswith(".cc") or any(f.endswith(e) for e in EXCLUDE):
                    continue
                p = os.path.normpath(os.path.join(rel, f))
                if p in ex:
                    continue
                out.append(os.path.join(base, g, p))
    for f in EXTRA_FILES:
        p = os.path.join(base, f)
        if os.path.exists(p):
            out.append(p)
    return out

_hash_cache = {}
def fhash(p):
    h = _hash_cache.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[p] = h
    return h

def key_of(cmd, deps):
    h = hashlib.sha256()
    h.update("\0".join(cmd).encode())
    for d in sorted(deps):
        h.update(d.encode()); h.update(fhash(d).encode())
    return h.hexdigest()

def parse_deps(path):
    with open(path) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [os.path.normpath(x) for x in shlex.split(t)]

class Builder:
    def __init__(self, build=BUILD):
        self.build = build
        os.makedirs(build, exist_ok=True)
        self.state_path = os.path.join(build, "state.json")
        try:
            self.state = json.load(open(self.state_path))
        except Exception:
            self.state = {}
        self.compiled = 0

    def save(self):
        tmp = self.state_path + ".tmp"
        json.dump(self.state, open(tmp, "w"))
        os.replace(tmp, self.state_path)

    def run(self, cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))

    def step(self, out, cmd, deps, depfile=None):
        st = self.state.get(out)
        if st and os.path.exists(out) and st["key"] == key_of(cmd, st["deps"]) and set(deps) <= set(st["deps"]):
            return False
        os.makedirs(os.path.dirname(out), exist_ok=True)
        self.run(cmd)
        self.compiled += 1
        d = parse_deps(depfile) if depfile else list(deps)
        d = sorted(set(os.path.abspath(x) for x in d) | set(deps))
        self.state[out] = {"key": key_of(cmd, d), "deps": d}
        return True

    def protos(self):
        gen = os.path.join(self.build, "gen")
        os.makedirs(gen, exist_ok=True)
        srcs = []
        for rel in ["libspu/spu.proto", "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.proto"]:
            p = os.path.join(SRC, rel)
            out = os.path.join(gen, rel[:-6] + ".pb.cc")
            self.step(out, ["protoc", "-I" + SRC, "--cpp_out=" + gen, p], [p])
            srcs.append(out)
            # protobuf 3.21 cannot parse from a string_view; newer releases can.
            hdr = out[:-3] + ".h"
            t = open(hdr).read()
            if "sim_string_view" not in t:
                t = re.sub(r"(/\* @@protoc_insertion_point\(class_definition:[\w.]+\) \*/ \{)",
                           r"\1 public: /*sim_string_view*/ using ::google::protobuf::MessageLite::ParseFromString; bool ParseFromString(std::string_view d) { return this->ParseFromArray(d.data(), static_cast<int>(d.size())); } bool ParseFromString(const char* d) { return ParseFromString(std::string_view(d)); } private:", t)
                open(hdr, "w").write(t)
        return gen, srcs

    def objects(self, jobs=8, only=None):
        gen, pbs = self.protos()
        inc = ["-I" + os.path.join(VERIF, "sim/include"), "-I" + gen, "-I" + SRC,
               "-I" + os.path.join(VERIF, "harness"), "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/llvm-18"]
        units = []
        for s in repo_sources():
            units.append((s, os.path.join(self.build, "obj", os.path.relpath(s, REPO) + ".o")))
        for s in pbs:
            units.append((s, os.path.join(self.build, "obj/gen", os.path.basename(s) + ".o")))
        for dname in ["sim/src", "harness"]:
            for f in sorted(os.listdir(os.path.join(VERIF, dname))):
                if f.endswith(".cc"):
                    units.append((os.path.join(VERIF, dname, f), os.path.join(self.build, "obj", dname, f + ".o")))
        if only:
            units = [u for u in units if only in u[0]]
        errs = []
        def one(u):
            s, o = u
            dep = o + ".d"
            os.makedirs(os.path.dirname(o), exist_ok=True)
            cmd = [CXX] + BASE_FLAGS + (ACCESS_FLAGS if s.startswith(SRC) else []) + inc + ["-MMD", "-MF", dep, "-c", s, "-o", o]
            try:
                self.step(o, cmd, [s], dep)
            except Exception as e:
                errs.append((s, str(e)))
        # big ones first
        units.sort(key=lambda u: -os.path.getsize(u[0]))
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, units))
        self.save()
        return units, errs

    def link(self, units, name="simrun"):
        out = os.path.join(self.build, name)
        # the simulator's own copies of inline functions come first: it never runs instrumented ones
        objs = sorted((o for _, o in units), key=lambda o: ("/obj/sim/" not in o, "/obj/harness/" not in o, o))
        libs = ["-lprotobuf", "-lfmt", "-lspdlog", "-lboost_context"] + subprocess.run(
            ["pkg-config", "--libs", "absl_flat_hash_map", "absl_strings", "absl_synchronization", "absl_time", "absl_status", "absl_str_format"],
            stdout=subprocess.PIPE, text=True).stdout.split() + ["-ldl", "-lcrypto"]
        rsp = os.path.join(self.build, "link.rsp")
        with open(rsp, "w") as f:
            f.write("\n".join(objs))
        cmd = [CXX, "-pthread", "-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld") else "-fuse-ld=bfd", "-rdynamic", "-o", out, "@" + rsp] + libs
        self.step(out, cmd, objs)
        self.save()
        return out

def main(only=None):
    t = time.time()
    b = Builder()
    units, errs = b.objects(only=only)
    for s, e in errs:
        print("FAIL", s); print(e[-3000:])
    if errs:
        print("%d errors" % len(errs)); return 2
    if not only:
        print(b.link(units))
    print("build: %d steps, %.1fs" % (b.compiled, time.time() - t))
    return 0

if __name__ == "__main__":
    sys.exit(main(sys.argv[1] if len(sys.argv) > 1 else None))
