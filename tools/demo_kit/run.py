#!/usr/bin/env python3
"""Builds the parts of libspu that a demonstration needs (argv: protocol directories) from the
current directory, against the simulator in kit.tgz beside this file, and runs demo.cc."""
import glob, os, re, subprocess, sys, tarfile, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(os.getcwd(), "src")
EXCL = ("_test.cc", "_bench.cc", "beaver_server_main.cc", "arithmetic_gpu_ext.cc", "logging.cc", "test_util.cc", "factory.cc")
FLAGS = ("-std=gnu++17 -O0 -g0 -fno-strict-aliasing -Wno-enum-constexpr-conversion -march=x86-64-v3 -maes -mpclmul -w -pthread "
         "-DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -DFMT_SHARED -DFMT_DEPRECATED_OSTREAM "
         "-DSPU_BUILD -DSPU_SIM=1 -DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1").split()

def main():
    with tempfile.TemporaryDirectory() as w:
        with tarfile.open(os.path.join(HERE, "kit.tgz")) as t:
            t.extractall(w)
        gen = os.path.join(w, "gen"); os.makedirs(gen)
        units = []
        def add(*pats):
            for p in pats:
                for f in sorted(glob.glob(os.path.join(SRC, "libspu", p), recursive=True)):
                    if not f.endswith(EXCL):
                        units.append(f)
        add("core/*.cc", "mpc/common/*.cc", "mpc/utils/*.cc", "mpc/*.cc", "mpc/standard_shape/*.cc")
        protos = ["libspu/spu.proto"]
        race_flags = []
        sims = ["sim_core", "sim_threads", "sim_yacl", "sim_absl", "sim_access", "sim_race"]
        for a in sys.argv[1:]:
            if a == "races":
                race_flags += ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-O1"]
            elif a == "semi2k":
                add("mpc/semi2k/**/*.cc", "mpc/semi2k/*.cc")
                protos.append("libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.proto")
                sims += ["sim_brpc", "sim_leveldb"]
            elif a == "kernel":
                add("kernel/**/*.cc")
            elif a == "cheetah":
                units.extend(f for f in sorted(glob.glob(os.path.join(SRC, "libspu/mpc/cheetah/**/*.cc"), recursive=True))
                             if not f.endswith(EXCL) and not any(x in f for x in ("/rlwe/", "/cheetah/arith/", "/ot/emp/", "/ot/yacl/")))
                sims += ["sim_cheetah_he", "sim_ferret"]
            elif "/" in a:
                add(a)
            else:
                add("mpc/%s/**/*.cc" % a)
        units = sorted(set(units))
        for rel in protos:
            subprocess.check_call(["protoc", "-I" + SRC, "--cpp_out=" + gen, os.path.join(SRC, rel)])
            out = os.path.join(gen, rel[:-6] + ".pb.cc")
            units.append(out)
            hdr = out[:-3] + ".h"
            t = open(hdr).read()
            t = re.sub(r"(/\* @@protoc_insertion_point\(class_definition:[\w.]+\) \*/ \{)",
                       r"\1 public: using ::google::protobuf::MessageLite::ParseFromString; bool ParseFromString(std::string_view d) { return this->ParseFromArray(d.data(), static_cast<int>(d.size())); } bool ParseFromString(const char* d) { return ParseFromString(std::string_view(d)); } private:", t)
            open(hdr, "w").write(t)
        units += [os.path.join(w, "sim/src", s + ".cc") for s in sims]
        units.append(os.path.join(HERE, "demo.cc"))
        inc = ["-I" + os.path.join(w, "sim/include"), "-I" + gen, "-I" + SRC, "-I" + w, "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/llvm-18"]
        objs = [os.path.join(w, "%d.o" % i) for i in range(len(units))]
        def cc(i):
            r = subprocess.run(["clang++"] + FLAGS + (race_flags if units[i].startswith(SRC) else []) + inc + ["-c", units[i], "-o", objs[i]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print("cannot compile", units[i], r.stdout[-3000:])
            return r.returncode
        order = sorted(range(len(units)), key=lambda i: -os.path.getsize(units[i]))
        with ThreadPoolExecutor(max(4, os.cpu_count() or 4)) as ex:
            if any(list(ex.map(cc, order))):
                return 3
        libs = ["-lprotobuf", "-lfmt", "-lspdlog", "-lboost_context"] + subprocess.run(
            ["pkg-config", "--libs", "absl_flat_hash_map", "absl_strings", "absl_synchronization", "absl_time", "absl_status", "absl_str_format"],
            stdout=subprocess.PIPE, text=True).stdout.split() + ["-ldl", "-lcrypto"]
        exe = os.path.join(w, "demo")
        r = subprocess.run(["clang++", "-pthread", "-fuse-ld=lld", "-rdynamic", "-o", exe] + objs + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("cannot link", r.stdout[:3000]); return 3
        try:
            return subprocess.run([exe], timeout=120, cwd=w).returncode
        except subprocess.TimeoutExpired:
            print("demo timed out"); return 4

sys.exit(1 if main() else 0)
