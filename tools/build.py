#!/usr/bin/env python3
"""Builds harness binaries in /verif/build/<variant> from /repo's working tree.

usage: build.py VARIANT TARGET...     (VARIANT: asan | tsan | fuzz | plain)
"""
import glob, hashlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", V + "/build")

SAN = {
    "asan": "-O0 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,function,float-cast-overflow,nonnull-attribute,pointer-overflow,alignment,shift -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
    "tsan": "-O1 -g1 -fsanitize=thread",
    "fuzz": "-O1 -g1 -fsanitize=address,undefined,fuzzer-no-link -fno-sanitize=vptr,function,float-cast-overflow,nonnull-attribute,pointer-overflow,alignment,shift -fno-sanitize-recover=undefined",
    "plain": "-O1 -g1",
}
LIBS = "-lboost_log_setup -lboost_log -lboost_thread -lboost_filesystem -lboost_timer -lboost_chrono -lboost_program_options -lboost_system -lssl -lcrypto -lprotobuf -lpthread -lrt"
WRAP = " ".join("-Wl,--wrap=" + s for s in [
    "_ZN9Bloomberg8amqpprox6Server3runEv",
    "_ZN9Bloomberg8amqpprox7Control3runEv",
    "_ZN9Bloomberg8amqpprox7Logging5startERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
    "_ZN9Bloomberg8amqpprox7Logging4stopEv",
    "_ZN9Bloomberg8amqpprox7Logging19setConsoleVerbosityEi",
    "_ZN9Bloomberg8amqpprox7Logging16setFileVerbosityEi",
])

def binaries():
    """name -> (harness sources, extra link flags, needs in-process main)"""
    b = {}
    for f in sorted(glob.glob(V + "/unit/*.cpp")):
        b["unit_" + os.path.basename(f)[:-4]] = ([f, V + "/world/refamqp.cpp", V + "/world/sysdns.cpp", V + "/world/vclock.cpp", V + "/pbt/pbt.cpp"], "", False)
    for f in sorted(glob.glob(V + "/world/w_*.cpp")):
        b["world_" + os.path.basename(f)[2:-4]] = ([f, V + "/world/scen.cpp", V + "/world/world.cpp", V + "/world/refamqp.cpp", V + "/world/sysnet.cpp", V + "/world/sysdns.cpp", V + "/world/vclock.cpp", V + "/pbt/pbt.cpp"], WRAP, True)
    b["amqpprox"] = (["@main", V + "/world/sysdns.cpp"], "", False)
    b["amqpprox_ctl"] = (["@ctl"], "", False)
    return b

def esc(s): return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def touch_changed(bdir, files):
    """ninja goes by mtime; touch our stamp of files whose content changed."""
    sums_f = bdir + "/.sums.json"
    try: old = json.load(open(sums_f))
    except Exception: old = {}
    new = {}
    for f in files:
        new[f] = hashlib.sha256(open(f, "rb").read()).hexdigest()
        if f in old and old[f] != new[f]:
            os.utime(f)
    json.dump(new, open(sums_f, "w"))

def main():
    variant, wanted = sys.argv[1], sys.argv[2:]
    bdir = f"{BUILD}/{variant}"
    os.makedirs(bdir + "/obj", exist_ok=True)
    os.makedirs(bdir + "/proto", exist_ok=True)
    lib = sorted(glob.glob(REPO + "/libamqpprox/*.cpp"))
    hdr = sorted(glob.glob(REPO + "/libamqpprox/*.h"))
    protos = sorted(glob.glob(REPO + "/authproto/*.proto"))
    main_src = sorted(glob.glob(REPO + "/amqpprox/*.cpp"))
    ctl_src = sorted(glob.glob(REPO + "/amqpprox_ctl/*.cpp"))
    touch_changed(bdir, lib + hdr + protos + main_src + ctl_src)
    ign = V + "/build_support/ignorelist.txt"
    san = SAN[variant] + (f" -fsanitize-ignorelist={ign}" if variant in ("asan", "fuzz") else "")
    defs = "-DNDEBUG -DBOOST_ASIO_SEPARATE_COMPILATION -DBOOST_BEAST_SEPARATE_COMPILATION -DBOOST_ALL_DYN_LINK"
    cxx = f"-std=c++17 -pthread {defs} {san} -w -I{REPO}/libamqpprox -I{bdir}/proto -I{V}/pbt -I{V}/world"
    n = []
    n.append("ninja_required_version = 1.5")
    n.append(f"cxx = /usr/bin/clang++ {cxx}")
    n.append("rule pch\n  command = $cxx -x c++-header $in -o $out -fpch-instantiate-templates -Xclang -fno-pch-timestamp -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc")
    n.append(f"rule cc\n  command = $cxx $extra -include-pch {bdir}/pch.pch -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc")
    n.append("rule ccnopch\n  command = $cxx $extra -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc")
    n.append(f"rule proto\n  command = protoc -I{REPO}/authproto --cpp_out={bdir}/proto $in")
    n.append("rule ar\n  command = rm -f $out && ar qcs $out $in")
    n.append(f"rule link\n  command = $cxx $lextra -fuse-ld=lld -o $out $in {LIBS}")
    n.append(f"build {bdir}/pch.pch: pch {V}/build_support/pch.h")
    pb_cc, pb_h = [], []
    for p in protos:
        b = os.path.basename(p)[:-6]
        n.append(f"build {bdir}/proto/{b}.pb.cc {bdir}/proto/{b}.pb.h: proto {p}")
        pb_cc.append(f"{bdir}/proto/{b}.pb.cc"); pb_h.append(f"{bdir}/proto/{b}.pb.h")
    objs = []
    # slowest first
    slow = ["httpauth", "session.cpp", "server.cpp", "logging.cpp", "statsd", "control.cpp"]
    lib.sort(key=lambda f: next((i for i, s in enumerate(slow) if s in f), 99))
    ai = f"{bdir}/obj/asio_impl.o"
    n.append(f"build {ai}: cc {V}/build_support/asio_impl.cpp | {bdir}/pch.pch")
    for f in lib:
        ob = f"{bdir}/obj/lib_{os.path.basename(f)}.o"
        n.append(f"build {ob}: cc {f} | {bdir}/pch.pch || {' '.join(pb_h)}")
        objs.append(ob)
    for f in pb_cc:
        ob = f"{bdir}/obj/{os.path.basename(f)}.o"
        n.append(f"build {ob}: ccnopch {f} || {' '.join(pb_h)}")
        objs.append(ob)
    objs.append(ai)
    n.append(f"build {bdir}/lib.a: ar {' '.join(objs)}")
    hobjs = {}
    def hobj(src, extra=""):
        key = (src, extra)
        if key not in hobjs:
            tag = "h_" + src.replace(V + "/", "").replace(REPO + "/", "repo_").replace("/", "_") + ("_" + hashlib.md5(extra.encode()).hexdigest()[:6] if extra else "")
            ob = f"{bdir}/obj/{tag}.o"
            n.append(f"build {ob}: cc {src} | {bdir}/pch.pch || {' '.join(pb_h)}" + (f"\n  extra = {extra}" if extra else ""))
            hobjs[key] = ob
        return hobjs[key]
    fz = " -fsanitize=fuzzer" if variant == "fuzz" else ""
    for name, (srcs, lextra, needs_main) in binaries().items():
        obs = []
        for s in srcs:
            if s == "@main": obs += [hobj(x) for x in main_src]
            elif s == "@ctl": obs += [hobj(x) for x in ctl_src]
            else: obs.append(hobj(s, "-DPBT_LIBFUZZER" if variant == "fuzz" and s.endswith("pbt.cpp") else ""))
        if needs_main:
            obs += [hobj(x, "-Dmain=amqpprox_real_main") for x in main_src]
        le = lextra + (fz if not srcs[0].startswith("@") else "")
        n.append(f"build {bdir}/{name}: link {' '.join(obs)} {bdir}/lib.a" + (f"\n  lextra = {le}" if le else ""))
        n.append(f"build {name}: phony {bdir}/{name}")
    text = "\n".join(n) + "\n"
    nf = bdir + "/build.ninja"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-C", bdir, "-f", nf, "--quiet"] + wanted, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-8000:])
    return r.returncode

if __name__ == "__main__":
    sys.exit(main())
