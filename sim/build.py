#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree into /verif/build.
usage: build.py lib|sys|thr ..."""
import fcntl, glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
S = os.path.join(V, "sim")
STD = "-std=c++20 -I%s -I%s -w -pthread" % (REPO, S)
OPS = sorted(os.path.basename(x) for x in glob.glob(S + "/ops_*.cpp"))
A = dict(repo="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -U_FORTIFY_SOURCE -D_GLIBCXX_ASSERTIONS",
         sim="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -DSIM_A", ops="",
         link="-fsanitize=address -rdynamic -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup -ldl", syslink=" -Wl,--wrap=_ZN5spffl7bitrand6iran32Ev")
FLAVOURS = {
  # library under faults: address sanitizer, own allocator entry points
  "lib": dict(A, dir="A", tool=False, srcs=["core.cpp", "os.cpp", "main_a.cpp", "prop_lib.cpp"] + OPS),
  # the same without the address sanitizer, several times faster: long histories
  "hist": dict(A, dir="C", tool=False, repo="-O1 -g1 -D_GLIBCXX_ASSERTIONS", sim="-O1 -g1 -DSIM_A", link=A["link"].replace("-fsanitize=address ", ""), srcs=["core.cpp", "os.cpp", "main_b.cpp", "prop_lib.cpp"] + OPS),
  # values, readers, the tool, generators: the whole program in one process
  "sys": dict(A, dir="A", tool=True, srcs=["core.cpp", "os.cpp", "main_a.cpp"] + sorted(os.path.basename(x) for x in glob.glob(S + "/prop_*.cpp") + glob.glob(S + "/val_*.cpp") if not x.endswith(("prop_lib.cpp", "prop_thr.cpp")))),
  # threads: every memory access of the repository's code calls the scheduler
  "thr": dict(dir="B", tool=False, repo="-O1 -g1 -fsanitize=thread -U_FORTIFY_SOURCE", sim="-O1 -g1 -DSIM_B", ops="-fsanitize=thread",
            link="-ldl -rdynamic " + " ".join("-Wl,--wrap=" + x for x in "memcpy memmove memset memcmp strlen strcpy strncpy strcat strtok sprintf snprintf vsnprintf rand syscall".split()),
            srcs=["core.cpp", "tsched.cpp", "main_b.cpp", "prop_thr.cpp"] + OPS),
}
def build(fl):
    f = FLAVOURS[fl]; d = os.path.join(OUT, f["dir"]); os.makedirs(d, exist_ok=True)
    n = ["builddir = " + d,
         "rule cxx\n command = g++ $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         # as cxx, but only the renamed entry points stay visible to the linker
         "rule cxxone\n command = g++ $flags -MMD -MF $out.d -c $in -o $out && nm -g --defined-only $out | awk '$$2 ~ /[TDBR]/ && $$3 !~ /ur_get_random/ {print $$3}' > $out.loc && { [ ! -s $out.loc ] || objcopy --localize-symbols=$out.loc $out; }\n depfile = $out.d\n deps = gcc",
         "rule link\n command = g++ -pthread -o $out @$out.rsp $flags\n rspfile = $out.rsp\n rspfile_content = $in"]
    objs = []
    # The tool's main() becomes spiff_main(); the other small programs are left out.
    rs = sorted(glob.glob(REPO + "/spffl/**/*.cpp", recursive=True) + (glob.glob(REPO + "/cli/spiff/*.cpp") if f["tool"] else []))
    # largest first, for an even finish
    rs.sort(key=lambda x: -os.path.getsize(x))
    sims = [(s, f["sim"] + (" " + f["ops"] if s.startswith("ops_") else "")) for s in f["srcs"]]
    sims.sort(key=lambda x: -os.path.getsize(os.path.join(S, x[0])))
    for s, fl_ in sims:
        o = os.path.join(d, "sim_" + s + ".o"); objs.append(o)
        n.append("build %s: cxx %s\n flags = %s %s" % (o, os.path.join(S, s), STD, fl_))
    for r in rs:
        rel = os.path.relpath(r, REPO); o = os.path.join(d, rel.replace("/", "_") + ".o"); objs.append(o)
        ex = " -Dmain=spiff_main" if rel == "cli/spiff/spiff_main.cpp" else ""
        n.append("build %s: cxx %s\n flags = %s %s%s" % (o, r, STD, f["repo"], ex))
    if f["tool"]:
        o = os.path.join(d, "urandom.o"); objs.append(o)
        n.append("build %s: cxxone %s\n flags = %s %s -DUSE_DEV_URANDOM -Dget_random_int=ur_get_random_int -Dget_random_uint32=ur_get_random_uint32 -Dget_random_uint64=ur_get_random_uint64"
                 % (o, REPO + "/spffl/random/int_random.cpp", STD, f["repo"]))
    exe = os.path.join(d, "sim_" + fl)
    n.append("build %s: link %s\n flags = %s" % (exe, " ".join(objs), f["link"] + (f["syslink"] if f["tool"] else "")))
    nf = os.path.join(d, fl + ".ninja"); t = "\n".join(n) + "\n"
    if not os.path.exists(nf) or open(nf).read() != t: open(nf, "w").write(t)
    lock = open(os.path.join(d, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    r = subprocess.run(["ninja", "-f", nf] + ([] if os.environ.get("SIM_VERBOSE") else ["--quiet"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: sys.stdout.write(r.stdout[-6000:]); return None
    return exe
if __name__ == "__main__":
    for fl in sys.argv[1:] or ["lib", "hist", "sys", "thr"]:
        e = build(fl)
        if not e: sys.exit(2)
        print(e)
