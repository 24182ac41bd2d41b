"""Builds a simulated world from /repo's current tree into /verif/build."""
import fcntl, hashlib, os, subprocess, sys, glob, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
SIM = os.path.join(V, "sim")
BASE_WRAP = """malloc free calloc realloc syscall pthread_create pthread_join pthread_detach pthread_self pthread_exit
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait
pthread_cond_signal pthread_cond_broadcast pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_once __cxa_guard_acquire __cxa_guard_release clock_gettime gettimeofday time nanosleep clock_nanosleep
usleep sleep sched_yield __assert_fail abort exit strlen memchr memcmp""".split()
NET_WRAP = """socket setsockopt getsockopt bind listen getsockname getpeername accept accept4 recv recvfrom send
sendto sendmsg recvmsg readv writev select read write shutdown close fcntl poll gethostbyname gethostbyname_r getaddrinfo freeaddrinfo signal sigaction
pthread_sigmask kill raise""".split()
CSOCK = "lib/Socket/CSocket/CSocket.cpp"
# world -> (adapters compiled with the code under test, harness sources, extra wrapped functions)
WORLDS = {
    "ic": (["a_ic.cpp"], ["w_ic.cpp"], []),
    "multi": (["a_multi.cpp", "@" + CSOCK], ["w_multi.cpp", "kernel.cpp"], NET_WRAP),
    "net": (["a_net.cpp", "@" + CSOCK], ["w_net.cpp", "kernel.cpp"], NET_WRAP),
}
REDIR_WRAP = """open open64 __open __open_nocancel openat close __close __close_nocancel read __read __read_nocancel write fcntl __fcntl fcntl64 fdopen
__write __write_nocancel lseek lseek64 __lseek64 pread pread64 fstat fstat64 __fstat64 dup2 __dup2 dup ftruncate unlink
remove fsync fopen fclose fflush ftell ftello fseek fseeko rewind fgets fgetc getc fread feof ferror clearerr fileno
ungetc setvbuf""".split()
NODE_WRAP = """_ZN2v86String11NewFromUtf8EPNS_7IsolateEPKcNS_13NewStringTypeEi _ZN2v815ArrayBufferView12CopyContentsEPvm
_ZN2v88External3NewEPNS_7IsolateEPv _ZN2v88Function4CallENS_5LocalINS_7ContextEEENS1_INS_5ValueEEEiPS5_
_ZN2v816FunctionTemplate11GetFunctionENS_5LocalINS_7ContextEEE _ZN2v87Isolate14ThrowExceptionENS_5LocalINS_5ValueEEE
_ZNK2v88Function11NewInstanceENS_5LocalINS_7ContextEEEiPNS1_INS_5ValueEEE""".split()
WORLDS["redir"] = (["a_redir.cpp"], ["w_redir.cpp"], REDIR_WRAP)
WORLDS["diag"] = WORLDS["queue"] = (["a_mem.cpp"], ["w_mem.cpp"], ["snprintf", "vsnprintf"])
WORLDS["json"] = (["a_json.cpp"], ["w_json.cpp"], ["snprintf", "vsnprintf"])
WORLDS["par"] = (["a_par.cpp"], ["w_par.cpp"], ["snprintf", "vsnprintf"])
WORLDS["trait"] = WORLDS["cells"] = (["a_own.cpp"], ["w_own.cpp"], [])
NODEJS = ["-I/usr/include/node", "-fPIC", "-DNODE_GYP_MODULE_NAME=bclSocket"]
WORLDS["node"] = (["a_node.cpp", "@lib/Socket/NodeJSSocket/NodeJSSocket.cpp"], ["w_node.cpp"], NODE_WRAP)
NODE_FLAGS = ("--predictable --single-threaded --v8-pool-size=0 --expose-gc --hash-seed=1 --random-seed=1 --disable-sigusr1 "
              "--no-opt --max-lazy --no-warnings").split()
STATIC = {"redir"}  # the C library's stdio runs on simulated system calls
WORLDS["stack"] = WORLDS["net"]
INSTR = ("clang++ -std=gnu++17 -O1 -g -w -include %s/prelude.h -include cstdint -include cstdio -include iterator -include memory -fsanitize=thread "
         "-fsanitize=return,unreachable,null,bounds,integer-divide-by-zero -fsanitize-trap=all "
         "-mllvm -tsan-instrument-func-entry-exit=0 -fno-builtin-snprintf -fno-builtin-vsnprintf" % SIM).split()
HARN = "g++ -std=gnu++17 -O2 -g -Wall".split()


class BuildError(Exception):
    pass


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash():
    """Content of everything the instrumented units may include."""
    h = []
    for base in ("include", "lib"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h += [p[len(REPO):], read(p)]
    return digest(*h)


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])


def make(cmd, out, key):
    path = os.path.join(OUT, "%s-%s" % (digest(key, *cmd), out))
    if not os.path.exists(path):
        tmp = path + ".%d" % os.getpid()
        run(cmd + ["-o", tmp])
        os.replace(tmp, path)
    else:
        os.utime(path)
    return path


def prune():
    """Keep the build directory small: drop what was not used for a while."""
    fs = sorted(glob.glob(os.path.join(OUT, "*-*")), key=os.path.getmtime)
    total = sum(os.path.getsize(f) for f in fs)
    while fs and total > 400 << 20:
        f = fs.pop(0)
        total -= os.path.getsize(f)
        os.unlink(f)


def link_node(objs, wr):
    """The addon with the simulator, the entry for JavaScript and a launcher which looks like the other worlds."""
    vs = os.path.join(OUT, "gen", "node.map")
    open(vs, "w").write("{ global: sim_node_main; local: *; };\n")
    ks = digest(*[read(o) for o in objs])
    # not the API hooks of the harness itself: those stand in objs[-1]
    link = ["clang++", "-shared", "-static-libstdc++", "-Wl,-Bsymbolic", "-Wl,--version-script=" + vs] + objs
    sim = make(link + ["-Wl,--wrap=" + w for w in BASE_WRAP + wr] + ["-lpthread"], "sim_node.node", ks)
    hsrc = os.path.join(SIM, "node_host.cc")
    host = make(HARN + NODEJS + ["-shared", hsrc, "-ldl"], "host.node", digest(read(hsrc)))
    drv = os.path.join(SIM, "node_driver.js")
    text = ('#!/bin/sh\nunset NODE_OPTIONS\nexport SIM_NOASLR=1 SIM_NODE=1\nR=\nsetarch -R true 2>/dev/null && R="setarch -R"\n'
            'exec $R node %s %s %s %s "$@"\n' % (" ".join(NODE_FLAGS), drv, host, sim))
    out = os.path.join(OUT, "%s-sim_node" % digest(text, read(drv)))
    if not os.path.exists(out):
        open(out + ".tmp", "w").write(text)
        os.chmod(out + ".tmp", 0o755)
        os.replace(out + ".tmp", out)
    for f in (sim, host, out):
        os.utime(f)
    return out


def build(world):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        prune()
        gen = os.path.join(OUT, "gen")
        os.makedirs(os.path.join(gen, "bcl"), exist_ok=True)
        cfg = "#define BCL_C_SOCKET\n"
        cp = os.path.join(gen, "bcl", "bcl-config.h")
        if not os.path.exists(cp) or open(cp).read() != cfg:
            open(cp, "w").write(cfg)
        ad, ha, wr = WORLDS[world]
        hdrs = b"".join(read(p) for p in sorted(glob.glob(os.path.join(SIM, "*.h"))))
        th = tree_hash()
        jobs = []
        more = NODEJS if world == "node" else []
        for a in ad:
            src = os.path.join(REPO, a[1:]) if a[0] == "@" else os.path.join(SIM, a)
            jobs.append((INSTR + more + ["-I" + os.path.join(REPO, "include"), "-I" + gen, "-I" + SIM, "-c", src],
                         os.path.basename(src)[:-4] + ".o", digest(read(src), hdrs, th)))
        for h in ["rt.cpp"] + ha:
            src = os.path.join(SIM, h)
            jobs.append((HARN + more + ["-c", src], h[:-4] + ".o", digest(read(src), hdrs)))
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: make(*j), jobs))
        if world == "node":
            return link_node(objs, wr)
        st = ["-static"] if world in STATIC else ["-static-libstdc++"]
        link = ["clang++", "-no-pie"] + st + objs + ["-Wl,--wrap=" + w for w in BASE_WRAP + wr] + ["-lpthread"]
        return make(link, "sim_" + {"stack": "net", "diag": "mem", "queue": "mem", "trait": "own", "cells": "own"}.get(world, world), digest(*[read(o) for o in objs]))


if __name__ == "__main__":
    for w in sys.argv[1:] or WORLDS:
        try:
            print(build(w))
        except BuildError as e:
            sys.exit(str(e))
