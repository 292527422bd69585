#!/usr/bin/env python3
"""Generate the `go build -overlay` file that puts the standard library's
system-call layer behind the simulator's hook.

usage: gen_overlay.py GOROOT OUTDIR REPO SIMDIR

Nothing in GOROOT or /repo is written: patched copies go to OUTDIR/std and the
overlay JSON maps the originals onto them. The harness is mapped into the
module as package .../zzverifsim and one extra file of package main.
Fails loudly when a function to be hooked cannot be found.
"""
import json, os, re, shutil, subprocess, sys, tempfile

goroot, out, repo, simdir = [os.path.abspath(p) for p in sys.argv[1:5]]
std = os.path.join(out, "std")
os.makedirs(std, exist_ok=True)
replace = {}


def die(msg):
    sys.stderr.write("gen_overlay: %s\n" % msg)
    sys.exit(2)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def patch(rel, edits):
    src = os.path.join(goroot, "src", rel)
    text = open(src).read()
    for what, pat, repl in edits:
        new, n = re.subn(pat, repl, text, count=1, flags=re.M)
        if n != 1:
            die("%s: cannot find %s" % (rel, what))
        text = new
    dst = os.path.join(std, rel.replace("/", "__"))
    write(dst, text)
    replace[src] = dst


def hook(fn, req, ret):
    """Insert a hook call right after the signature of fn."""
    body = ("\tif SimHook != nil {\n\t\tif simN, simE, simOk := SimHook(&SimReq{%s}); simOk {\n"
            "\t\t\t_ = simN\n\t\t\treturn %s\n\t\t}\n\t}\n" % (req, ret))
    return (fn, r"^(func %s\([^\n]*\{\n)" % re.escape(fn), lambda m: m.group(1) + body)


E = "simErr(simE)"
NE = "int(simN), simErr(simE)"
amd = "syscall/zsyscall_linux_amd64.go"
patch(amd, [
    hook("faccessat", 'Op: "access", Fd: dirfd, Path: path, Mode: mode', E),
    hook("faccessat2", 'Op: "access", Fd: dirfd, Path: path, Mode: mode', E),
    hook("fchmodat", 'Op: "chmodat", Fd: dirfd, Path: path, Mode: mode', E),
    hook("fchmodat2", 'Op: "chmodat", Fd: dirfd, Path: path, Mode: mode, Flags: flags', E),
    hook("linkat", 'Op: "link", Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath, Flags: flags', E),
    hook("openat", 'Op: "open", Fd: dirfd, Path: path, Flags: flags, Mode: mode', NE),
    hook("readlinkat", 'Op: "readlink", Fd: dirfd, Path: path, Buf: buf', NE),
    hook("symlinkat", 'Op: "symlink", Path: oldpath, Fd2: newdirfd, Path2: newpath', E),
    hook("unlinkat", 'Op: "unlink", Fd: dirfd, Path: path, Flags: flags', E),
    hook("utimensat", 'Op: "utimes", Fd: dirfd, Path: path', E),
    hook("Getcwd", 'Op: "getcwd", Buf: buf', NE),
    hook("Chdir", 'Op: "chdir", Path: path', E),
    hook("Close", 'Op: "close", Fd: fd', E),
    hook("Dup", 'Op: "dup", Fd: oldfd', NE),
    hook("Fallocate", 'Op: "fallocate", Fd: fd, Off: off, Mode: uint32(len)', E),
    hook("Fchmod", 'Op: "fchmod", Fd: fd, Mode: mode', E),
    hook("Fchown", 'Op: "fchown", Fd: fd', E),
    hook("Fchownat", 'Op: "chown", Fd: dirfd, Path: path', E),
    hook("fcntl", 'Op: "fcntl", Fd: fd, Flags: cmd, Off: int64(arg)', NE),
    hook("Fdatasync", 'Op: "fsync", Fd: fd', E),
    hook("Flock", 'Op: "flock", Fd: fd, Flags: how', E),
    hook("Fsync", 'Op: "fsync", Fd: fd', E),
    hook("Getdents", 'Op: "getdents", Fd: fd, Buf: buf', NE),
    hook("Mkdirat", 'Op: "mkdir", Fd: dirfd, Path: path, Mode: mode', E),
    hook("read", 'Op: "read", Fd: fd, Buf: p', NE),
    hook("write", 'Op: "write", Fd: fd, Buf: p', NE),
    hook("pread", 'Op: "pread", Fd: fd, Buf: p, Off: offset', NE),
    hook("pwrite", 'Op: "pwrite", Fd: fd, Buf: p, Off: offset', NE),
    hook("Fstat", 'Op: "fstat", Fd: fd, Stat: stat', E),
    hook("Ftruncate", 'Op: "ftruncate", Fd: fd, Off: length', E),
    hook("Truncate", 'Op: "truncate", Path: path, Off: length', E),
    hook("Renameat", 'Op: "rename", Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath', E),
    hook("Seek", 'Op: "seek", Fd: fd, Off: offset, Flags: whence', "simN, simErr(simE)"),
    hook("fstatat", 'Op: "stat", Fd: fd, Path: path, Stat: stat, Flags: flags', E),
    ("Sync", r"^(func Sync\(\) \{\n)",
     lambda m: m.group(1) + '\tif SimHook != nil {\n\t\tif _, _, ok := SimHook(&SimReq{Op: "sync"}); ok {\n\t\t\treturn\n\t\t}\n\t}\n'),
    hook("sendfile", 'Op: "sendfile", Fd: infd, Fd2: outfd', NE),
    hook("Splice", 'Op: "splice", Fd: rfd, Fd2: wfd', "simN, simErr(simE)"),
])
write(os.path.join(std, "syscall__zz_sim.go"), open(os.path.join(simdir, "std", "zz_sim.go.txt")).read())
replace[os.path.join(goroot, "src", "syscall", "zz_sim.go")] = os.path.join(std, "syscall__zz_sim.go")


def uhook(fn, req, ret):
    body = ("\tif syscall.SimHook != nil {\n\t\tif simN, simE, simOk := syscall.SimHook(&syscall.SimReq{%s}); simOk {\n"
            "\t\t\t_ = simN\n\t\t\tif simE != 0 {\n\t\t\t\treturn %s\n\t\t\t}\n\t\t\treturn %s\n\t\t}\n\t}\n" % (
                req, ret % "simE", ret % "nil"))
    return (fn, r"^(func %s\([^\n]*\{\n)" % re.escape(fn), lambda m: m.group(1) + body)


patch("internal/syscall/unix/at.go", [
    uhook("Unlinkat", 'Op: "unlink", Fd: dirfd, Path: path, Flags: flags', "%s"),
    uhook("Openat", 'Op: "open", Fd: dirfd, Path: path, Flags: flags, Mode: perm', "int(simN), %s"),
    uhook("Readlinkat", 'Op: "readlink", Fd: dirfd, Path: path, Buf: buf', "int(simN), %s"),
    uhook("Mkdirat", 'Op: "mkdir", Fd: dirfd, Path: path, Mode: mode', "%s"),
    uhook("Fchownat", 'Op: "chown", Fd: dirfd, Path: path', "%s"),
    uhook("Renameat", 'Op: "rename", Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath', "%s"),
    uhook("Linkat", 'Op: "link", Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath', "%s"),
    uhook("Symlinkat", 'Op: "symlink", Path: oldpath, Fd2: newdirfd, Path2: newpath', "%s"),
])
patch("internal/syscall/unix/at_fstatat.go", [
    uhook("Fstatat", 'Op: "stat", Fd: dirfd, Path: path, Stat: stat, Flags: flags', "%s"),
])
patch("internal/syscall/unix/copy_file_range_unix.go", [
    uhook("CopyFileRange", 'Op: "copy_file_range", Fd: rfd, Fd2: wfd', "int(simN), %s"),
])
patch("internal/syscall/unix/fcntl_unix.go", [
    uhook("Fcntl", 'Op: "fcntl", Fd: fd, Flags: cmd, Off: int64(arg)', "int(simN), %s"),
])
SYSCALL = """	if SimSyscall != nil {
		if trap == SYS_IOCTL {
			if r, e, ok := SimSyscall(trap, a1, a2, unsafe.Pointer(a3), 0); ok {
				return r, 0, e
			}
		} else if trap == SYS_READ && a1 == 0 {
			if r, e, ok := SimSyscall(trap, a1, 0, unsafe.Pointer(a2), a3); ok {
				return r, 0, e
			}
		}
	}
"""
patch("syscall/syscall_linux.go", [
    ("Syscall", r"^(func Syscall\([^\n]*\{\n)", lambda m: m.group(1) + SYSCALL),
    ("Syscall6", r"^(func Syscall6\([^\n]*\{\n)", lambda m: m.group(1) + SYSCALL),
])
# Clock.
patch("time/time.go", [
    ("Now", r"^func Now\(\) Time \{\n\tsec, nsec, mono := runtimeNow\(\)\n",
     "// SimNow, when set, replaces the real clocks (wall seconds, nanoseconds, monotonic).\n"
     "var SimNow func() (sec int64, nsec int32, mono int64, ok bool)\n\n"
     "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n"
     "\tif SimNow != nil {\n\t\tif s, n, m, ok := SimNow(); ok {\n\t\t\tsec, nsec, mono = s, n, m+startNano\n\t\t}\n\t}\n"),
    ("runtimeNano users", r"^func Since\(t Time\) Duration \{\n",
     "func Since(t Time) Duration {\n\tif SimNow != nil {\n\t\treturn Now().Sub(t)\n\t}\n"),
    ("Until", r"^func Until\(t Time\) Duration \{\n",
     "func Until(t Time) Duration {\n\tif SimNow != nil {\n\t\treturn t.Sub(Now())\n\t}\n"),
])
# Randomness of the runtime (the order of maps, math/rand): per goroutine, from
# a seed, where one was set. The keys of the hash functions are constant.
patch("runtime/runtime2.go", [
    ("g", r"^\tvalgrindStackID uintptr\n\}\n", "\tvalgrindStackID uintptr\n\n\tsimRand uint64\n\tsimProc uint64\n}\n"),
])
patch("runtime/rand.go", [
    ("rand", r"^func rand\(\) uint64 \{\n",
     "func rand() uint64 {\n\tif gp := getg(); gp.simRand != 0 || gp.goid == 1 {\n\t\tgp.simRand += 0x9e3779b97f4a7c15\n\t\tz := gp.simRand\n"
     "\t\tz = (z ^ z>>30) * 0xbf58476d1ce4e5b9\n\t\tz = (z ^ z>>27) * 0x94d049bb133111eb\n\t\treturn z ^ z>>31\n\t}\n"),
    ("SimRand", r"^// mrandinit initializes", "// SimRand makes rand return a sequence of numbers that depends on seed only in\n"
     "// the calling goroutine (real ones again if seed is 0) and those it starts.\nfunc SimRand(seed uint64) { getg().simRand = seed }\n\n"
     "// SimProcess marks the calling goroutine as the first of a simulated process.\nfunc SimProcess(id uint64) { getg().simProc = id<<1 | 1 }\n\n"
     "// SimProc tells which simulated process the calling goroutine belongs to, if any,\n// and whether it is its first.\n"
     "func SimProc() (id uint64, first bool) { v := getg().simProc; return v >> 1, v&1 != 0 }\n\n// mrandinit initializes"),
])
patch("runtime/proc.go", [
    ("newproc1", r"^\tnewg\.parentGoid = callergp\.goid\n",
     "\tnewg.parentGoid = callergp.goid\n\tnewg.simProc = callergp.simProc &^ 1\n\tnewg.simRand = 0\n"
     "\tif callergp.simProc != 0 && callergp.simRand != 0 {\n\t\tcallergp.simRand += 0x9e3779b97f4a7c15\n\t\tnewg.simRand = callergp.simRand*0xbf58476d1ce4e5b9 | 1\n\t}\n"),
])
patch("internal/runtime/maps/runtime_alg.go", [
    ("hashkey", r"^\t\thashkey\[i\] = uintptr\(bootstrapRand\(\)\)\n", "\t\thashkey[i] = uintptr(bootstrapRand()&0 + 0x9e3779b97f4a7c15*uint64(i+1))\n"),
    ("aeskeysched", r"^\t\tkey\[i\] = bootstrapRand\(\)\n", "\t\tkey[i] = bootstrapRand()&0 + 0xbf58476d1ce4e5b9*uint64(i+1)\n"),
])
patch("os/signal/signal.go", [
    ("Notify", r"^(func Notify\(c chan<- os\.Signal, sig \.\.\.os\.Signal\) \{\n)",
     lambda m: "// SimNotify and SimStop, when set, may take over the registration.\n"
     "var SimNotify func(c chan<- os.Signal, sig []os.Signal) bool\nvar SimStop func(c chan<- os.Signal) bool\n\n"
     + m.group(1) + "\tif c != nil && SimNotify != nil && SimNotify(c, sig) {\n\t\treturn\n\t}\n"),
    ("Stop", r"^(func Stop\(c chan<- os\.Signal\) \{\n)",
     lambda m: m.group(1) + "\tif SimStop != nil && SimStop(c) {\n\t\treturn\n\t}\n"),
])
patch("os/exec.go", [
    ("Getpid", r"^func Getpid\(\) int \{ return syscall.Getpid\(\) \}\n",
     "// SimPid, when set, tells the number of the simulated process.\nvar SimPid func() (int, bool)\n\n"
     "func Getpid() int {\n\tif SimPid != nil {\n\t\tif n, ok := SimPid(); ok {\n\t\t\treturn n\n\t\t}\n\t}\n\treturn syscall.Getpid()\n}\n"),
])
# Process exit, temp-file names, finalizers.
patch("os/proc.go", [
    ("Exit", r"^func Exit\(code int\) \{\n",
     "// SimExit, when set, is told about os.Exit and does not return inside a simulated process.\n"
     "var SimExit func(code int)\n\nfunc Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n"),
])
patch("os/tempfile.go", [
    ("nextRandom", r"^func nextRandom\(\) string \{\n",
     "// SimRandom, when set, supplies temporary file names.\nvar SimRandom func() (uint64, bool)\n\n"
     "func nextRandom() string {\n\tif SimRandom != nil {\n\t\tif v, ok := SimRandom(); ok {\n\t\t\treturn strconv.FormatUint(uint64(uint32(v)), 10)\n\t\t}\n\t}\n"),
])
patch("os/file_unix.go", [
    ("finalizer", r"^\truntime\.SetFinalizer\(f\.file, \(\*file\)\.close\)\n",
     "\tif fd < 1<<20 {\n\t\truntime.SetFinalizer(f.file, (*file).close)\n\t}\n"),
])
# A failing crypto/rand.Read kills the process: make that a simulated death.
patch("crypto/rand/rand.go", [
    ("fatal", r'^\t\tfatal\("crypto/rand: failed',
     '\t\tif SimFatal != nil {\n\t\t\tSimFatal()\n\t\t}\n\t\tfatal("crypto/rand: failed'),
    ("SimFatal", r"^// fatal is \[runtime\.fatal\]", "// SimFatal, when set, ends the simulated process.\nvar SimFatal func()\n\n// fatal is [runtime.fatal]"),
])
# Locks of package sync (only consulted while a hook is set), scheduling points.
SIMLOCK = '''// Hooks of a cooperative scheduler: SimLock, when set, may take over locking
// (try takes the lock if it is free), SimUnlock is told after an unlock,
// SimYield is called between the statements of instrumented packages.
var SimLock func(try func() bool) bool
var SimUnlock func()
var SimYield func()

// ZzYield is a scheduling point.
func ZzYield() {
	if SimYield != nil {
		SimYield()
	}
}

'''


def lockhook(fn, recv, call, try_):
    return (fn, r"^func \(%s \*%s\) %s\(\) \{\n" % (recv, call, fn),
            "func (%s *%s) %s() {\n\tif SimLock != nil && SimLock(%s.%s) {\n\t\treturn\n\t}\n" % (recv, call, fn, recv, try_))


def unlockhook(fn, recv, call):
    return (fn, r"^func \(%s \*%s\) %s\(\) \{\n" % (recv, call, fn),
            "func (%s *%s) %s() {\n\tif SimUnlock != nil {\n\t\tdefer SimUnlock()\n\t}\n" % (recv, call, fn))


patch("sync/mutex.go", [
    ("Lock", r"^func \(m \*Mutex\) Lock\(\) \{\n", SIMLOCK + "func (m *Mutex) Lock() {\n\tif SimLock != nil && SimLock(m.TryLock) {\n\t\treturn\n\t}\n"),
    unlockhook("Unlock", "m", "Mutex"),
])
patch("sync/rwmutex.go", [
    lockhook("Lock", "rw", "RWMutex", "TryLock"),
    lockhook("RLock", "rw", "RWMutex", "TryRLock"),
    unlockhook("Unlock", "rw", "RWMutex"),
    unlockhook("RUnlock", "rw", "RWMutex"),
])
# Pools lock at times that depend on the garbage collector: not the business of
# the scheduler.
patch("sync/pool.go", [
    ("pinSlow", r"^\tallPoolsMu\.Lock\(\)\n", "\tallPoolsMu.mu.Lock()\n"),
])

# Scheduling points in package crand.
crand = os.path.join(repo, "crand")
files = [os.path.join(crand, f) for f in sorted(os.listdir(crand)) if f.endswith(".go") and not f.endswith("_test.go")]
tmp = tempfile.mkdtemp()
try:
    subprocess.run(["go", "run", os.path.join(simdir, "instr", "main.go"), tmp] + files, check=True, cwd=tmp)
    for f in files:
        dst = os.path.join(std, "crand__" + os.path.basename(f))
        write(dst, open(os.path.join(tmp, "crand__" + os.path.basename(f))).read())
        replace[f] = dst
finally:
    shutil.rmtree(tmp)

# The harness.
zz = os.path.join(simdir, "zz")
for name in sorted(os.listdir(zz)):
    if name.endswith(".go"):
        replace[os.path.join(repo, "zzverifsim", name)] = os.path.join(zz, name)
replace[os.path.join(repo, "cmd", "krypto431", "zz_verif.go")] = os.path.join(simdir, "zz_main.go.txt")
write(os.path.join(out, "overlay.json"), json.dumps({"Replace": replace}, indent=1, sort_keys=True))
