#!/usr/bin/env python3
"""mkoverlay.py GOROOT OUTDIR COORD: writes the patched standard-library
files, the instrumented copies of the repository's files, overlay.json, go.mod and go.sum used to build the node binary."""
import json, os, shutil, subprocess, sys
goroot, out = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
repo = os.environ.get("PSIGNIFY_REPO", "/repo")
replace = {}

def patch(rel, edits):
    src = os.path.join(goroot, "src", rel)
    text = open(src).read()
    for old, new in edits:
        if text.count(old) != 1:
            sys.exit("mkoverlay: %s: %d matches of %r" % (rel, text.count(old), old))
        text = text.replace(old, new)
    dst = os.path.join(out, rel.replace("/", "__"))
    open(dst, "w").write(text)
    replace[src] = dst

patch("syscall/syscall_linux.go", [
    # Exported Syscall/Syscall6/RawSyscall/RawSyscall6 become dispatchers in
    # front of the real ones; nothing else changes.
    ("//go:uintptrkeepalive\n//go:nosplit\n//go:norace\n//go:linkname RawSyscall\nfunc RawSyscall(trap",
     """// SimHook, when set, sees every system call made through this package.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, handled bool)

// SimExit, when set, is told of os.Exit; SimFatal of unrecoverable failures.
var SimExit func(code int)
var SimFatal func(msg string)

// SimReader stands in for crypto/rand.Reader.
// SimRand, SimNow and SimSleep stand in for the runtime's own randomness, the
// clock (nanoseconds since 1970) and sleeping.
var SimRand func() uint64
var SimReader func(b []byte) (int, error)
var SimNow func() int64
var SimSleep func(ns int64)

//go:uintptrescapes
//go:linkname RawSyscall
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	return RawSyscall6(trap, a1, a2, a3, 0, 0, 0)
}

//go:uintptrescapes
//go:linkname RawSyscall6
func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if h := SimHook; h != nil {
		if r1, r2, err, ok := h(trap, a1, a2, a3, a4, a5, a6); ok {
			return r1, r2, err
		}
	}
	return realRawSyscall6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if h := SimHook; h != nil {
		if r1, r2, err, ok := h(trap, a1, a2, a3, 0, 0, 0); ok {
			return r1, r2, err
		}
	}
	return realSyscall(trap, a1, a2, a3)
}

//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if h := SimHook; h != nil {
		if r1, r2, err, ok := h(trap, a1, a2, a3, a4, a5, a6); ok {
			return r1, r2, err
		}
	}
	return realSyscall6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrkeepalive
//go:nosplit
//go:norace
func realRawSyscall(trap"""),
    ("\treturn RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n}\n\n//go:uintptrkeepalive\n//go:nosplit\n//go:norace\n//go:linkname RawSyscall6\nfunc RawSyscall6(trap",
     "\treturn realRawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n}\n\n//go:uintptrkeepalive\n//go:nosplit\n//go:norace\nfunc realRawSyscall6(trap"),
    ("//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap",
     "//go:uintptrkeepalive\n//go:nosplit\nfunc realSyscall(trap"),
    ("\tr1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n", "\tr1, r2, err = realRawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n"),
    ("//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(trap",
     "//go:uintptrkeepalive\n//go:nosplit\nfunc realSyscall6(trap"),
    ("\tr1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)\n", "\tr1, r2, err = realRawSyscall6(trap, a1, a2, a3, a4, a5, a6)\n"),
])
patch("syscall/zsyscall_linux_amd64.go", [
    ("\tr0, _ := rawSyscallNoError(SYS_UMASK, uintptr(mask), 0, 0)", "\tr0, _, _ := RawSyscall(SYS_UMASK, uintptr(mask), 0, 0)"),
    ("\tr0, _ := rawSyscallNoError(SYS_GETPID, 0, 0, 0)", "\tr0, _, _ := RawSyscall(SYS_GETPID, 0, 0, 0)"),
])
patch("os/proc.go", [
    ("\truntime_beforeExit(code)\n", "\tif h := syscall.SimExit; h != nil {\n\t\th(code)\n\t}\n\truntime_beforeExit(code)\n"),
])
patch("crypto/rand/rand.go", [
    ('\t"io"\n', '\t"io"\n\t"syscall"\n'),
    ("var Reader io.Reader = rand.Reader\n", """var Reader io.Reader = simReader{}

type simReader struct{}

func (simReader) Read(b []byte) (int, error) {
	if h := syscall.SimReader; h != nil {
		return h(b)
	}
	if s, ok := syscall.Getenv("VERIF_SIM_SEED"); ok { // the program is being initialised
		x := uint64(early)
		for i := range s {
			x = x*31 + uint64(s[i])
		}
		for i := range b {
			x += 0x9e3779b97f4a7c15
			z := (x ^ x>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			b[i] = byte(z >> 56)
		}
		early += 1 << 32
		return len(b), nil
	}
	return rand.Reader.Read(b)
}

var early uint64
"""),
    ("\tif err != nil {\n\t\tfatal(", "\tif err != nil {\n\t\tif h := syscall.SimFatal; h != nil {\n\t\t\th(err.Error())\n\t\t}\n\t\tfatal("),
])
rand_old = "//go:linkname runtime_rand runtime.rand\nfunc runtime_rand() uint64\n"
rand_new = '''//go:linkname real_runtime_rand runtime.rand
func real_runtime_rand() uint64

func runtime_rand() uint64 {
	if h := syscall.SimRand; h != nil {
		return h()
	}
	return real_runtime_rand()
}
'''
patch("os/tempfile.go", [('\t"errors"\n', '\t"errors"\n\t"syscall"\n'), (rand_old, rand_new)])
patch("math/rand/rand.go", [('\t"sync"\n', '\t"sync"\n\t"syscall"\n'), (rand_old, rand_new)])
patch("math/rand/v2/rand.go", [('\t"math/bits"\n', '\t"math/bits"\n\t"syscall"\n'), (rand_old, rand_new)])
patch("time/time.go", [
    ('\t"math/bits"\n', '\t"math/bits"\n\t"syscall"\n'),
    ("\tsec, nsec, mono := runtimeNow()\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}",
     "\tsec, nsec, mono := runtimeNow()\n\tif h := syscall.SimNow; h != nil {\n\t\tns := h()\n\t\tsec, nsec, mono = ns/1e9, int32(ns%1e9), startNano+1+ns\n\t}\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}"),
    ("return subMono(runtimeNano()-startNano, t.ext)", "return subMono(simNano()-startNano, t.ext)"),
    ("return subMono(t.ext, runtimeNano()-startNano)", "return subMono(t.ext, simNano()-startNano)"),
    ("func Since(t Time)", "func simNano() int64 {\n\tif h := syscall.SimNow; h != nil {\n\t\treturn startNano + 1 + h()\n\t}\n\treturn runtimeNano()\n}\n\nfunc Since(t Time)"),
])
patch("time/sleep.go", [
    ('\t"unsafe"\n', '\t"syscall"\n\t"unsafe"\n'),
    ("func Sleep(d Duration)\n", "func Sleep(d Duration) {\n\tif h := syscall.SimSleep; h != nil {\n\t\th(int64(d))\n\t\treturn\n\t}\n\trealSleep(d)\n}\n\nfunc realSleep(d Duration)\n"),
])
patch("runtime/time.go", [("//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.realSleep\n")])
# every goroutine knows the simulated task it works for, inherited from its creator
patch("runtime/runtime2.go", [("\tvalgrindStackID uintptr\n}\n", "\tvalgrindStackID uintptr\n\n\tsimTask int\n}\n")])
patch("runtime/proc.go", [("const forcePreemptNS = 10 * 1000 * 1000", "const forcePreemptNS = 2000 * 1000 * 1000"), ("newg = malg(stackMin)", "newg = malg(1 << 16)"), ("\tnewg.gopc = callerpc\n", "\tnewg.gopc = callerpc\n\tnewg.simTask = callergp.simTask\n")])
# the stack of a goroutine must not move while it is in a simulated system call:
# some callers pass the address of a local variable
patch("runtime/stack.go", [("var startingStackSize uint32 = fixedStack\n", "var startingStackSize uint32 = 1 << 16\n")])
patch("runtime/proflabel.go", [("\nvar labelSync uintptr\n", """
// SimTask is the simulated task of the calling goroutine, plus one.
func SimTask() int { return getg().simTask }

// SimGoid tells goroutines apart.
func SimGoid() uint64 { return getg().goid }

// SimReset puts the scheduler's count of turns, which decides when it looks at
// its global queue, in a known state.
func SimReset() { getg().m.p.ptr().schedtick = 0 }

// SimSetTask sets it.
func SimSetTask(t int) { getg().simTask = t }

var labelSync uintptr
""")])
replace[os.path.join(repo, "cmd/psignify/zz_verif_boot.go")] = os.path.join(here, "zz_verif_boot.go")
# a yield before every statement of the program (see sim/yield)
replace.update(json.loads(subprocess.check_output([sys.argv[3], "instrument", repo, out])))
json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
mod = open(os.path.join(repo, "go.mod")).read()
mod += "\nrequire verif/sim v0.0.0\n\nreplace verif/sim => %s\n" % os.path.join(verif, "sim")
open(os.path.join(out, "go.mod"), "w").write(mod)
shutil.copy(os.path.join(repo, "go.sum"), os.path.join(out, "go.sum"))
