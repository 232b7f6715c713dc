package main

import (
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
)

// Crash and fault injection into a child process of this program, by its
// file system calls.  The child announces with marker() where the part of
// interest begins.

const crashMarker = "/verif-marker-begin"

var (
	mutatingCalls = []string{"openat", "write", "pwrite64", "close", "rename", "renameat", "renameat2", "link", "linkat", "unlink", "unlinkat", "mkdir", "mkdirat", "rmdir", "fsync", "fdatasync", "ftruncate", "fchmod", "fchmodat", "symlinkat"}
	straceLine    = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\(`)
)

type crashPoint struct {
	Call string `json:"call"`
	N    int    `json:"n"`
}

func marker() { os.Stat(crashMarker) }

func init() {
	for _, a := range os.Args {
		if a == "-child" {
			runtime.LockOSThread()
		}
	}
}

// limitFile makes writes beyond n bytes fail, as on a full disk.
func limitFile(n int, soft bool) {
	signal.Ignore(syscall.SIGXFSZ)
	l := syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}
	if soft { // can be raised again
		l.Max = 1 << 62
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		os.Exit(99)
	}
}

// straceMore maps the directory of a child's job to an injection that goes
// with all others.
var straceMore sync.Map

func selfExe() string {
	e, err := os.Executable()
	must(err)
	return e
}

func straceRun(inject string, argv []string) (out string, code int, killed bool) {
	o := filepath.Join(tempDir("st"), "o")
	args := []string{"-f", "-qq", "-s", "4096", "-o", o, "-e", "trace=" + strings.Join(mutatingCalls, ",") + ",newfstatat,stat"}
	if inject != "" {
		args = append(args, "-e", "inject="+inject)
	}
	// further faults for the runs of one control directory
	if x, ok := straceMore.Load(filepath.Dir(argv[len(argv)-1])); ok {
		args = append(args, "-e", "inject="+x.(string))
	}
	args = append(args, selfExe())
	c := exec.Command("strace", append(args, argv...)...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
	c.Stderr = os.Stderr
	err := c.Run()
	b, _ := os.ReadFile(o)
	os.RemoveAll(filepath.Dir(o))
	if c.ProcessState == nil {
		panic(fmt.Sprintf("strace: %v", err))
	}
	if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		return string(b), -1, ws.Signal() == syscall.SIGKILL
	}
	return string(b), c.ProcessState.ExitCode(), false
}

// crashPoints runs the child once and returns every mutating system call it
// makes after the marker.
func crashPoints(argv []string) ([]crashPoint, int) {
	out, code, _ := straceRun("", argv)
	// find the thread that made the marker call
	pid := ""
	for _, l := range strings.Split(out, "\n") {
		if m := straceLine.FindStringSubmatch(l); m != nil && strings.Contains(l, crashMarker) {
			pid = m[1]
			break
		}
	}
	if pid == "" {
		panic("child made no marker call:\n" + out)
	}
	cnt := map[string]int{}
	var pts []crashPoint
	begun := false
	for _, l := range strings.Split(out, "\n") {
		m := straceLine.FindStringSubmatch(l)
		if m == nil || m[1] != pid {
			continue
		}
		if strings.Contains(l, crashMarker) {
			begun = true
		}
		if m[2] == "newfstatat" || m[2] == "stat" {
			continue
		}
		cnt[m[2]]++
		if begun {
			pts = append(pts, crashPoint{m[2], cnt[m[2]]})
		}
	}
	return pts, code
}

// crashAt runs the child and kills it when it is about to make the call.
func crashAt(cp crashPoint, argv []string) (killed bool, code int) {
	_, code, killed = straceRun(fmt.Sprintf("%s:signal=KILL:when=%d", cp.Call, cp.N), argv)
	return
}

// failAt runs the child and makes the call fail; with sticky all later calls
// of the kind fail too.
func failAt(cp crashPoint, errno string, sticky bool, argv []string) (code int) {
	w := strconv.Itoa(cp.N)
	if sticky {
		w += "+"
	}
	_, code, _ = straceRun(fmt.Sprintf("%s:error=%s:when=%s", cp.Call, errno, w), argv)
	return
}
