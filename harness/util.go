package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

var (
	cleanMu sync.Mutex
	cleanFn []func()
)

func onCleanup(f func()) {
	cleanMu.Lock()
	cleanFn = append(cleanFn, f)
	cleanMu.Unlock()
}

func cleanupAll() {
	cleanMu.Lock()
	fs := cleanFn
	cleanFn = nil
	cleanMu.Unlock()
	for i := len(fs) - 1; i >= 0; i-- {
		fs[i]()
	}
}

// workDir is the scratch directory of this run; run.sh removes it.
func workDir() string {
	w := os.Getenv("VERIF_WORK")
	if w == "" {
		var err error
		w, err = os.MkdirTemp("", "vh")
		if err != nil {
			panic(err)
		}
		os.Setenv("VERIF_WORK", w)
		onCleanup(func() { os.RemoveAll(w) })
	}
	return w
}

var dirSeq int

func tempDir(name string) string {
	cleanMu.Lock()
	dirSeq++
	n := dirSeq
	cleanMu.Unlock()
	d := filepath.Join(workDir(), fmt.Sprintf("%s-%d", name, n))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

func panicInRepo(stack string) bool {
	// the first frames after runtime.panic belong to the code that panicked
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		return false
	}
	rest := stack[i:]
	n := 0
	for _, l := range strings.Split(rest, "\n") {
		if strings.Contains(l, "verif/harness") || strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, "github.com/companyzero/zkc/") {
			return true
		}
		n++
		if n > 40 {
			break
		}
	}
	return false
}

func sub(seed int64, parts ...any) *rand.Rand {
	h := int64(1469598103934665603)
	for _, c := range fmt.Sprint(append([]any{seed}, parts...)...) {
		h ^= int64(c)
		h *= 1099511628211
	}
	return rand.New(rand.NewSource(h))
}

func randBytes(rg *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rg.Read(b)
	return b
}

// waitFor polls f until it is true or the generous watchdog expires.
func waitFor(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// withTimeout runs f and tells whether it returned within d.
func withTimeout(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// binPath returns a binary built by run.sh.
func binPath(name string) string { return filepath.Join(os.Getenv("VERIF_BIN"), name) }

func runOut(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	b, err := c.CombinedOutput()
	return string(b), err
}

// parallel runs f(i) for i in [0,n) on w workers.
func parallel(n, w int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}
