package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// supervise runs the monitor in a child process, so that a crash of the code
// under test inside any goroutine is observed and judged instead of taking
// the verdict with it.
func supervise(prop, tier string, seed int64, verif string) int {
	c := exec.Command(os.Args[0], "-prop", prop, "-tier", tier, "-verif", verif)
	c.Stdout = os.Stdout
	if plan := ownPlans[prop]; plan != nil {
		c.Env = append(os.Environ(), plan(seed)...)
	}
	var tail tailBuf
	c.Stderr = io.MultiWriter(os.Stderr, &tail)
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	if err := c.Start(); err != nil {
		fmt.Println("start:", err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		fmt.Printf("INCONCLUSIVE property=%s: watchdog\n", prop)
		return 2
	}
	code := c.ProcessState.ExitCode()
	if code == 0 || code == 1 {
		return code
	}
	s := tail.String()
	i := strings.Index(s, "\npanic: ")
	if i < 0 {
		i = strings.Index(s, "\nfatal error: ")
	}
	if i >= 0 && crashInRepo(s[i:]) {
		r := newReport(prop, tier, seed, verif)
		r.Case("crash")
		r.Violate("crash", "the code under test crashed the process: "+trimStack(s[i+1:]), nil)
		os.Unsetenv("VERIF_RACELOG")
		return r.Finish()
	}
	return 2
}

// crashInRepo tells whether the first goroutine of a crash report has the
// code under test on top (below runtime and library frames).
func crashInRepo(s string) bool {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(s[i+1:], "\n") {
		if l == "" {
			return false
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif/harness") {
			return false
		}
		if strings.HasPrefix(l, "github.com/companyzero/zkc/") {
			return true
		}
	}
	return false
}

type tailBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 4<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return "\n" + t.b.String()
}
