package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Cli is a real zkclient process on a pseudo terminal with a scratch root.
type Cli struct {
	r    *Report
	Nick string
	Root string
	ID   *zkidentity.FullIdentity
	addr string // server address, names the log files

	mu       sync.Mutex
	cmd      *exec.Cmd
	pty      *os.File
	done     chan struct{}
	out      bytes.Buffer // everything written to the terminal
	typed    int          // commands typed since the history was created
	cols     int
	rows     int
	expect   bool
	starts   int
	wrap     []string
	settings string
	typeMu   sync.Mutex
	bin      string // program, if it is not the one under test
}

func ioctl(fd, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg); e != 0 {
		return e
	}
	return nil
}

func openPty(rows, cols int) (m, s *os.File, err error) {
	m, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, z uint32
	if err = ioctl(m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err == nil {
		err = ioctl(m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&z)))
	}
	if err == nil {
		ws := [4]uint16{uint16(rows), uint16(cols)}
		err = ioctl(m.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	}
	if err == nil {
		s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, s, nil
}

// newCli prepares the root of a client that already has an account.
func newCli(r *Report, id *zkidentity.FullIdentity, addr string, srv *zkidentity.PublicIdentity, cert []byte) *Cli {
	c := &Cli{r: r, Nick: id.Public.Nick, Root: tempDir("cli"), ID: id, addr: addr, cols: 200, rows: 40}
	must(os.Chmod(c.Root, 0700))
	must(os.MkdirAll(filepath.Join(c.Root, "myserver"), 0700))
	b64 := func(v any) string {
		var b bytes.Buffer
		_, err := xdr.Marshal(&b, v)
		must(err)
		return base64.StdEncoding.EncodeToString(b.Bytes())
	}
	ini := fmt.Sprintf("server=%s\nserveridentity=%s\nservercert=%s\nmyidentity=%s\n", addr,
		b64(srv), base64.StdEncoding.EncodeToString(cert), b64(id))
	must(os.WriteFile(filepath.Join(c.Root, "myserver", "myserver.ini"), []byte(ini), 0600))
	onCleanup(func() { c.Kill() })
	return c
}

func (c *Cli) path(p ...string) string { return filepath.Join(append([]string{c.Root}, p...)...) }

// Start runs the client; it is ready when it has drawn its main window.
func (c *Cli) Start() error {
	cfg := c.path("zkclient.conf")
	must(os.WriteFile(cfg, []byte(fmt.Sprintf("root = %s\n%s\n[log]\nsavehistory = yes\nlogfile = %s\ndebug = no\nprofiler = \ntimeformat = 15:04:05\nlongtimeformat = 2006-01-02 15:04:05\n",
		c.Root, c.settings, c.path("zkclient.log"))), 0600))
	os.Remove(c.path("history"))
	m, s, err := openPty(c.rows, c.cols)
	if err != nil {
		return err
	}
	args := append(append([]string{}, c.wrap...), binPath(or(c.bin, "zkclient")), "-cfg", cfg)
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	cmd.Dir = c.Root
	cmd.Env = []string{"HOME=" + c.Root, "TERM=xterm", "PATH=/usr/bin:/bin", "GOTRACEBACK=all", "TZ=UTC"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true}
	if err := cmd.Start(); err != nil {
		m.Close()
		s.Close()
		return err
	}
	s.Close()
	c.mu.Lock()
	c.cmd, c.pty, c.typed, c.expect = cmd, m, 0, false
	c.done = make(chan struct{})
	c.out.Reset()
	c.starts++
	done := c.done
	c.mu.Unlock()
	rd := make(chan struct{})
	go func() {
		defer close(rd)
		buf := make([]byte, 32768)
		for {
			n, err := m.Read(buf)
			c.mu.Lock()
			if c.out.Len() < 64<<20 {
				c.out.Write(buf[:n])
			}
			c.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	go func() {
		cmd.Wait()
		select {
		case <-rd:
		case <-time.After(3 * time.Second):
		}
		m.Close()
		close(done)
	}()
	return nil
}

func (c *Cli) MustStart() {
	if err := c.Start(); err != nil {
		panic("zkclient does not start: " + err.Error())
	}
	c.ready()
}

// ready waits until the client takes commands: keys that come before it has
// its window are nobody's.
func (c *Cli) ready() {
	lines := func() int { return strings.Count(c.history(), "\n") }
	for i, had := 0, lines(); i < 10 && c.Alive(); i++ {
		c.Keys("/help query\r")
		if c.wait(3*time.Second, func() bool { return lines() > had }) {
			break
		}
	}
	for n := -1; n != lines(); time.Sleep(20 * time.Millisecond) {
		n = lines()
	}
	c.typed = lines()
}

func (c *Cli) started() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.starts > 0
}

// Alive tells whether the process runs.
func (c *Cli) Alive() bool {
	c.mu.Lock()
	d := c.done
	c.mu.Unlock()
	if d == nil {
		return false
	}
	select {
	case <-d:
		return false
	default:
		return true
	}
}

func (c *Cli) end(sig syscall.Signal) {
	c.mu.Lock()
	cmd, d := c.cmd, c.done
	c.expect = true
	c.mu.Unlock()
	if cmd == nil {
		return
	}
	// the whole session: the client may run under a wrapper
	syscall.Kill(-cmd.Process.Pid, sig)
	select {
	case <-d:
	case <-time.After(20 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-d
	}
}

func (c *Cli) Kill() { c.end(syscall.SIGKILL) }

// Quit ends the client the way a user does.
func (c *Cli) Quit() bool {
	c.mu.Lock()
	d := c.done
	c.expect = true
	c.mu.Unlock()
	if !c.Alive() {
		return true
	}
	c.Keys("\x11") // ^Q
	select {
	case <-d:
		return true
	case <-time.After(10 * time.Second):
		c.Kill()
		return false
	}
}

// Keys types raw keys.
func (c *Cli) Keys(s string) {
	c.mu.Lock()
	p := c.pty
	c.mu.Unlock()
	io.WriteString(p, s)
}

// Type enters a command line and waits until the client has taken it.
func (c *Cli) Type(line string) bool {
	c.typeMu.Lock()
	defer c.typeMu.Unlock()
	c.Keys(line)
	// the edit widget must have the text before enter comes
	c.Keys("\r")
	c.typed++
	return c.wait(20*time.Second, func() bool {
		b, _ := os.ReadFile(c.path("history"))
		return bytes.Count(b, []byte("\n")) >= c.typed
	})
}

func (c *Cli) wait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for step := 2 * time.Millisecond; ; {
		if f() {
			return true
		}
		if time.Now().After(end) || !c.Alive() {
			return f()
		}
		time.Sleep(step)
		if step < 20*time.Millisecond {
			step += 2 * time.Millisecond
		}
	}
}

// Console is what the client printed on its console so far (all starts).
func (c *Cli) Console() string {
	b, _ := os.ReadFile(c.path("zkclient.log"))
	return string(b)
}

// Conv is what the client displayed in the window of a peer.
func (c *Cli) Conv(nick string, id [32]byte) string {
	host, _, _ := strings.Cut(c.addr, ":")
	b, _ := os.ReadFile(c.path("logs", nick+"."+host+"."+hex.EncodeToString(id[:])+".log"))
	return string(b)
}

// GroupConv is what the client displayed in the window of a group.
func (c *Cli) GroupConv(name string) string {
	host, _, _ := strings.Cut(c.addr, ":")
	b, _ := os.ReadFile(c.path("logs", "groupchat."+name+"."+host+".log"))
	return string(b)
}

// Group reads a group from the client's disk.
func (c *Cli) Group(name string) (*rpc.GroupList, bool) {
	b, err := os.ReadFile(c.path("groupchat", name))
	if err != nil {
		return nil, false
	}
	var g rpc.GroupList
	if _, err := xdr.Unmarshal(bytes.NewReader(b), &g); err != nil {
		return nil, false
	}
	return &g, true
}

// Screen is the tail of what was written to the terminal.
func (c *Cli) Screen() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out.String()
}

var panicRe = regexp.MustCompile(`(?s)(panic: .*|fatal error: .*|SIGSEGV.*)`)

// Death describes how the client ended.
func (c *Cli) Death() string {
	c.mu.Lock()
	s := c.out.String()
	ps := ""
	if c.cmd != nil && c.cmd.ProcessState != nil {
		ps = c.cmd.ProcessState.String()
	}
	c.mu.Unlock()
	if len(s) > 200000 {
		s = s[len(s)-200000:]
	}
	if m := panicRe.FindString(s); m != "" {
		m = strings.ReplaceAll(m, "\r", "")
		if len(m) > 1500 {
			m = m[:1500]
		}
		return ps + ": " + m
	}
	return ps + ": " + trim(s, 300)
}

func (c *Cli) history() string {
	b, _ := os.ReadFile(c.path("history"))
	return string(b)
}
