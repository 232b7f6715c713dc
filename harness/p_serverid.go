package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/tls"
	"errors"
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// P35: who a server is, over all its starts.

// face is what a client sees of a server.
type face struct {
	cert []byte
	id   [32]byte // proven
}

func (f face) String() string {
	s := sha256.Sum256(f.cert)
	return fmt.Sprintf("certificate %x identity %x", s[:6], f.id[:6])
}

func (f face) same(g face) bool { return bytes.Equal(f.cert, g.cert) && f.id == g.id }

// look connects to a server the way a client does that does not know it, and
// has it prove that it is who it says.
func look(addr string, me *zkidentity.FullIdentity) (f face, err error) {
	c, err := tls.DialWithDialer(&net.Dialer{Timeout: 4 * time.Second}, "tcp", addr, &tls.Config{InsecureSkipVerify: true})
	if err != nil {
		return f, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(40 * time.Second))
	f.cert = c.ConnectionState().PeerCertificates[0].Raw
	if _, err := xdr.Marshal(c, rpc.InitialCmdIdentify); err != nil {
		return f, err
	}
	var p zkidentity.PublicIdentity
	if _, err := xdr.Unmarshal(c, &p); err != nil {
		return f, fmt.Errorf("identify: %w", err)
	}
	if !p.Verify() {
		return f, errors.New("the identity is not genuine")
	}
	if _, err := xdr.Marshal(c, rpc.InitialCmdSession); err != nil {
		return f, err
	}
	kx := &session.KX{Conn: c, MaxMessageSize: 64 << 20, OurPublicKey: &me.Public.Key, OurPrivateKey: &me.PrivateKey, TheirPublicKey: &p.Key}
	if err := kx.Initiate(); err != nil {
		return f, fmt.Errorf("the server does not prove its identity: %w", err)
	}
	f.id = p.Identity
	return f, nil
}

type idSrv struct {
	*Srv
	me *zkidentity.FullIdentity
}

// try starts the server under a wrapper; up tells whether clients can
// connect.  The process is gone when it returns.
func (s *idSrv) try(wrap []string, keep time.Duration) (f face, up bool, how string, err error) {
	s.writeCfg()
	s.starts++
	s.stderr = filepath.Join(filepath.Dir(s.cfg), fmt.Sprintf("stderr.%d", s.starts))
	o, err := os.Create(s.stderr)
	must(err)
	argv := append(append([]string{}, wrap...), binPath("zkserver"), "-cfg", s.cfg)
	c := exec.Command(argv[0], argv[1:]...)
	c.Stdout, c.Stderr = o, o
	c.Dir = filepath.Dir(s.cfg)
	c.Env = append(os.Environ(), "HOME="+filepath.Dir(s.cfg))
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := c.Start(); err != nil {
		o.Close()
		return f, false, "", err
	}
	o.Close()
	done := make(chan struct{})
	go func() { c.Wait(); close(done) }()
	gone := func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	defer func() {
		how = fmt.Sprint(c.ProcessState)
	}()
	defer func() {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
		// the server ends after its wrapper
		for i := 0; i < 500; i++ {
			if x, e := net.DialTimeout("tcp", s.Addr, time.Second); e == nil {
				x.Close()
			} else if strings.Contains(e.Error(), "refused") {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
	}()
	useless := 0
	for end := time.Now().Add(40 * time.Second); ; {
		f, err = look(s.Addr, s.me)
		if err == nil {
			time.Sleep(keep)
			return f, true, "", nil
		}
		if gone() {
			return f, false, "", nil
		}
		if !strings.Contains(err.Error(), "refused") {
			useless++
		}
		if useless > 2 && len(wrap) > 0 || time.Now().After(end) {
			// it listens, but it cannot be used
			return f, false, "", fmt.Errorf("no server: %v", err)
		}
		time.Sleep(15 * time.Millisecond)
	}
}

var fpLog = regexp.MustCompile(`Our (outer|inner) fingerprint: ([0-9a-f]{64})`)

// announced are the fingerprints the server wrote to its log.
func (s *idSrv) announced() (outer, inner string) {
	for _, m := range fpLog.FindAllStringSubmatch(s.Log(), -1) {
		if m[1] == "outer" {
			outer = m[2]
		} else {
			inner = m[2]
		}
	}
	return
}

func newIDSrv(r *Report, me *zkidentity.FullIdentity) *idSrv {
	initOnce.Do(session.Init)
	return &idSrv{newSrv(r, map[string]string{"debug": "yes"}), me}
}

// keeps starts the server undisturbed, some times; it is who it was.
func (s *idSrv) keeps(r *Report, want *face, what string) bool {
	for i := 0; i < 2; i++ {
		f, up, how, err := s.try(nil, 0)
		if !up {
			r.Violate("no-start", fmt.Sprintf("%s; afterwards the server does not start: %v %v %s", what, how, err, s.tail()), nil)
			return false
		}
		if want != nil && !f.same(*want) {
			r.Violate("another-server", fmt.Sprintf("%s; the server was %v and now is %v", what, *want, f),
				map[string]any{"what": what, "was": want.String(), "is": f.String(), "files": ls(s.Root)})
			return false
		}
		want = &f
		r.Count("faces_seen", 1)
	}
	return true
}

func ls(dir string) (l []string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if i, err := e.Info(); err == nil {
			l = append(l, fmt.Sprintf("%s %d", e.Name(), i.Size()))
		}
	}
	return
}

type idJob struct {
	what   string
	wrap   []string
	mature bool
}

func p35(r *Report) {
	me := newID("looker")
	rng := sub(r.Seed, "P35")
	calls := strings.Join(mutatingCalls, ",")
	under := func(extra ...string) []string {
		return append([]string{"strace", "-f", "-qq", "-o", "/dev/null"}, extra...)
	}

	// what a server leaves behind
	seed := newIDSrv(r, me)
	was, up, how, err := seed.try(nil, 0)
	if !up {
		r.Violate("no-start", fmt.Sprintf("a new server does not start: %v %v %s", how, err, seed.tail()), nil)
		return
	}
	if !seed.keeps(r, &was, "a restart") {
		return
	}
	var files []string
	filepath.Walk(seed.Root, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() && !strings.HasSuffix(p, ".log") {
			rel, _ := filepath.Rel(seed.Root, p)
			files = append(files, rel)
		}
		return nil
	})
	if len(files) < 3 {
		r.Inconclusive("the server keeps only %v", files)
		return
	}

	var jobs []idJob
	for _, mature := range []bool{false, true} {
		age := "first start"
		if mature {
			age = "a start"
		}
		// killed at every call of the main thread and others
		for _, c := range []struct {
			call string
			n    int
		}{{"openat", 26}, {"write", 26}, {"close", 10}, {"fsync", 4}, {"renameat", 4}, {"rename", 2}, {"linkat", 2}, {"unlinkat", 6}, {"mkdirat", 4}, {"read", 12}, {"bind", 2}, {"listen", 2}} {
			for n := 1; n <= c.n; n++ {
				if mature && c.call != "openat" && c.call != "write" && n > 3 {
					continue
				}
				jobs = append(jobs, idJob{fmt.Sprintf("%s, killed at %s %d", age, c.call, n),
					under("-e", "trace="+calls+",read,bind,listen", "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", c.call, n)), mature})
			}
		}
		// a full disk
		for _, e := range []string{"ENOSPC", "EIO"} {
			for n := 1; n <= 12; n++ {
				jobs = append(jobs, idJob{fmt.Sprintf("%s, write %d %s", age, n, e),
					under("-e", "trace=write", "-e", fmt.Sprintf("inject=write:error=%s:when=%d", e, n)), mature})
			}
		}
		for _, k := range []int{0, 1, 100, 300, 700, 1000, 1500, 2000, 3000, 4500} {
			jobs = append(jobs, idJob{fmt.Sprintf("%s, files up to %d bytes", age, k), []string{"prlimit", fmt.Sprintf("--fsize=%d", k)}, mature})
		}
		// no descriptors
		for n := 3; n <= 14; n++ {
			jobs = append(jobs, idJob{fmt.Sprintf("%s, %d descriptors", age, n), []string{"prlimit", fmt.Sprintf("--nofile=%d", n)}, mature})
		}
	}
	// faults with each file
	for _, f := range files {
		for _, call := range []string{"openat", "read", "fstat", "newfstatat", "close"} {
			for _, e := range []string{"EIO", "EACCES", "EMFILE", "ENOMEM", "EINTR", "ESTALE"} {
				if call != "openat" && e != "EIO" && e != "ENOMEM" {
					continue
				}
				for _, when := range []string{"1", "1+", "2", "2+"} {
					if call != "read" && call != "openat" && when != "1" {
						continue
					}
					jobs = append(jobs, idJob{fmt.Sprintf("a start, %s of %s %s at %s", call, f, e, when),
						under("-P", "@"+f, "-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:error=%s:when=%s", call, e, when)), true})
				}
			}
		}
		for _, call := range []string{"openat", "read", "write", "close"} {
			jobs = append(jobs, idJob{fmt.Sprintf("first start, killed at %s of %s", call, f),
				under("-P", "@"+f, "-e", "trace="+call, "-e", "inject="+call+":signal=KILL:when=1"), false})
		}
	}
	if !r.thorough() {
		rng.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		// all faults with single files stay, of the others a part
		var few []idJob
		n := 0
		for _, j := range jobs {
			if strings.Contains(j.what, " of ") {
				if strings.Contains(j.what, "EINTR") || strings.Contains(j.what, "ESTALE") || strings.Contains(j.what, "newfstatat") {
					continue
				}
			} else if n++; n > 110 {
				continue
			}
			few = append(few, j)
		}
		jobs = few
	}
	parallel(len(jobs), 8, func(i int) {
		if r.Failed() {
			return
		}
		idCase(r, me, seed, was, jobs[i], sub(r.Seed, "P35", i))
	})
	r.Need("starts_that_failed", 40)
	r.Need("starts_killed", 15)
	r.Need("mature_disturbed", 40)
	r.Need("first_disturbed", 20)
	r.Need("faces_seen", 100)
}

func idCase(r *Report, me *zkidentity.FullIdentity, seed *idSrv, was face, j idJob, rng *mrand.Rand) {
	s := newIDSrv(r, me)
	if j.mature {
		if out, err := exec.Command("cp", "-a", seed.Root, s.Root).CombinedOutput(); err != nil {
			panic(string(out))
		}
		os.Remove(filepath.Join(s.Root, "zkserver.log"))
	}
	wrap := append([]string{}, j.wrap...)
	for i, a := range wrap {
		if strings.HasPrefix(a, "@") {
			wrap[i] = filepath.Join(s.Root, a[1:])
		}
	}
	f, up, how, err := s.try(wrap, 0)
	what := fmt.Sprintf("%s (up %v, %s %v)", j.what, up, how, err)
	var want *face
	switch {
	case j.mature:
		want = &was
		if up && !f.same(was) {
			r.Violate("another-server", fmt.Sprintf("%s; the server was %v and now is %v", what, was, f),
				map[string]any{"what": what, "files": ls(s.Root)})
			return
		}
		r.Count("mature_disturbed", 1)
	case up:
		want = &f
		r.Count("first_disturbed", 1)
	default:
		r.Count("first_disturbed", 1)
	}
	if !up {
		if strings.Contains(how, "killed") {
			r.Count("starts_killed", 1)
		} else {
			r.Count("starts_that_failed", 1)
		}
	}
	outer, inner := s.announced()
	if !s.keeps(r, want, what) {
		return
	}
	if want == nil && inner != "" {
		// what an administrator may have told users already
		g, _, _, _ := s.try(nil, 0)
		if fmt.Sprintf("%x", g.id) != inner || fmt.Sprintf("%x", sha256.Sum256(g.cert)) != outer {
			r.Violate("another-server", fmt.Sprintf("%s; the server announced %s and %s in its log and now is %v", what, outer, inner, g),
				map[string]any{"what": what, "files": ls(s.Root)})
			return
		}
		r.Count("announced", 1)
	}
	r.Case(j.what)
	if rng.Intn(20) == 0 {
		r.Sample(map[string]any{"start": what, "files": ls(s.Root)})
	}
	os.RemoveAll(filepath.Dir(s.cfg))
}

func init() { register("P35", p35) }
