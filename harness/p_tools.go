package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() { register("P31", p31) }

// P31: the administration tools.

type toolOut struct {
	rc       int
	out, err string
}

// tool runs one of the tools.
func tool(home, stdin, name string, args ...string) toolOut {
	c := exec.Command(binPath(name), args...)
	c.Dir = home
	c.Env = append(os.Environ(), "HOME="+home)
	c.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if err := c.Start(); err != nil {
		panic(err.Error())
	}
	done := make(chan struct{})
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	go func() { c.Wait(); close(done) }()
	<-done
	t.Stop()
	return toolOut{c.ProcessState.ExitCode(), o.String(), e.String()}
}

type tlworld struct {
	r      *Report
	rng    *rand.Rand
	lane   int
	s      *Srv
	home   string
	cfg    string // of the server
	n      int
	users  map[[32]byte]*zkidentity.FullIdentity // with an account
	off    map[[32]byte]bool                     // disabled
	junk   int
	hist   []string
	failed bool
}

func (w *tlworld) note(f string, a ...any) { w.hist = append(w.hist, trim(fmt.Sprintf(f, a...), 300)) }

func (w *tlworld) bad(sig, f string, a ...any) {
	w.failed = true
	h := w.hist
	if len(h) > 6 {
		h = h[len(h)-6:]
	}
	w.r.Violate(sig, fmt.Sprintf(f, a...)+" ("+strings.Join(h, "; ")+")", map[string]any{"history": w.hist})
}

func (w *tlworld) run(name string, args ...string) toolOut { return w.feed("", name, args...) }

func (w *tlworld) feed(stdin, name string, args ...string) toolOut {
	o := tool(w.home, stdin, name, args...)
	w.note("%s %s: %d %q %q", name, strings.Join(args, " "), o.rc, trim(o.out, 100), trim(o.err, 160))
	w.r.Count("tool_runs", 1)
	if strings.Contains(o.err, "panic:") || strings.Contains(o.err, "goroutine ") {
		w.bad("panic", "%s panics: %s", name, trim(o.err, 500))
	}
	return o
}

func newTlworld(r *Report, rng *rand.Rand, lane int) *tlworld {
	w := &tlworld{r: r, rng: rng, lane: lane, users: map[[32]byte]*zkidentity.FullIdentity{}, off: map[[32]byte]bool{}}
	w.s = newSrv(r, map[string]string{"createpolicy": "token", "directory": []string{"yes", "no"}[lane%2]})
	w.home = tempDir("tools")
	w.cfg = w.s.cfg
	w.s.MustStart()
	// the tools look for the configuration in the root
	b, _ := os.ReadFile(w.s.cfg)
	must(os.WriteFile(filepath.Join(w.s.Root, "zkserver.conf"), b, 0600))
	return w
}

func hexID(id [32]byte) string { return hex.EncodeToString(id[:]) }

// clientRoot prepares the root of a client with an identity.
func (w *tlworld) clientRoot(id *zkidentity.FullIdentity) string {
	w.n++
	root := filepath.Join(w.home, fmt.Sprintf("client%d", w.n))
	must(os.MkdirAll(filepath.Join(root, "myserver"), 0700))
	db, err := inidb.New(filepath.Join(root, "myserver", "myserver.ini"), true, 10)
	if err != nil && !errors.Is(err, inidb.ErrCreated) {
		panic(err)
	}
	must(db.Set("", "myidentity", base64.StdEncoding.EncodeToString(xdrBytes(id))))
	must(db.Save())
	return root
}

func (w *tlworld) newName() (string, string) {
	w.n++
	n := fmt.Sprintf("%d-%d", w.lane, w.n)
	return []string{"Name of ", "", "näme\n", strings.Repeat("long ", 40), "%s%d", "= [x]\r\n"}[w.rng.Intn(6)] + n,
		[]string{"nick", "nïck", "a b", "%s", "=", "\x1b[31mred", "two\nlines", strings.Repeat("y", 100)}[w.rng.Intn(8)] + n
}

func (w *tlworld) newID() *zkidentity.FullIdentity {
	name, nick := w.newName()
	id := newID("x")
	p := resign(id, name, nick)
	id.Public = p
	return id
}

func (w *tlworld) blobFile(b []byte) string {
	w.n++
	f := filepath.Join(w.home, fmt.Sprintf("blob%d", w.n))
	must(os.WriteFile(f, b, 0600))
	return f
}

func (w *tlworld) exportClient(id *zkidentity.FullIdentity) []byte {
	root := w.clientRoot(id)
	before := snapshot(root)
	o := w.run("zkexport", "-root", root)
	if o.rc != 0 {
		w.bad("export", "the identity of a client cannot be exported: %s", o.err)
		return nil
	}
	if snapshot(root) != before {
		w.bad("export-writes", "exporting changes the files of the client")
	}
	raw, err := base64.StdEncoding.DecodeString(strings.TrimSpace(o.out))
	var p zkidentity.PublicIdentity
	if err == nil {
		_, err = xdr.Unmarshal(bytes.NewReader(raw), &p)
	}
	if err != nil || !bytes.Equal(xdrBytes(&p), xdrBytes(&id.Public)) {
		w.bad("export-differs", "what is exported is not the identity of the client (%v)", err)
	}
	if bytes.Contains(raw, id.PrivateKey[:]) || bytes.Contains(raw, id.PrivateSigKey[:32]) {
		w.bad("export-private", "an exported identity contains private keys")
	}
	f := w.run("zkexport", "-root", root, "-f")
	if f.rc != 0 || strings.TrimSpace(f.out) != id.Public.Fingerprint() {
		w.bad("fingerprint", "the fingerprint of a client is exported as %q", f.out)
	}
	return []byte(o.out)
}

// check compares the accounts with the model.
func (w *tlworld) check(after string) {
	if w.failed {
		return
	}
	before := snapshot(filepath.Join(w.s.Root, "home"))
	o := w.run("zkserverdump", "-cfg", w.cfg)
	if o.rc != 0 {
		w.bad("dump", "after %s zkserverdump fails: %s", after, o.err)
		return
	}
	if snapshot(filepath.Join(w.s.Root, "home")) != before {
		w.bad("dump-writes", "zkserverdump changes files of the server")
	}
	var want []string
	for id, f := range w.users {
		h := hexID(id)
		if w.off[id] {
			h = "." + h
		}
		want = append(want, h+" "+strings.Map(func(r rune) rune {
			if r < 32 || r == 127 {
				return '?'
			}
			return r
		}, f.Public.Nick))
	}
	lines := strings.Split(strings.TrimSuffix(o.out, "\n"), "\n")
	got := lines[1:]
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		w.bad("dump-differs", "after %s zkserverdump does not list the accounts: %s", after, trim(diffLines(strings.Join(want, "\n"), strings.Join(got, "\n")), 900))
		return
	}
	for id := range w.users {
		if w.s.hasAccount(id) == w.off[id] || w.s.hasDisabled(id) != w.off[id] {
			w.bad("accounts", "after %s the account %s is enabled %v, disabled %v", after, hexID(id)[:8], w.s.hasAccount(id), w.s.hasDisabled(id))
		}
	}
	w.r.Count("lists", 1)
	w.r.Case(after)
}

func (w *tlworld) login(id *zkidentity.FullIdentity, want bool, why string) {
	b, _, err := w.s.LoginLive(id, nil, map[bool]time.Duration{true: 20 * time.Second, false: time.Second}[want])
	if b != nil {
		b.Close()
	}
	if (err == nil) != want {
		w.bad("login", "%s: the login of %s gives %v", why, hexID(id.Public.Identity)[:8], err)
	}
	w.r.Count("logins", 1)
}

func (w *tlworld) home0() string { return snapshot(filepath.Join(w.s.Root, "home")) }

func (w *tlworld) any(f func(id [32]byte) bool) *zkidentity.FullIdentity {
	var l []string
	for id := range w.users {
		if f == nil || f(id) {
			l = append(l, hexID(id))
		}
	}
	if len(l) == 0 {
		return nil
	}
	sort.Strings(l)
	b, _ := hex.DecodeString(l[w.rng.Intn(len(l))])
	return w.users[[32]byte(b)]
}

func (w *tlworld) imported(id *zkidentity.FullIdentity, o toolOut, why string) {
	if o.rc != 0 || !strings.Contains(o.out, id.Public.Fingerprint()) {
		w.bad("not-imported", "%s is not imported: %d %s", why, o.rc, o.err)
		return
	}
	w.users[id.Public.Identity] = id
	w.r.Count("imported", 1)
}

func (w *tlworld) refused(before string, o toolOut, why string) {
	if !w.failed && (o.rc == 0 && !strings.Contains(o.err, "skipping") || strings.Contains(o.out, "Imported")) {
		w.bad("not-refused", "%s is imported: %q", why, o.out)
		return
	}
	if w.home0() != before {
		w.bad("refused-changes", "%s is refused and changes accounts", why)
	}
	w.r.Count("import_refused", 1)
}

func (w *tlworld) step() {
	before := w.home0()
	imp := func(args ...string) toolOut {
		return w.run("zkimport", append([]string{"-cfg", w.cfg}, args...)...)
	}
	switch k := w.rng.Intn(12); k {
	case 0, 1:
		id := w.newID()
		b := w.exportClient(id)
		if w.failed {
			return
		}
		if w.rng.Intn(4) == 0 {
			w.imported(id, imp("-f", w.blobFile(b)), "a new identity, forced,")
		} else {
			w.imported(id, imp(w.blobFile(b)), "a new identity")
		}
		if !w.failed && w.rng.Intn(3) == 0 {
			w.login(id, true, "after the import")
		}
		w.check("an import")
	case 2:
		// several at once, among them what is no identity
		a, b := w.newID(), w.newID()
		fa, fb := w.blobFile(w.exportClient(a)), w.blobFile(w.exportClient(b))
		if w.failed {
			return
		}
		o := imp(fa, w.blobFile([]byte("nonsense")), filepath.Join(w.home, "missing"), fb)
		w.imported(a, o, "the first of several")
		w.imported(b, o, "the last of several")
		w.check("an import of several")
	case 3:
		id := w.any(nil)
		if id == nil {
			return
		}
		b := w.exportClient(id)
		if w.failed {
			return
		}
		w.refused(before, imp(w.blobFile(b)), "an account that exists")
		w.check("an import of an account that exists")
	case 4:
		id := w.any(func(i [32]byte) bool { return !w.off[i] })
		if id == nil {
			return
		}
		b := w.exportClient(id)
		if w.failed {
			return
		}
		w.imported(id, imp("-f", w.blobFile(b)), "an account that exists, forced,")
		w.check("a forced import of an account that exists")
		if !w.failed && w.rng.Intn(3) == 0 {
			w.login(id, true, "after a forced import")
		}
	case 5:
		id := w.any(func(i [32]byte) bool { return w.off[i] })
		if id == nil {
			return
		}
		b := w.exportClient(id)
		if w.failed {
			return
		}
		args := []string{w.blobFile(b)}
		if w.rng.Intn(2) == 0 {
			args = append([]string{"-f"}, args...)
		}
		w.refused(before, imp(args...), "an account that is disabled")
		w.check("an import of a disabled account")
	case 6:
		// somebody else with a nick that is taken
		id := w.any(func(i [32]byte) bool { return !w.off[i] })
		if id == nil {
			return
		}
		o := newID("x")
		o.Public = resign(o, "Other", id.Public.Nick)
		b := w.exportClient(o)
		if w.failed {
			return
		}
		args := []string{w.blobFile(b)}
		if w.rng.Intn(2) == 0 {
			args = append([]string{"-f"}, args...)
		}
		// only those that are listed in the directory hold on to their nick
		listed := w.s.Opts["directory"] == "yes"
		if listed {
			w.login(id, true, "before the import of a nick")
			before = w.home0()
		}
		oc := imp(args...)
		if !listed && oc.rc == 0 {
			w.imported(o, oc, "somebody with a nick")
		} else {
			w.refused(before, oc, "somebody with a nick that is taken")
		}
		w.check(fmt.Sprintf("an import of a taken nick, listed %v", listed))
	case 7:
		// altered
		id := w.newID()
		raw, _ := base64.StdEncoding.DecodeString(strings.TrimSpace(string(w.exportClient(id))))
		if w.failed {
			return
		}
		b := append([]byte(nil), raw...)
		why := ""
		switch w.rng.Intn(3) {
		case 0:
			why = "an altered identity"
			p := id.Public
			p.Name = "Somebody else"
			b = xdrBytes(&p)
		case 1:
			i := w.rng.Intn(len(b))
			b[i] ^= 1 << w.rng.Intn(8)
			why = fmt.Sprintf("an identity with a bit changed at %d of %d", i, len(b))
		case 2:
			b = b[:w.rng.Intn(len(b))]
			why = "an identity that is cut off"
		}
		f := []byte(base64.StdEncoding.EncodeToString(b) + "\n")
		args := []string{w.blobFile(f)}
		if w.rng.Intn(3) == 0 {
			args = append([]string{"-f"}, args...)
		}
		w.refused(before, imp(args...), why)
		w.check("an import of something altered")
	case 8:
		id := w.any(nil)
		i := randBytes(w.rng, 32)
		if id == nil {
			return
		}
		switch w.rng.Intn(3) {
		case 0, 1:
			cmd, st := "userdisable", true
			if w.rng.Intn(2) == 0 {
				cmd, st = "userenable", false
			}
			me := id.Public.Identity
			o := w.run("zkserverctl", "-cfg", w.cfg, cmd, []string{"", " "}[w.rng.Intn(2)]+hexID(me))
			ok := o.rc == 0 && strings.Contains(o.out, "OK")
			if ok == (w.off[me] == st) || (o.rc == 0) != strings.Contains(o.out, "OK") {
				w.bad("ctl", "%s of an account that is disabled: %v gives %d %q %q", cmd, w.off[me], o.rc, o.out, o.err)
				return
			}
			w.off[me] = st
			w.r.Count("switched", 1)
			w.check(fmt.Sprintf("%s, done %v", cmd, ok))
			if !w.failed && w.rng.Intn(2) == 0 {
				w.login(id, !st, cmd)
			}
		case 2:
			for _, a := range [][]string{{"userdisable", hex.EncodeToString(i)}, {"userenable", hex.EncodeToString(i)}, {"userdisable", ""}, {"userdisable", "zz"}, {"userenable", "../home"},
				{"userdisable", hexID(id.Public.Identity)[:62]}, {"userdisable", hexID(id.Public.Identity) + "00"}, {"userdisable"}, {"userenable"}, {"nonsense"}, {}, {"userdisable", "a", "b"}} {
				o := w.run("zkserverctl", append([]string{"-cfg", w.cfg}, a...)...)
				if o.rc == 0 || strings.Contains(o.out, "OK") {
					w.bad("ctl", "zkserverctl %q is reported as done: %q", a, o.out)
				}
			}
			if w.home0() != before {
				w.bad("refused-changes", "refused commands change accounts")
			}
			w.check("refused commands")
		}
	case 9:
		w.tokens()
	case 10:
		// what is no account does not matter
		w.junk++
		h := filepath.Join(w.s.Root, "home")
		switch w.rng.Intn(4) {
		case 0:
			os.MkdirAll(filepath.Join(h, hex.EncodeToString(randBytes(w.rng, 32))+".new", "cache"), 0700)
		case 1:
			os.MkdirAll(filepath.Join(h, hex.EncodeToString(randBytes(w.rng, 32))), 0700)
		case 2:
			os.WriteFile(filepath.Join(h, fmt.Sprintf("note%d", w.junk)), []byte("x"), 0600)
		case 3:
			d := filepath.Join(h, hex.EncodeToString(randBytes(w.rng, 32)))
			os.MkdirAll(d, 0700)
			os.WriteFile(filepath.Join(d, "user.ini"), [][]byte{[]byte("nonsense"), {}, []byte("identity = %%%\n"), []byte("identity = AAAA\n")}[w.rng.Intn(4)], 0600)
		}
		w.check("something that is no account")
	case 11:
		w.server()
	}
}

var tokenRx = regexp.MustCompile(`^[0-9]{4} [0-9]{4} [0-9]{4} [0-9]{4}\n$`)

func (w *tlworld) tokens() {
	type tok struct {
		t     string
		valid bool
	}
	var ts []tok
	seen := map[string]bool{}
	for i := 1 + w.rng.Intn(4); i > 0; i-- {
		h := []string{"", "1", "24", "8760", "0", "3000000", "18446744073709551615"}[w.rng.Intn(7)]
		args := []string{"-cfg", w.cfg}
		if h != "" {
			args = append(args, "-hours", h)
		}
		o := w.run("zkservertoken", args...)
		if o.rc != 0 && len(h) > 6 {
			continue // refusing is fine
		}
		if o.rc != 0 || !tokenRx.MatchString(o.out) {
			w.bad("token", "zkservertoken gives %d %q %q", o.rc, o.out, o.err)
			return
		}
		t := strings.ReplaceAll(strings.TrimSpace(o.out), " ", "")
		if seen[t] {
			w.bad("token-twice", "a token was issued twice")
		}
		seen[t] = true
		ts = append(ts, tok{t, h != "0"})
		w.r.Count("tokens", 1)
	}
	for _, t := range ts {
		if !t.valid {
			time.Sleep(1100 * time.Millisecond) // expires within the second
			break
		}
	}
	w.rng.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	for _, t := range ts {
		// something else than the token first
		b := []byte(t.t)
		b[w.rng.Intn(16)] ^= 1
		if !seen[string(b)] {
			if x := newID("tampered"); w.s.Create(x.Public, string(b)) == nil {
				w.bad("token-any", "an account is created with a token that was not issued")
			}
		}
		id := w.newID()
		err := w.s.Create(id.Public, t.t)
		w.note("create with %s: %v", t.t, err)
		if (err == nil) != t.valid {
			w.bad("token", "creating an account with a token that is valid %v gives %v", t.valid, err)
			return
		}
		if err == nil {
			w.users[id.Public.Identity] = id
			if x := newID("again"); w.s.Create(x.Public, t.t) == nil {
				w.bad("token-again", "a token was accepted twice")
			}
		}
	}
	w.check("tokens")
}

// server exports the server and imports it into a client.
func (w *tlworld) server() {
	dir := w.s.Opts["directory"] == "yes"
	o := w.run("zkexport", "-s", "-root", w.s.Root)
	if o.rc != 0 {
		w.bad("export", "the server cannot be exported: %s", o.err)
		return
	}
	blob := strings.TrimSpace(o.out)
	fp := w.run("zkexport", "-s", "-f", "-root", w.s.Root)
	id := w.newID()
	root := w.clientRoot(id)
	ini := filepath.Join(root, "myserver", "myserver.ini")
	cfg := filepath.Join(root, "zkclient.conf")
	must(os.WriteFile(cfg, []byte("root = "+root+"\n"), 0600))
	f := w.blobFile([]byte(blob + "\n"))
	was, _ := os.ReadFile(ini)
	if o := w.feed("yes\n", "zkimport", "-cfg", cfg, f); o.rc == 0 {
		w.bad("not-refused", "a server is imported over the one of the client without -f")
	}
	if now, _ := os.ReadFile(ini); !bytes.Equal(now, was) {
		w.bad("refused-changes", "a refused import of a server changes the client's")
	}
	// an altered server
	raw, _ := base64.StdEncoding.DecodeString(blob)
	i := w.rng.Intn(1300)
	alt := append([]byte(nil), raw...)
	alt[i] ^= 1 << w.rng.Intn(8)
	if o := w.run("zkimport", "-f", "-cfg", cfg, w.blobFile([]byte(base64.StdEncoding.EncodeToString(alt)))); o.rc == 0 && !strings.Contains(o.err, "skipping") {
		w.bad("not-refused", "the identity of a server with a bit changed at %d is imported", i)
	}
	if now, _ := os.ReadFile(ini); !bytes.Equal(now, was) {
		w.bad("refused-changes", "a refused import of an altered server changes the client's")
	}
	same := func(r string, own bool) bool {
		db, err := inidb.New(filepath.Join(r, "myserver", "myserver.ini"), false, 10)
		if err != nil {
			w.bad("import-server", "after the import of a server the client has none: %v", err)
			return false
		}
		get := func(k string) string { v, _ := db.Get("", k); return v }
		cert, _ := os.ReadFile(filepath.Join(w.s.Root, "zkserver.crt"))
		_ = cert
		sid, _ := base64.StdEncoding.DecodeString(get("serveridentity"))
		der, _ := base64.StdEncoding.DecodeString(get("servercert"))
		outer := fmt.Sprintf("%x", sha256.Sum256(der))
		if get("server") != w.s.Addr || !bytes.Equal(sid, xdrBytes(w.s.PubID())) || get("directory") != fmt.Sprint(dir) ||
			fp.out != "outer: "+outer+"\ninner: "+w.s.PubID().Fingerprint()+"\n" {
			w.bad("import-server", "the imported server is not the one exported: %s directory %s, fingerprints %q", get("server"), get("directory"), fp.out)
			return false
		}
		if own && get("myidentity") != base64.StdEncoding.EncodeToString(xdrBytes(id)) {
			w.bad("import-server", "importing a server changes the identity of the client")
			return false
		}
		return true
	}
	if o := w.run("zkimport", "-f", "-cfg", cfg, f); o.rc != 0 {
		w.bad("not-imported", "a server is not imported with -f: %s", o.err)
		return
	}
	if !same(root, true) {
		return
	}
	// with a question
	for _, a := range []struct {
		in string
		ok bool
	}{{"no\n", false}, {"", false}, {"\n", false}, {"yesno\n", false}, {"yes\n", true}} {
		r := filepath.Join(w.home, fmt.Sprintf("fresh%d-%d", w.n, len(a.in)))
		must(os.MkdirAll(r, 0700))
		must(os.WriteFile(filepath.Join(r, "zkclient.conf"), []byte("root = "+r+"\n"), 0600))
		o := w.feed(a.in, "zkimport", "-cfg", filepath.Join(r, "zkclient.conf"), f)
		_, err := os.Stat(filepath.Join(r, "myserver", "myserver.ini"))
		if (o.rc == 0) != a.ok || (err == nil) != a.ok {
			w.bad("question", "the answer %q to the question for a server gives %d, imported %v", a.in, o.rc, err == nil)
			return
		}
		for _, l := range strings.Split(strings.TrimSpace(fp.out), "\n") {
			if h := strings.Fields(l); len(h) == 2 && !strings.Contains(o.err, h[1]) {
				w.bad("question", "the question for a server does not show its fingerprint %s", l)
			}
		}
		if a.ok && !same(r, false) {
			return
		}
	}
	w.r.Count("servers", 1)
	w.check("an export of the server")
	// a real client goes online with what was imported
	if w.failed || w.rng.Intn(2) != 0 {
		return
	}
	if o := w.run("zkimport", "-cfg", w.cfg, w.blobFile(w.exportClient(id))); o.rc != 0 {
		w.bad("not-imported", "an identity is not imported: %s", o.err)
		return
	}
	w.users[id.Public.Identity] = id
	db, _ := inidb.New(ini, false, 10)
	cert64, _ := db.Get("", "servercert")
	der, _ := base64.StdEncoding.DecodeString(cert64)
	c := newCli(w.r, id, w.s.Addr, w.s.PubID(), der)
	b, _ := os.ReadFile(ini)
	must(os.WriteFile(c.path("myserver", "myserver.ini"), b, 0600))
	c.MustStart()
	if !c.wait(20*time.Second, func() bool {
		return strings.Contains(w.s.Log(), hexID(id.Public.Identity)) || strings.Contains(c.Console(), "Connection to") || strings.Contains(c.Console(), "nline")
	}) {
		w.bad("client", "a client with the imported server does not go online: %s", trim(c.Console(), 500))
	}
	w.r.Count("clients", 1)
	c.Kill()
}

func p31(r *Report) {
	r.Rule = "one case per kind of use of a tool, each followed by a comparison of all accounts with a model"
	r.Need("tool_runs", 200)
	r.Need("imported", 15)
	r.Need("import_refused", 15)
	r.Need("tokens", 10)
	r.Need("switched", 5)
	r.Need("servers", 3)
	var wg sync.WaitGroup
	for l := 0; l < 6; l++ {
		wg.Add(1)
		go func(l int) {
			defer wg.Done()
			defer harness(r)
			w := newTlworld(r, sub(r.Seed, "tools", l), l)
			for i := 0; i < r.pick(35, 400) && !w.failed && !r.Failed(); i++ {
				w.note("--")
				w.step()
				if !w.failed && w.rng.Intn(15) == 0 {
					w.s.Stop()
					if o := w.run("zkserverctl", "-cfg", w.cfg, "userdisable", strings.Repeat("00", 32)); o.rc == 0 {
						w.bad("ctl", "zkserverctl reports success without a server")
					}
					w.s.MustStart()
					w.check("a restart of the server")
				}
			}
		}(l)
	}
	wg.Wait()
}
