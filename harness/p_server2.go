package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() {
	register("P18", p18)
	register("P19", p19)
	register("P20", p20)
	register("P21", p21)
	register("P22", p22)
}

// issue writes tokens as the token tool does; only while the server is quiet.
func (s *Srv) issue(tokens map[string]string) {
	f := filepath.Join(s.Root, "pending", "pending.ini")
	db, err := inidb.New(f, true, 10)
	if err != nil && !errors.Is(err, inidb.ErrCreated) {
		panic(err)
	}
	for t, v := range tokens {
		must(db.Set("", t, v))
	}
	must(db.Save())
}

func newToken(rg *rand.Rand) string {
	return fmt.Sprintf("%d", 1000000000000000+rg.Int63n(8999999999999999))
}

func inHours(h float64) string {
	return strconv.FormatInt(time.Now().Add(time.Duration(h*float64(time.Hour))).Unix(), 10)
}

// manyIDs makes fresh identities.
func manyIDs(n int, name string) []*zkidentity.FullIdentity {
	o := make([]*zkidentity.FullIdentity, n)
	parallel(n, 8, func(i int) { o[i] = newID(fmt.Sprintf("%s%d", name, i)) })
	return o
}

// resign changes a public identity's names and signs it again, as the holder
// of the keys can.
func resign(id *zkidentity.FullIdentity, name, nick string) zkidentity.PublicIdentity {
	f := *id
	f.Public.Name, f.Public.Nick = name, nick
	must(f.RecalculateDigest())
	return f.Public
}

// ---- P18

func p18(r *Report) {
	r.Rule = "a case is one creation request (or one group of concurrent ones) against a server with one policy; non-trivial when the answer and the accounts on disk were compared"
	r.Need("created", 30)
	r.Need("refused", 60)
	r.Need("token_races", 8)
	r.Need("creation_kills", 6)
	var wg sync.WaitGroup
	for _, f := range []func(*Report){p18closed, p18open, p18token, p18kill} {
		f := f
		wg.Add(1)
		go func() { defer wg.Done(); f(r) }()
	}
	wg.Wait()
}

// try makes a creation request and checks the answer against the disk.
func try(r *Report, s *Srv, pid zkidentity.PublicIdentity, token string, want bool, why string) bool {
	had := s.hasAccount(pid.Identity) || s.hasDisabled(pid.Identity)
	err := s.Create(pid, token)
	has := s.hasAccount(pid.Identity)
	r.Case(why + "/" + token + "/" + hex.EncodeToString(pid.Identity[:4]))
	if err == nil {
		r.Count("created", 1)
	} else {
		r.Count("refused", 1)
	}
	if err != nil && !errors.Is(err, errRefused) {
		r.Violate("no-answer", fmt.Sprintf("%s: the request was not answered: %v", why, err), nil)
	}
	if err == nil && !has {
		r.Violate("created-not-there", fmt.Sprintf("%s: creation confirmed, but there is no account", why), nil)
	}
	if err != nil && has && !had {
		r.Violate("refused-but-there", fmt.Sprintf("%s: creation refused (%v), but there is an account", why, err), nil)
	}
	if (err == nil) != want {
		if want {
			r.Violate("refused-valid", fmt.Sprintf("%s: a creation the policy allows is refused: %v", why, err), nil)
		} else {
			r.Violate("created-disallowed", fmt.Sprintf("%s: an account was created that the policy does not allow", why), nil)
		}
	}
	return err == nil
}

// stranger logs in with an identity that has no account.
func stranger(r *Report, s *Srv, id *zkidentity.FullIdentity, why string) {
	c, err := s.dial()
	if err != nil {
		r.Violate("no-answer", why+": "+err.Error(), nil)
		return
	}
	defer c.Close()
	kx, err := s.kxOn(c, id)
	if err != nil {
		return
	}
	r.Count("strangers", 1)
	r.Case("stranger " + why)
	c.SetReadDeadline(time.Now().Add(60 * time.Second))
	if m, err := kx.Read(); err == nil {
		var msg rpc.Message
		xdr.Unmarshal(bytes.NewReader(m), &msg)
		if msg.Command != rpc.SessionCmdUnwelcome {
			r.Violate("stranger-welcome", fmt.Sprintf("%s: an identity without an account is answered %q when it logs in", why, msg.Command), nil)
		}
	}
}

func p18closed(r *Report) {
	for _, pol := range []string{"no", "\x00"} { // the default is no
		srv := newSrv(r, map[string]string{"createpolicy": pol})
		srv.MustStart()
		rg := sub(r.Seed, "closed", pol)
		t := newToken(rg)
		srv.issue(map[string]string{t: inHours(5)})
		for i, id := range manyIDs(6, "closed") {
			try(r, srv, id.Public, []string{"", t, "yes"}[i%3], false, "closed server")
		}
		parallel(12, 12, func(i int) {
			try(r, srv, newID("c").Public, t, false, "closed server, concurrently")
		})
		stranger(r, srv, newID("stranger"), "closed server")
		if e := homeEntries(srv); e != "" {
			r.Violate("created-disallowed", "a closed server has accounts: "+e, nil)
		}
		srv.Stop()
	}
}

// snapshot reads all files under an account.
func snapshot(dir string) string {
	var b strings.Builder
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			fmt.Fprintf(&b, "%s: %v\n", p, err)
			return nil
		}
		fmt.Fprintf(&b, "%s %v\n", strings.TrimPrefix(p, dir), fi.Mode())
		if fi.Mode().IsRegular() {
			d, _ := os.ReadFile(p)
			fmt.Fprintf(&b, "%x\n", d)
		}
		return nil
	})
	return b.String()
}

func p18open(r *Report) {
	srv := newSrv(r, map[string]string{"createpolicy": "yes"})
	srv.MustStart()
	defer srv.Stop()
	n := r.pick(12, 60)
	ids := manyIDs(n, "open")
	parallel(n, n, func(i int) {
		try(r, srv, ids[i].Public, []string{"", "junk"}[i%2], true, "open server")
	})
	// the same identity at the same time
	for k, id := range manyIDs(r.pick(40, 300), "same") {
		ok := 0
		errs := srv.CreateAtOnce(8, func(int) (zkidentity.PublicIdentity, string) { return id.Public, "" })
		for _, err := range errs {
			if err == nil {
				ok++
			} else if !errors.Is(err, errRefused) {
				r.Violate("no-answer", "concurrent requests for one identity: "+err.Error(), nil)
			}
		}
		r.Case(fmt.Sprintf("same-%d", k))
		r.Count("same_identity_races", 1)
		if ok != 1 {
			r.Violate("created-twice", fmt.Sprintf("8 concurrent requests for one identity were confirmed %d times: %v", ok, errs), nil)
			break
		}
		if b, err := srv.Login(id, nil); err != nil {
			r.Violate("created-incomplete", "an account created by one of several concurrent requests does not work: "+err.Error(), nil)
			break
		} else {
			if err := b.Ping(30 * time.Second); err != nil {
				r.Violate("created-incomplete", "an account created by one of several concurrent requests does not work: "+err.Error(), nil)
			}
			b.Close()
		}
	}
	// existing accounts stay as they are
	peer := ids[1]
	b, _, err := srv.LoginLive(peer, nil, 30*time.Second)
	if err != nil {
		r.Violate("cannot-login", err.Error(), nil)
		return
	}
	for i, id := range ids {
		if i == 1 || i > 7 {
			continue
		}
		if err := b.Cache(id.Public.Identity, mkMail(1, i, i, 40)); err != nil {
			r.Violate("refused-for-nothing", err.Error(), nil)
		}
		dir := filepath.Join(srv.Root, "home", hex.EncodeToString(id.Public.Identity[:]))
		disabled := i%2 == 0
		if disabled {
			if e, err := srv.Disable(id.Public.Identity); e != "" || err != nil {
				r.Violate("disable-failed", e, nil)
			}
			dir = filepath.Join(srv.Root, "home", "."+hex.EncodeToString(id.Public.Identity[:]))
		}
		was := snapshot(dir)
		pid := id.Public
		if i%3 == 0 {
			pid = resign(id, "another name", "another nick")
		}
		for k := 0; k < 3; k++ {
			err := srv.Create(pid, "")
			r.Count("existing", 1)
			r.Case(fmt.Sprintf("existing-%d-%d", i, k))
			if err == nil {
				r.Violate("existing-created", fmt.Sprintf("creating an account that exists (disabled: %v) is confirmed", disabled), nil)
			}
		}
		if now := snapshot(dir); now != was {
			r.Violate("existing-changed", fmt.Sprintf("a creation request changed an existing account (disabled: %v)", disabled), map[string]string{"before": trim(was, 2000), "after": trim(now, 2000)})
		}
		if disabled && srv.hasAccount(id.Public.Identity) {
			r.Violate("revived", "a creation request revived a disabled account", nil)
		}
	}
	b.Close()
	stranger(r, srv, newID("stranger"), "open server")
	// identities that are not genuine
	g := newID("genuine")
	for i, f := range []func(p *zkidentity.PublicIdentity){
		func(p *zkidentity.PublicIdentity) { p.Nick = "other" },
		func(p *zkidentity.PublicIdentity) { p.Name = "other" },
		func(p *zkidentity.PublicIdentity) { p.Signature[3] ^= 1 },
		func(p *zkidentity.PublicIdentity) { p.Identity[0] ^= 1 },
		func(p *zkidentity.PublicIdentity) { p.Key[9] ^= 1 },
		func(p *zkidentity.PublicIdentity) { p.Identity = ids[0].Public.Identity },
	} {
		p := g.Public
		f(&p)
		was := homeEntries(srv)
		err := srv.Create(p, "")
		r.Case(fmt.Sprintf("forged-%d", i))
		if err == nil || homeEntries(srv) != was {
			r.Violate("forged-created", fmt.Sprintf("an account was created for an altered identity (alteration %d)", i), nil)
		}
	}
}

func p18token(r *Report) {
	rg := sub(r.Seed, "token")
	srv := newSrv(r, map[string]string{"createpolicy": "token"})
	srv.MustStart()
	defer srv.Stop()
	// nothing issued yet
	try(r, srv, newID("t").Public, "", false, "no token issued, none presented")
	try(r, srv, newID("t").Public, "1234567890123456", false, "no token issued")
	toks := map[string]string{}
	var valid, dead []string
	for i := 0; i < r.pick(40, 150); i++ {
		t := newToken(rg)
		toks[t] = inHours([]float64{0.02, 1, 24, 10000}[i%4])
		valid = append(valid, t)
	}
	keep := valid[:5] // these are never presented until the end
	valid = valid[5:]
	for i := 0; i < 8; i++ {
		t := newToken(rg)
		toks[t] = []string{inHours(-0.001), inHours(-24), "0", "-5", "junk", "99999999999999999999999", inHours(-1e5), "1e9"}[i]
		dead = append(dead, t)
	}
	srv.issue(toks)
	for i, t := range dead {
		// the clean-up of expired tokens runs with each request, so the
		// expired ones are mixed with fresh ones
		if i%2 == 1 {
			srv.issue(map[string]string{t: toks[t]})
		}
		try(r, srv, newID("d").Public, t, false, "token expired or corrupt: "+toks[t])
	}
	for i, t := range []string{"", "0", "1234567890123456", valid[0][:15], valid[0] + "0", " " + valid[0], valid[0] + " ", valid[0] + "\n", "[" + valid[0] + "]", valid[0] + "\x00", strings.Repeat("9", 50000), valid[0] + "=" + inHours(4), "identity"} {
		try(r, srv, newID("v").Public, t, false, fmt.Sprintf("no such token (variant %d)", i))
	}
	// once
	t := valid[0]
	if try(r, srv, newID("a").Public, t, true, "valid token") {
		try(r, srv, newID("a").Public, t, false, "token used before")
		try(r, srv, newID("a").Public, t, false, "token used before, again")
	}
	valid = valid[1:]
	// the same token at the same time
	for k := 0; k < r.pick(8, 40) && !r.Failed(); k++ {
		var t string
		if len(valid) > 12 {
			t, valid = valid[0], valid[1:]
		} else {
			t = newToken(rg)
			srv.issue(map[string]string{t: inHours(1)})
		}
		ids := manyIDs(8, "race")
		ok := 0
		for _, err := range srv.CreateAtOnce(8, func(i int) (zkidentity.PublicIdentity, string) { return ids[i].Public, t }) {
			if err == nil {
				ok++
			}
		}
		n := 0
		for _, id := range ids {
			if srv.hasAccount(id.Public.Identity) {
				n++
			}
		}
		r.Count("token_races", 1)
		r.Case(fmt.Sprintf("token-race-%d", k))
		if ok != 1 || n != 1 {
			r.Violate("token-reused", fmt.Sprintf("8 concurrent requests with one token: %d confirmed, %d accounts", ok, n), nil)
		}
	}
	// different tokens at the same time
	for k := 0; k < r.pick(3, 12) && !r.Failed(); k++ {
		m := map[string]string{}
		var ts []string
		for i := 0; i < 10; i++ {
			t := newToken(rg)
			m[t] = inHours(2)
			ts = append(ts, t)
		}
		srv.issue(m)
		parallel(10, 10, func(i int) {
			try(r, srv, newID("many").Public, ts[i], true, "concurrent requests with different valid tokens")
		})
		parallel(10, 10, func(i int) {
			try(r, srv, newID("many").Public, ts[i], false, "token used before")
		})
	}
	// a token that is wasted on an identity that cannot be created
	stranger(r, srv, newID("stranger"), "server with tokens")
	// what was used stays used, what was not stays valid, over a restart
	used := t
	srv.Stop()
	srv.MustStart()
	try(r, srv, newID("re").Public, used, false, "token used before the restart")
	for _, t := range keep {
		if exp, _ := strconv.ParseInt(toks[t], 10, 64); exp < time.Now().Unix()+20 {
			continue
		}
		try(r, srv, newID("re").Public, t, true, "token issued before the restart")
	}
}

// p18kill kills the server while and after it creates accounts.
func p18kill(r *Report) {
	rg := sub(r.Seed, "createkill")
	parallel(2, 2, func(half int) {
		rg := sub(r.Seed, "createkill", half)
		srv := newSrv(r, map[string]string{"createpolicy": "token"})
		srv.slowDisk(8 * time.Millisecond)
		for k := 0; k < r.pick(12, 80) && !r.Failed(); k++ {
			t := newToken(rg)
			srv.issue(map[string]string{t: inHours(3)})
			srv.MustStart()
			ids := manyIDs(2, "kill")
			done := make(chan error, 1)
			go func() { done <- srv.Create(ids[0].Public, t) }()
			var err error = errors.New("killed first")
			if k%4 == 0 { // at the very moment of the answer
				err = <-done
				srv.Kill()
			} else {
				time.Sleep(time.Duration(10+(k*41+half*19+rg.Intn(20))%280) * time.Millisecond)
				srv.Kill()
				err = <-done
			}
			r.Count("creation_kills", 1)
			if err == nil {
				r.Count("kill_after_answer", 1)
			}
			r.Case(fmt.Sprintf("creation-kill-%d-%d", half, k))
			srv.MustStart()
			first := srv.hasAccount(ids[0].Public.Identity)
			if err == nil && !first {
				r.Violate("created-lost", "a confirmed account is gone after the server was killed", nil)
			}
			if first && err != nil {
				r.Count("kill_created_unanswered", 1)
			}
			err2 := srv.Create(ids[1].Public, t)
			if err2 == nil {
				r.Count("kill_before_token", 1)
			}
			second := srv.hasAccount(ids[1].Public.Identity)
			if err == nil && (err2 == nil || second) {
				r.Violate("token-reused-after-kill", "a token that was used works again after the server was killed", nil)
			}
			if first && second {
				r.Violate("token-reused-after-kill", "one token created two accounts around a kill of the server", nil)
			}
			// all or nothing: what exists works
			for i, has := range []bool{first, second} {
				if !has {
					continue
				}
				ok := make(chan bool, 8)
				b, _, err := srv.LoginLive(ids[i], func(p push) bool { ok <- true; return true }, 30*time.Second)
				if err != nil {
					r.Violate("half-created", "an account that was created while the server was killed cannot log in: "+err.Error(), nil)
					continue
				}
				if err := b.Cache(ids[i].Public.Identity, mkMail(1, 1, 1, 1)); err != nil {
					r.Violate("half-created", "an account that was created while the server was killed cannot receive mail: "+err.Error(), nil)
				}
				b.Close()
			}
			if !first && err2 != nil {
				// not created, and the token was spent: with a new
				// token the same identity must work
				r.Count("interrupted", 1)
			}
			srv.Kill()
			if !first {
				t2 := newToken(rg)
				srv.issue(map[string]string{t2: inHours(3)})
				srv.MustStart()
				if err := srv.Create(ids[0].Public, t2); err != nil {
					r.Violate("half-created", "after an interrupted creation the identity can not be created: "+err.Error(), nil)
				}
				srv.Kill()
			}
		}
	})
	_ = rg
}

// ---- P19

func p19(r *Report) {
	r.Rule = "a case is one disabling or enabling of an account of a real server in some state of its sessions, or one malformed administration request; non-trivial when the account's sessions, logins and mail were observed afterwards"
	r.Need("disabled", 20)
	r.Need("enabled", 20)
	r.Need("mail_refused", 20)
	r.Need("bad_requests", 15)
	parallel(r.pick(2, 8), 2, func(c int) {
		srv := newSrv(r, map[string]string{"directory": []string{"no", "yes"}[c%2]})
		srv.MustStart()
		defer srv.Stop()
		w := newWorld(r, srv, fmt.Sprintf("disabling %d", c), 8)
		w.maxWait = 40 * time.Second
		// users 0-3 are canaries that trade mail, 4-7 are disabled and enabled
		canary := &World{r: r, srv: srv, m: w.m, Users: w.Users[:4], seed: r.Seed, tag: "canary", maxWait: w.maxWait}
		for _, u := range canary.Users {
			u.w = canary
		}
		var wg sync.WaitGroup
		for _, u := range canary.Users {
			u := u
			wg.Add(1)
			go func() { defer wg.Done(); u.run(sub(r.Seed, "p19", c, u.i), 0) }()
		}
		parallel(4, 4, func(i int) {
			u := w.Users[4+i]
			for k := 0; k < r.pick(5, 40) && !r.Failed(); k++ {
				p19cycle(r, w, u, k, sub(r.Seed, "cycle", c, i, k))
				r.Case(fmt.Sprintf("cycle-%d-%d-%d", c, i, k))
			}
		})
		p19bad(r, w)
		// over a restart
		if !r.Failed() {
			u := w.Users[5]
			id := u.ID.Public.Identity
			if e, err := srv.Disable(id); e != "" || err != nil {
				r.Violate("disable-failed", fmt.Sprint(e, err), nil)
			}
			srv.Stop()
			srv.MustStart()
			if b, err := srv.Login(u.ID, nil); !errors.Is(err, errUnwelcome) {
				r.Violate("disabled-login", fmt.Sprintf("after a restart the disabled account's login ends with %v", err), nil)
				if b != nil {
					b.Close()
				}
			}
			if e, err := srv.Enable(id); e != "" || err != nil {
				r.Violate("enable-failed", fmt.Sprint(e, err), nil)
			}
		}
		atomic.StoreInt32(&canary.stop, 1)
		wg.Wait()
		for _, u := range canary.Users {
			u.w = w
		}
		w.Drain()
		w.CloseAll()
	})
}

func p19cycle(r *Report, w *World, u *User, k int, rg *rand.Rand) {
	srv := w.srv
	id := u.ID.Public.Identity
	if _, err := u.login(); err != nil {
		w.m.violate("cannot-login", "user %d: %v", u.i, err)
		return
	}
	atomic.StoreInt32(&u.hold, int32(k%2))
	was := u.b
	// mail from a helper session of its own account partner
	helper := w.Users[4+(u.i-4+1)%4]
	_ = helper
	storm := k%5 == 4
	var swg sync.WaitGroup
	var sbots []*Bot
	var smu sync.Mutex
	stormStop := int32(0)
	if storm {
		for i := 0; i < 6; i++ {
			swg.Add(1)
			go func() {
				defer swg.Done()
				for atomic.LoadInt32(&stormStop) == 0 {
					s := w.m.session(u.i)
					b, err := srv.Login(u.ID, u.onPush(s, nil))
					if err == nil {
						smu.Lock()
						sbots = append(sbots, b)
						smu.Unlock()
					} else {
						time.Sleep(5 * time.Millisecond)
					}
				}
			}()
		}
		time.Sleep(time.Duration(30+rg.Intn(100)) * time.Millisecond)
	}
	spell := hex.EncodeToString(id[:])
	if k%3 == 1 {
		spell = strings.ToUpper(spell)
	}
	e, err := srv.Admin("userdisable", spell)
	if e != "" || err != nil {
		w.m.violate("disable-failed", "user %d: %q %v", u.i, e, err)
		return
	}
	r.Count("disabled", 1)
	if storm {
		time.Sleep(300 * time.Millisecond)
		atomic.StoreInt32(&stormStop, 1)
		swg.Wait()
		sbots = append(sbots, was)
		end := time.Now().Add(10 * time.Second)
		for _, b := range sbots {
			select {
			case <-b.closed:
			case <-time.After(time.Until(end)):
				w.m.violate("disabled-session-lives", "user %d has a live session 10 s after its account was disabled (while it was logging in)", u.i)
			}
			b.Close()
		}
	} else {
		select {
		case <-was.closed:
		case <-time.After(10 * time.Second):
			w.m.violate("disabled-session-lives", "user %d has a live session 10 s after its account was disabled (identity spelled %s)", u.i, spell)
		}
		was.Close()
	}
	if srv.hasAccount(id) || !srv.hasDisabled(id) {
		w.m.violate("not-disabled", "user %d is not disabled on disk after it was confirmed", u.i)
	}
	if b, err := srv.Login(u.ID, nil); err == nil {
		if b.Ping(5*time.Second) == nil {
			w.m.violate("disabled-login", "the disabled user %d can log in", u.i)
		} else {
			w.m.violate("disabled-login", "the disabled user %d is welcomed", u.i)
		}
		b.Close()
	} else if !errors.Is(err, errUnwelcome) {
		w.m.violate("disabled-untold", "the disabled user %d is not told so: %v", u.i, err)
	}
	if e, err := srv.Disable(id); err == nil && e == "" {
		w.m.violate("disable-twice", "disabling user %d twice is confirmed", u.i)
	}
	// mail to it is refused, with the reason for encrypted mail
	sender := newSender(w, u.i)
	if sender == nil {
		return
	}
	for i := 0; i < 4; i++ {
		sender.seq++
		key := mailKey{sender.i, u.i, sender.seq}
		w.m.offer(key, 10)
		p := mkMail(sender.i, u.i, sender.seq, 10)
		var err error
		if sender.seq%3 == 0 {
			err = sender.b.Proxy(id, p)
		} else {
			err = sender.b.Cache(id, p)
			if errors.Is(err, errNack) && !strings.Contains(err.Error(), fmt.Sprintf("(code %d)", rpc.ErrorCodeUserDisabled)) {
				w.m.violate("disabled-untold", "mail to the disabled user %d is refused without the reason: %v", u.i, err)
			}
		}
		w.m.delivered(key, 10, err)
		if err == nil {
			w.m.violate("disabled-accepts", "mail to the disabled user %d is accepted", u.i)
		} else if !errors.Is(err, errNack) {
			w.m.violate("no-reply", "mail to the disabled user %d: %v", u.i, err)
		}
		r.Count("mail_refused", 1)
	}
	sender.b.Close()
	spell = hex.EncodeToString(id[:])
	if k%3 == 2 {
		spell = strings.ToUpper(spell)
	}
	if e, err := srv.Admin("userenable", spell); e != "" || err != nil {
		w.m.violate("enable-failed", "user %d: %q %v", u.i, e, err)
		return
	}
	r.Count("enabled", 1)
	if e, err := srv.Enable(id); err == nil && e == "" {
		w.m.violate("enable-twice", "enabling user %d twice is confirmed", u.i)
	}
	atomic.StoreInt32(&u.hold, 0)
	if _, err := u.login(); err != nil {
		w.m.violate("enabled-shut-out", "user %d cannot log in after it was enabled again: %v", u.i, err)
		return
	}
	// it gets its mail
	if !waitFor(30*time.Second, func() bool {
		u.sync()
		return w.m.unackedExcept(u.i) == 0 || u.b.isClosed()
	}) {
		w.m.violate("stuck", "user %d is not handed its stored mail after it was enabled again", u.i)
	}
	// and new mail
	if s := newSender(w, u.i); s != nil {
		s.seq++
		if s.seq%3 == 0 {
			s.seq++
		}
		key := mailKey{s.i, u.i, s.seq}
		w.m.offer(key, 5)
		err := s.b.Cache(id, mkMail(s.i, u.i, s.seq, 5))
		w.m.delivered(key, 5, err)
		if err != nil {
			w.m.violate("enabled-refused", "mail to user %d is refused after it was enabled again: %v", u.i, err)
		}
		s.b.Close()
	}
}

// unackedExcept counts stored mail for a user.
func (m *mailbox) unackedExcept(to int) int { return m.unacked(to) }

var senders sync.Map // world -> []*User, one sender per disabled user

// newSender logs in the sender that belongs to a user under test.
func newSender(w *World, i int) *User {
	type key struct {
		w *World
		i int
	}
	v, ok := senders.Load(key{w, i})
	if !ok {
		w.m.mu.Lock()
		n := len(w.Users)
		u := &User{w: w, i: n, ID: newID(fmt.Sprintf("sender%d", i))}
		w.Users = append(w.Users, u)
		w.m.mu.Unlock()
		if err := w.srv.Create(u.ID.Public, ""); err != nil {
			w.r.Violate("create-failed", err.Error(), nil)
			return nil
		}
		v = u
		senders.Store(key{w, i}, v)
	}
	u := v.(*User)
	if _, err := u.login(); err != nil {
		w.m.violate("cannot-login", "sender %d: %v", u.i, err)
		return nil
	}
	return u
}

func p19bad(r *Report, w *World) {
	if r.Failed() {
		return
	}
	srv := w.srv
	id := w.Users[0].ID.Public.Identity
	hx := hex.EncodeToString(id[:])
	before := homeEntries(srv)
	for i, s := range []string{"", "zz", hx[:62], hx[:63], hx + "00", hx + hx, " " + hx, "../" + hx, "." + hx, strings.Repeat("0", 64), strings.Repeat("ff", 32), "\x00", strings.Repeat("a", 100000)} {
		for _, c := range []string{"userdisable", "userenable"} {
			e, err := srv.Admin(c, s)
			r.Count("bad_requests", 1)
			r.Case(fmt.Sprintf("bad-%d-%s", i, c))
			if err != nil {
				if !srv.Alive() {
					time.Sleep(500 * time.Millisecond)
				}
				w.m.violate("bad-request-unanswered", "%s of a malformed or unknown identity (%d characters) is not answered: %v", c, len(s), err)
				return
			}
			if e == "" {
				w.m.violate("bad-request-confirmed", "%s of %q is confirmed", c, trim(s, 80))
			}
		}
	}
	// malformed conversations on the administration socket
	for i, s := range []string{"", "{", "[]", "null", `{"version":2,"command":"userdisable"}`, `{"version":1,"command":"nonsense"}{"identity":""}`, `{"version":1,"command":"userdisable"}{"identity":5}`, `{"version":1,"command":"userdisable"}`, strings.Repeat("[", 100000)} {
		c, err := net.Dial("unix", filepath.Join(srv.Root, ".socket"))
		if err != nil {
			w.m.violate("admin-unreachable", "%v", err)
			return
		}
		c.SetDeadline(time.Now().Add(200 * time.Millisecond))
		c.Write([]byte(s))
		buf := make([]byte, 1000)
		c.Read(buf)
		c.Close()
		r.Count("bad_requests", 1)
		r.Case(fmt.Sprintf("badsock-%d", i))
	}
	if e, err := srv.Admin("userdisable", strings.Repeat("0", 64)); err != nil || e == "" {
		w.m.violate("admin-broken", "after malformed requests the administration socket answers %q, %v", e, err)
	}
	if now := homeEntries(srv); now != before {
		w.m.violate("bad-request-effect", "malformed administration requests changed the accounts from %s to %s", before, now)
	}
}

// ---- P20

func p20(r *Report) {
	r.Rule = "a case is one rendezvous blob pushed to a real server and pulled back by others, or one refused push or pull; non-trivial when the blob was pulled again after concurrent pushes and a restart or kill"
	r.Need("pushed", 150)
	r.Need("pulled", 500)
	r.Need("unknown_pulled", 20)
	r.Need("push_kills", 3)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); p20kill(r) }()
	go func() { defer wg.Done(); p20full(r) }()
	parallel(r.pick(2, 6), 2, func(c int) {
		srv := newSrv(r, nil)
		srv.MustStart()
		defer srv.Stop()
		ids := manyIDs(6, "rz")
		for _, id := range ids {
			if err := srv.Create(id.Public, ""); err != nil {
				r.Violate("create-failed", err.Error(), nil)
			}
		}
		var mu sync.Mutex
		blobs := map[string][]byte{}
		for round := 0; round < r.pick(3, 12) && !r.Failed(); round++ {
			bots := make([]*Bot, len(ids))
			parallel(len(ids), len(ids), func(i int) {
				b, _, err := srv.LoginLive(ids[i], nil, 30*time.Second)
				if err != nil {
					r.Violate("cannot-login", err.Error(), nil)
					return
				}
				bots[i] = b
			})
			if r.Failed() {
				return
			}
			// pushes and pulls at the same time
			parallel(len(bots)*2, len(bots)*2, func(j int) {
				i := j / 2
				rg := sub(r.Seed, "rz", c, round, j)
				for k := 0; k < 8 && !r.Failed(); k++ {
					if j%2 == 1 {
						mu.Lock()
						var ts []string
						for t := range blobs {
							ts = append(ts, t)
						}
						var t string
						var want []byte
						if len(ts) > 0 {
							t = ts[rg.Intn(len(ts))]
							want = blobs[t]
						}
						mu.Unlock()
						if want != nil {
							pullCheck(r, bots[i], t, want, "while others push")
						}
						continue
					}
					blob := randBytes(rg, []int{1, 2, 3, 100, 1000, 4095, 4096, rg.Intn(4096) + 1}[rg.Intn(8)])
					if rg.Intn(10) == 0 {
						blob = bytes.Repeat([]byte("\n[x]\n=\r;#\x00"), 1+rg.Intn(300))
						blob = blob[:min(len(blob), 4096)]
					}
					tok, err := rzPush(bots[i], blob, []string{"1", "24", "167", "168"}[rg.Intn(4)])
					if err != nil {
						r.Violate("push-refused", fmt.Sprintf("a blob of %d bytes is refused: %v", len(blob), err), nil)
						return
					}
					r.Count("pushed", 1)
					mu.Lock()
					if _, ok := blobs[tok]; ok {
						r.Violate("token-reused", "token "+tok+" of a live blob was given to another one", nil)
					}
					blobs[tok] = blob
					mu.Unlock()
					pullCheck(r, bots[i], tok, blob, "right after the push")
					r.Case(fmt.Sprintf("blob-%d-%d-%d-%d", c, round, j, k))
				}
			})
			// what must be refused
			rg := sub(r.Seed, "rzbad", c, round)
			for _, e := range []string{"", "-1", "169", "x", "1.5", "18446744073709551616", "24 ", " 24", "1000000"} {
				if tok, err := rzPush(bots[0], []byte("x"), e); err == nil {
					r.Violate("bad-expiration-accepted", fmt.Sprintf("expiration %q accepted, token %s", e, tok), nil)
				}
			}
			for _, n := range []int{4097, 5000, 100000} {
				if _, err := rzPush(bots[0], randBytes(rg, n), "24"); err == nil {
					r.Violate("big-blob-accepted", fmt.Sprintf("blob of %d bytes accepted", n), nil)
				}
			}
			if round%2 == 0 {
				srv.Stop()
			} else {
				srv.Kill()
			}
			srv.MustStart()
			b, _, err := srv.LoginLive(ids[1], nil, 30*time.Second)
			if err != nil {
				r.Violate("cannot-login", err.Error(), nil)
				return
			}
			for t, want := range blobs {
				pullCheck(r, b, t, want, "after a restart")
			}
			for i := 0; i < 15; i++ {
				t := strconv.Itoa(rg.Intn(1000000))
				var live string
				for live = range blobs {
					break
				}
				t = []string{t, "", "x", live + "0", "0" + live, " " + live, live + " ", "-" + live, "+" + live, "[" + live + "]", live + "\n"}[i%11]
				if _, ok := blobs[t]; ok {
					continue
				}
				rp, err := rzPull(b, t)
				if err != nil {
					r.Violate("pull-unanswered", err.Error(), nil)
					return
				}
				r.Count("unknown_pulled", 1)
				if rp.Error == "" {
					r.Violate("unknown-token-answered", fmt.Sprintf("unknown token %q yields a blob of %d bytes", t, len(rp.Blob)), nil)
				}
			}
			b.Close()
		}
		if c == 0 {
			r.Sample(map[string]any{"live_blobs": len(blobs)})
		}
	})
	wg.Wait()
}

func rzPush(b *Bot, blob []byte, exp string) (string, error) {
	rp, err := b.request(rpc.TaggedCmdRendezvous, rpc.Rendezvous{Blob: blob, Expiration: exp}, 60*time.Second)
	if err != nil {
		return "", err
	}
	if rp.cmd != rpc.TaggedCmdRendezvousReply {
		return "", fmt.Errorf("answered with %s", rp.cmd)
	}
	var x rpc.RendezvousReply
	if _, err := xdr.Unmarshal(bytes.NewReader(rp.payload), &x); err != nil {
		return "", err
	}
	if x.Error != "" {
		return "", fmt.Errorf("%w: %s", errNack, x.Error)
	}
	if x.Token == "" {
		return "", errors.New("no token")
	}
	return x.Token, nil
}

func rzPull(b *Bot, tok string) (x rpc.RendezvousPullReply, err error) {
	rp, err := b.request(rpc.TaggedCmdRendezvousPull, rpc.RendezvousPull{Token: tok}, 60*time.Second)
	if err != nil {
		return x, err
	}
	if rp.cmd != rpc.TaggedCmdRendezvousPullReply {
		return x, fmt.Errorf("answered with %s", rp.cmd)
	}
	_, err = xdr.Unmarshal(bytes.NewReader(rp.payload), &x)
	return x, err
}

func pullCheck(r *Report, b *Bot, tok string, want []byte, when string) {
	x, err := rzPull(b, tok)
	if err != nil {
		r.Violate("pull-unanswered", fmt.Sprintf("pulling token %s %s: %v", tok, when, err), nil)
		return
	}
	r.Count("pulled", 1)
	switch {
	case x.Error != "":
		r.Violate("blob-lost", fmt.Sprintf("token %s %s: %s", tok, when, x.Error), nil)
	case x.Token != tok || !bytes.Equal(x.Blob, want):
		r.Violate("blob-changed", fmt.Sprintf("token %s %s yields %d bytes for token %s, pushed were %d", tok, when, len(x.Blob), x.Token, len(want)), nil)
	}
}

// p20kill kills the server the moment it has handed out a token.
// p20full has a server of which half of all possible tokens are taken: new
// blobs must get other tokens and those that are taken keep their blob.
func p20full(r *Report) {
	srv := newSrv(r, nil)
	srv.MustStart()
	ids := manyIDs(2, "rzf")
	for _, id := range ids {
		if err := srv.Create(id.Public, ""); err != nil {
			r.Violate("create-failed", err.Error(), nil)
		}
	}
	b, _, err := srv.LoginLive(ids[0], nil, 60*time.Second)
	if err != nil {
		r.Violate("cannot-login", err.Error(), nil)
		return
	}
	filler := []byte("filler")
	tok, err := rzPush(b, filler, "24")
	if err != nil {
		r.Violate("push-refused", err.Error(), nil)
		return
	}
	b.Close()
	srv.Stop()
	// find the record in the files of the server and multiply it
	found := false
	taken := func(i int) bool { return i%2 == 0 }
	filepath.Walk(srv.Root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() {
			return nil
		}
		d, err := os.ReadFile(p)
		if err != nil || found {
			return nil
		}
		for _, l := range strings.Split(string(d), "\n") {
			if v, ok := strings.CutPrefix(l, tok+" = "); ok {
				found = true
				var o strings.Builder
				for i := 0; i < 1000000; i++ {
					if taken(i) || strconv.Itoa(i) == tok {
						fmt.Fprintf(&o, "%d = %s\n", i, v)
					}
				}
				must(os.WriteFile(p, []byte(o.String()), 0600))
			}
		}
		return nil
	})
	if !found { // stored in some other form
		return
	}
	srv.MustStart()
	defer srv.Stop()
	b, _, err = srv.LoginLive(ids[1], nil, 60*time.Second)
	if err != nil {
		r.Violate("cannot-login", err.Error(), nil)
		return
	}
	rg := sub(r.Seed, "rzfull")
	for k := 0; k < r.pick(8, 30) && !r.Failed(); k++ {
		old := strconv.Itoa(rg.Intn(500000) * 2)
		pullCheck(r, b, old, filler, "with many tokens taken")
		blob := randBytes(rg, 1+rg.Intn(4096))
		t, err := rzPush(b, blob, "24")
		if err != nil {
			r.Violate("push-refused", "with half of the tokens taken: "+err.Error(), nil)
			return
		}
		r.Count("crowded_pushes", 1)
		r.Case(fmt.Sprintf("crowded-%d", k))
		if n, err := strconv.Atoi(t); err == nil && n < 1000000 && (taken(n) || t == tok) {
			r.Violate("token-reused", "token "+t+" of a live blob was given to another one", nil)
		}
		pullCheck(r, b, t, blob, "with many tokens taken")
	}
	b.Close()
}

func p20kill(r *Report) {
	srv := newSrv(r, nil)
	srv.slowDisk(20 * time.Millisecond)
	srv.MustStart()
	ids := manyIDs(2, "rzk")
	for _, id := range ids {
		if err := srv.Create(id.Public, ""); err != nil {
			r.Violate("create-failed", err.Error(), nil)
		}
	}
	all := map[string][]byte{}
	for k := 0; k < r.pick(4, 20) && !r.Failed(); k++ {
		b, _, err := srv.LoginLive(ids[0], nil, 60*time.Second)
		if err != nil {
			r.Violate("cannot-login", err.Error(), nil)
			return
		}
		blob := randBytes(sub(r.Seed, "rzk", k), 500)
		tok, err := rzPush(b, blob, "24")
		srv.Kill()
		if err != nil {
			r.Violate("push-refused", err.Error(), nil)
			return
		}
		all[tok] = blob
		r.Count("push_kills", 1)
		r.Case(fmt.Sprintf("push-kill-%d", k))
		srv.MustStart()
		b, _, err = srv.LoginLive(ids[1], nil, 60*time.Second)
		if err != nil {
			r.Violate("cannot-login", err.Error(), nil)
			return
		}
		for t, bl := range all {
			pullCheck(r, b, t, bl, "after the server was killed when it had answered")
		}
		b.Close()
	}
	srv.Kill()
}

// ---- P21

func props(w rpc.Welcome) map[string]string {
	m := map[string]string{}
	for _, p := range w.Properties {
		m[p.Key] = p.Value
	}
	return m
}

func p21(r *Report) {
	r.Rule = "a case is one server configuration and what clients of that server experience, one invalid configuration, or one directory lookup; non-trivial when the server was started with it"
	r.Need("configurations", 8)
	r.Need("invalid_configurations", 12)
	r.Need("lookups", 40)
	type cf struct {
		identify, directory, motd string
		att, chunk, msg           int
	}
	cfs := []cf{
		{"yes", "yes", "hello\nworld", 1 << 20, 1000, 5000},
		{"no", "no", "", 0, 0, 0},
		{"yes", "no", "x", 104857600, 262144, 263168},
		{"no", "yes", "", 7, 300000, 400000},
		{"YES", "NO", "a", 0, 0, 300000},
		{"no", "Yes", "motd with \xff bytes", 0, 50000, 50001},
		{"yes", "yes", strings.Repeat("long ", 500), 0, 2000, 0},
		{"no", "no", "z", 18, 1 << 20, 1<<20 + 1024},
	}
	n := r.pick(len(cfs), len(cfs)*4)
	parallel(n, 4, func(i int) {
		c := cfs[i%len(cfs)]
		if i >= len(cfs) {
			rg := sub(r.Seed, "cfg", i)
			c = cf{[]string{"yes", "no"}[rg.Intn(2)], []string{"yes", "no"}[rg.Intn(2)], strings.Repeat("m", rg.Intn(2000)), rg.Intn(1 << 30), 500 + rg.Intn(1<<20), 0}
			c.msg = c.chunk + 1500 + rg.Intn(5000)
			if c.msg < 6000 {
				c.msg = 6000
			}
		}
		p21server(r, i, c.identify, c.directory, c.motd, c.att, c.chunk, c.msg)
	})
	p21invalid(r)
}

func p21server(r *Report, ci int, identify, directory, motd string, att, chunk, msg int) {
	opts := map[string]string{"allowidentify": identify, "directory": directory}
	wantAtt, wantChunk, wantMsg := rpc.PropMaxAttachmentSizeDefault, rpc.PropMaxChunkSizeDefault, rpc.PropMaxMsgSizeDefault
	if att > 0 {
		opts["maxattachmentsize"] = strconv.Itoa(att)
		wantAtt = uint64(att)
	}
	if chunk > 0 {
		opts["maxchunksize"] = strconv.Itoa(chunk)
		wantChunk = uint64(chunk)
	}
	if msg > 0 {
		opts["maxmsgsize"] = strconv.Itoa(msg)
		wantMsg = uint64(msg)
	}
	desc := fmt.Sprintf("configuration %d: %v", ci, opts)
	srv := newSrv(r, opts)
	must(os.MkdirAll(srv.Root, 0700))
	if motd != "" {
		must(os.WriteFile(filepath.Join(srv.Root, "motd.txt"), []byte(motd), 0600))
	}
	if err := srv.Start(); err != nil {
		r.Violate("valid-config-refused", desc+": "+err.Error(), nil)
		return
	}
	defer srv.Stop()
	r.Count("configurations", 1)
	r.Case(desc)
	yes := func(s string) bool { return strings.ToLower(s) == "yes" }
	pid, err := srv.Identify()
	if (err == nil) != yes(identify) {
		r.Violate("identify-policy", fmt.Sprintf("%s: asking for the identity ends with %v", desc, err), nil)
	}
	if err == nil && *pid != *srv.PubID() {
		r.Violate("identify-wrong", desc+": the server shows another identity than its own", nil)
	}
	ids := manyIDs(6, fmt.Sprintf("dir%d-", ci))
	for _, id := range ids {
		if err := srv.Create(id.Public, ""); err != nil {
			r.Violate("create-failed", desc+": "+err.Error(), nil)
			return
		}
	}
	// the first three log in, which publishes them
	var bots []*Bot
	for i := 0; i < 3; i++ {
		b, _, err := srv.LoginLive(ids[i], func(p push) bool { return true }, 30*time.Second)
		if err != nil {
			r.Violate("cannot-login", desc+": "+err.Error(), nil)
			return
		}
		bots = append(bots, b)
		defer b.Close()
		p := props(b.Welcome)
		want := map[string]string{
			rpc.PropTagDepth:          "32",
			rpc.PropMaxAttachmentSize: fmt.Sprint(wantAtt),
			rpc.PropMaxChunkSize:      fmt.Sprint(wantChunk),
			rpc.PropMaxMsgSize:        fmt.Sprint(wantMsg),
			rpc.PropMOTD:              motd,
			rpc.PropDirectory:         fmt.Sprint(yes(directory)),
		}
		if b.Welcome.Version != rpc.ProtocolVersion {
			r.Violate("welcome-version", desc, nil)
		}
		for k, v := range want {
			got, ok := p[k]
			if !ok || got != v {
				r.Violate("welcome-"+k, fmt.Sprintf("%s: the welcome says %s=%q, configured is %q", desc, k, trim(got, 60), trim(v, 60)), nil)
			}
		}
		ts, err := strconv.ParseInt(p[rpc.PropServerTime], 10, 64)
		if d := time.Now().Unix() - ts; err != nil || d < -2 || d > 60 {
			r.Violate("welcome-servertime", fmt.Sprintf("%s: server time %q", desc, p[rpc.PropServerTime]), nil)
		}
		if i == 0 { // the message of the day is read anew for each login
			motd = "changed " + strconv.Itoa(ci)
			must(os.WriteFile(filepath.Join(srv.Root, "motd.txt"), []byte(motd), 0600))
		}
		if i == 1 {
			motd = ""
			os.Remove(filepath.Join(srv.Root, "motd.txt"))
		}
	}
	// directory
	find := func(nick string, want *zkidentity.PublicIdentity) {
		rp, err := bots[0].request(rpc.TaggedCmdIdentityFind, rpc.IdentityFind{Nick: nick}, 60*time.Second)
		if err != nil {
			r.Violate("find-unanswered", fmt.Sprintf("%s: %v", desc, err), nil)
			return
		}
		r.Count("lookups", 1)
		r.Case(desc + "/" + nick)
		var x rpc.IdentityFindReply
		if _, err := xdr.Unmarshal(bytes.NewReader(rp.payload), &x); err != nil || rp.cmd != rpc.TaggedCmdIdentityFindReply {
			r.Violate("find-answer", fmt.Sprintf("%s: %s %v", desc, rp.cmd, err), nil)
			return
		}
		if x.Nick != nick {
			r.Violate("find-nick", fmt.Sprintf("%s: asked for %q, answered for %q", desc, nick, x.Nick), nil)
		}
		switch {
		case want == nil && x.Error == "":
			r.Violate("find-unlisted", fmt.Sprintf("%s: %q is shown, although not published or the directory is off", desc, nick), nil)
		case want != nil && x.Error != "":
			r.Violate("find-missing", fmt.Sprintf("%s: %q published itself and is not found: %s", desc, nick, x.Error), nil)
		case want != nil && x.Identity != *want:
			r.Violate("find-altered", fmt.Sprintf("%s: the entry of %q is not what the user published", desc, nick), nil)
		}
	}
	lookups := func() {
		for i, id := range ids {
			var want *zkidentity.PublicIdentity
			if yes(directory) && i < 3 {
				want = &id.Public
			}
			find(id.Public.Nick, want)
		}
		for _, nick := range []string{"", "nobody", ids[0].Public.Nick + " ", ids[0].Public.Nick[:3], strings.ToUpper(ids[0].Public.Nick), ids[0].Public.Name, "*", "..", "\x00"} {
			find(nick, nil)
		}
	}
	lookups()
	if yes(directory) {
		// a taken nick cannot be registered by someone else
		thief := newID(ids[0].Public.Nick)
		if err := srv.Create(thief.Public, ""); err == nil {
			r.Violate("nick-taken-twice", desc+": a listed nick was registered by someone else", nil)
		}
		// an account that is broken hides nobody
		must(os.MkdirAll(filepath.Join(srv.Root, "home", "0000stray"), 0700))
		must(os.MkdirAll(filepath.Join(srv.Root, "home", strings.Repeat("00", 32)), 0700))
		lookups()
	}
	// the announced maximum is the real one
	over := len(encMsg(rpc.Message{Command: rpc.TaggedCmdCache}, rpc.Cache{})) + 16
	for _, d := range []int{64, 16} {
		size := int(wantMsg) - over - d
		if err := bots[1].Cache(ids[4].Public.Identity, make([]byte, size)); err != nil {
			r.Violate("max-too-small", fmt.Sprintf("%s: a message that fits the announced maximum by %d bytes is refused: %v", desc, d, err), nil)
			return
		}
	}
	if err := bots[1].Cache(ids[4].Public.Identity, make([]byte, int(wantMsg)-over+8)); err == nil {
		r.Violate("max-not-kept", desc+": a message larger than the announced maximum is accepted", nil)
	}
	// a restart changes nothing
	srv.Stop()
	if err := srv.Start(); err != nil {
		r.Violate("valid-config-refused", desc+", second start: "+err.Error(), nil)
		return
	}
	b, _, err := srv.LoginLive(ids[0], func(p push) bool { return true }, 30*time.Second)
	if err != nil {
		r.Violate("cannot-login", desc+", after a restart: "+err.Error(), nil)
		return
	}
	bots[0].Close()
	bots[0] = b
	if pid != nil {
		if p2, err := srv.Identify(); err != nil || *p2 != *pid {
			r.Violate("identity-changed", desc+": another identity after a restart", nil)
		}
	}
	lookups()
	b.Close()
	if ci == 0 {
		r.Sample(map[string]any{"welcome": props(b.Welcome)})
	}
}

func p21invalid(r *Report) {
	bad := []map[string]string{
		{"allowidentify": "maybe"}, {"allowidentify": ""}, {"allowidentify": "1"}, {"directory": "true"}, {"directory": "yes no"},
		{"createpolicy": "maybe"}, {"createpolicy": ""}, {"createpolicy": "Yes please"},
		{"maxattachmentsize": "-1"}, {"maxattachmentsize": "10MB"}, {"maxchunksize": "x"}, {"maxchunksize": "1.5"},
		{"maxchunksize": "99999999999999999999999"}, {"maxmsgsize": "big"}, {"maxmsgsize": "-5"}, {"maxmsgsize": ""},
		{"maxchunksize": "5000", "maxmsgsize": "5000"}, {"maxchunksize": "5000", "maxmsgsize": "4999"},
		{"debug": "loud"}, {"trace": "2"}, {"debug": ""},
	}
	parallel(len(bad), 4, func(i int) {
		srv := newSrv(r, bad[i])
		srv.writeCfg()
		c := exec.Command(binPath("zkserver"), "-cfg", srv.cfg)
		c.Env = append(os.Environ(), "HOME="+filepath.Dir(srv.cfg))
		var out bytes.Buffer
		c.Stdout, c.Stderr = &out, &out
		must(c.Start())
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		r.Count("invalid_configurations", 1)
		r.Case(fmt.Sprintf("invalid %v", bad[i]))
		select {
		case err := <-done:
			if err == nil || strings.TrimSpace(out.String()) == "" {
				r.Violate("invalid-unreported", fmt.Sprintf("the server ends with %v and says %q for the invalid setting %v", err, out.String(), bad[i]), nil)
			}
			if strings.Contains(out.String(), "goroutine ") {
				r.Violate("invalid-panics", fmt.Sprintf("the server panics on %v", bad[i]), nil)
			}
		case <-time.After(15 * time.Second):
			c.Process.Kill()
			<-done
			r.Violate("invalid-accepted", fmt.Sprintf("the server starts with the invalid setting %v", bad[i]), nil)
		}
	})
}

// ---- P22

func p22(r *Report) {
	r.Rule = "a case is one phase of mixed load on a server built with the race detector; non-trivial when all kinds of operations were carried out at the same time"
	for k, n := range map[string]int{"accepted": 300, "sessions": 60, "pushed": 30, "created": 20, "disabled": 8, "lookups": 50, "hostile": 20} {
		r.Need(k, n)
	}
	parallel(r.pick(2, 4), 2, func(c int) {
		srv := newSrv(r, map[string]string{"createpolicy": "token", "directory": "yes", "debug": []string{"no", "yes"}[c%2], "trace": []string{"no", "yes"}[c%2],
			"profiler": fmt.Sprintf("127.0.0.1:%d", freePort())})
		rg := sub(r.Seed, "p22", c)
		toks := map[string]string{}
		var list []string
		for i := 0; i < 400; i++ {
			t := newToken(rg)
			toks[t] = inHours(10)
			list = append(list, t)
		}
		srv.issue(toks)
		srv.MustStart()
		defer srv.Stop()
		w := &World{r: r, srv: srv, m: newMailbox(r, fmt.Sprintf("race world %d", c)), seed: r.Seed, tag: fmt.Sprint("race", c), maxWait: 60 * time.Second}
		ids := manyIDs(7, "race")
		for i, id := range ids {
			w.Users = append(w.Users, &User{w: w, i: i, ID: id})
			if err := srv.Create(id.Public, list[i]); err != nil {
				r.Violate("create-failed", err.Error(), nil)
			}
		}
		var tokNext int32 = 7
		w.m.ident = func(i int) [32]byte {
			if i < 0 || i >= len(w.Users) {
				return [32]byte{}
			}
			return w.Users[i].ID.Public.Identity
		}
		w.dropEvery, w.takeover, w.ackSome = 12, 12, true
		var wg sync.WaitGroup
		run := func(f func()) {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		deadline := time.Now().Add(time.Duration(r.pick(25, 150)) * time.Second)
		on := func() bool { return time.Now().Before(deadline) && !r.Failed() }
		for _, u := range w.Users {
			u := u
			run(func() { u.run(sub(r.Seed, "p22u", c, u.i), 0) })
		}
		for k := 0; k < 2; k++ { // account creation
			k := k
			run(func() {
				for on() {
					i := atomic.AddInt32(&tokNext, 1)
					if int(i) >= len(list) {
						return
					}
					id := newID(fmt.Sprintf("new%d-%d", k, i))
					if srv.Create(id.Public, list[i]) == nil {
						r.Count("created", 1)
					}
					time.Sleep(20 * time.Millisecond)
				}
			})
		}
		extra := manyIDs(6, "extra")
		for _, id := range extra {
			i := atomic.AddInt32(&tokNext, 1)
			if err := srv.Create(id.Public, list[i]); err != nil {
				r.Violate("create-failed", err.Error(), nil)
			}
		}
		for k := 0; k < 3; k++ { // rendezvous and lookups
			k := k
			run(func() {
				rg := sub(r.Seed, "p22rz", c, k)
				for on() {
					b, _, err := srv.LoginLive(extra[k], func(p push) bool { return true }, 60*time.Second)
					if err != nil {
						r.Violate("cannot-login", err.Error(), nil)
						return
					}
					for j := 0; j < 15 && on(); j++ {
						if t, err := rzPush(b, randBytes(rg, 100), "24"); err == nil {
							r.Count("pushed", 1)
							rzPull(b, t)
						}
						b.request(rpc.TaggedCmdIdentityFind, rpc.IdentityFind{Nick: []string{"race1", "nobody", "extra2"}[rg.Intn(3)]}, 60*time.Second)
						r.Count("lookups", 1)
						b.Cache(extra[3+k].Public.Identity, randBytes(rg, 300))
						time.Sleep(time.Duration(rg.Intn(10)) * time.Millisecond)
					}
					if rg.Intn(2) == 0 {
						b.Abort()
					}
					b.Close()
				}
			})
		}
		for k := 0; k < 2; k++ { // disable and enable, while the user logs in and out
			k := k
			run(func() {
				for on() {
					srv.Disable(extra[3+k].Public.Identity)
					time.Sleep(30 * time.Millisecond)
					srv.Enable(extra[3+k].Public.Identity)
					r.Count("disabled", 1)
					time.Sleep(150 * time.Millisecond)
				}
			})
			run(func() {
				for on() {
					if b, err := srv.Login(extra[3+k], func(p push) bool { return true }); err == nil {
						b.Ping(time.Second)
						b.Close()
					}
					time.Sleep(10 * time.Millisecond)
				}
			})
		}
		run(func() { // hostile user
			h := &hostile{r: r, w: w, srv: srv, id: extra[5], rg: sub(r.Seed, "p22h", c)}
			all := append(preAbuses(), postAbuses()...)
			h.rg.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			for i := 0; on(); i++ {
				all[i%len(all)].f(h)
				r.Count("hostile", 1)
			}
		})
		time.Sleep(time.Until(deadline))
		atomic.StoreInt32(&w.stop, 1)
		if !withTimeout(120*time.Second, wg.Wait) {
			r.Violate("deadlock", "two minutes after the load ended, operations are still waiting for the server", nil)
			return
		}
		w.Drain()
		w.CloseAll()
		r.Case(fmt.Sprintf("mixed-load-%d", c))
		if c == 0 {
			r.Sample(w.m.wit())
		}
	})
}
