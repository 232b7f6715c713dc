package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
)

func init() { register("P12", p12) }

func mkPID(i int, nick string) zkidentity.PublicIdentity {
	var p zkidentity.PublicIdentity
	p.Nick = nick
	p.Name = fmt.Sprintf("name %d", i)
	// identities that agree in all but a byte or two, some mostly zeros
	if i%3 != 0 {
		for j := range p.Identity {
			p.Identity[j] = 0x77
		}
	}
	p.Identity[[]int{31, 0, 15, 30, 7, 1, 16, 24}[i%8]] ^= byte(i/8 + 1)
	p.SigKey[0] = byte(i)
	return p
}

func p12(r *Report) {
	r.Rule = "a case is one random history of adds, deletes and lookups; distinct by its operations, non-trivial when a nick collision and a deletion occurred in it"
	r.Need("collisions", 200)
	r.Need("deletions", 200)
	nicks := []string{"a", "a_", "a__", "b", "b_", "", "_", "A", "ä"}
	for c := 0; c < r.pick(400, 6000) && !r.Failed(); c++ {
		rg := sub(r.Seed, "ab", c)
		p12history(r, rg, c, nicks)
	}
	// concurrent: each user owns its identities, nicks collide
	for c := 0; c < r.pick(20, 200) && !r.Failed(); c++ {
		ab := addressbook.New()
		var wg sync.WaitGroup
		finals := make([]map[int]string, 8)
		for u := 0; u < 8; u++ {
			wg.Add(1)
			go func(u int) {
				defer wg.Done()
				rg := sub(r.Seed, "abc", c, u)
				mine := map[int]string{}
				for i := 0; i < 120; i++ {
					k := u*10 + rg.Intn(3)
					switch rg.Intn(4) {
					case 0, 1:
						n, err := ab.Add(mkPID(k, nicks[rg.Intn(3)]))
						if err != nil && !errors.Is(err, addressbook.ErrDuplicateNick) {
							r.Violate("add-failed", err.Error(), nil)
						}
						mine[k] = n
					case 2:
						err := ab.Del(mkPID(k, "").Identity)
						if _, had := mine[k]; had != (err == nil) {
							r.Violate("del-result", fmt.Sprintf("known %v, result %v", had, err), nil)
						}
						delete(mine, k)
					case 3:
						p, err := ab.FindIdentity(mkPID(k, "").Identity)
						if n, had := mine[k]; had != (err == nil) || (had && p.Nick != n) {
							r.Violate("find-identity", fmt.Sprintf("concurrent: known %v as %q, found %+v, %v", had, n, p, err), nil)
						}
						if n, had := mine[k]; had {
							q, err := ab.FindNick(n)
							if err != nil || q.Identity != mkPID(k, "").Identity {
								r.Violate("find-nick", fmt.Sprintf("concurrent: nick %q of identity %d names another or nothing: %v", n, k, err), nil)
							}
						}
						seen := map[string]bool{}
						for _, p := range ab.All() {
							if seen[p.Nick] {
								r.Violate("nick-not-unique", fmt.Sprintf("nick %q listed twice", p.Nick), nil)
							}
							seen[p.Nick] = true
						}
					}
				}
				finals[u] = mine
			}(u)
		}
		wg.Wait()
		total := 0
		nk := map[string]int{}
		for _, f := range finals {
			for k, n := range f {
				total++
				if o, dup := nk[n]; dup {
					r.Violate("nick-not-unique", fmt.Sprintf("identities %d and %d were both told nick %q", o, k, n), nil)
				}
				nk[n] = k
			}
		}
		if l := len(ab.All()); l != total {
			r.Violate("all-differs", fmt.Sprintf("%d entries, expected %d", l, total), nil)
		}
		r.Case(fmt.Sprintf("conc-%d", c))
		r.Count("concurrent_rounds", 1)
	}
}

func p12history(r *Report, rg *rand.Rand, c int, nicks []string) {
	ab := addressbook.New()
	byID := map[int]zkidentity.PublicIdentity{} // with the nick in force
	var log []string
	fail := func(sig, f string, a ...any) {
		r.Violate(sig, fmt.Sprintf(f, a...), map[string]any{"operations": log})
	}
	nid := 2 + rg.Intn(6)
	nn := 1 + rg.Intn(len(nicks))
	coll, dels := 0, 0
	holder := func(n string) int {
		for k, p := range byID {
			if p.Nick == n {
				return k
			}
		}
		return -1
	}
	for s := 0; s < 60; s++ {
		k := rg.Intn(nid)
		switch op := rg.Intn(10); {
		case op < 5:
			n := nicks[rg.Intn(nn)]
			p := mkPID(k, n)
			p.Name = fmt.Sprintf("v%d", s)
			h := holder(n)
			got, err := ab.Add(p)
			log = append(log, fmt.Sprintf("add id%d %q -> %q %v", k, n, got, err))
			if h >= 0 && h != k {
				coll++
				if !errors.Is(err, addressbook.ErrDuplicateNick) {
					fail("duplicate-not-reported", "nick %q is taken, err %v", n, err)
					return
				}
				if o := holder(got); got == n || (o >= 0 && o != k) {
					fail("nick-not-free", "identity %d was given nick %q, which is taken", k, got)
					return
				}
				if !strings.HasPrefix(got, n) {
					fail("nick-unrelated", "wanted %q, given %q", n, got)
					return
				}
			} else if err != nil || got != n {
				fail("nick-changed", "nick %q was free, given %q, %v", n, got, err)
				return
			}
			p.Nick = got
			byID[k] = p
		case op < 7:
			err := ab.Del(mkPID(k, "").Identity)
			log = append(log, fmt.Sprintf("del id%d -> %v", k, err))
			_, had := byID[k]
			if had != (err == nil) || (!had && !errors.Is(err, addressbook.ErrNotFound)) {
				fail("del-result", "known %v, result %v", had, err)
				return
			}
			delete(byID, k)
			dels++
		}
		// all lookups agree with the reference
		for k := 0; k < nid; k++ {
			id := mkPID(k, "").Identity
			p, err := ab.FindIdentity(id)
			w, had := byID[k]
			if had != (err == nil) || (had && *p != w) {
				fail("find-identity", "identity %d known %v as %q, found %+v, %v", k, had, w.Nick, p, err)
				return
			}
			p2, err2 := ab.FindIdentityS(hex.EncodeToString(id[:]))
			if had != (err2 == nil) || (had && *p2 != w) {
				fail("find-identity-s", "identity %d known %v, found %v", k, had, err2)
				return
			}
			sid := hex.EncodeToString(id[:])
			for _, bad := range []string{sid[:62], sid[:32], sid[:2], sid + "00", sid + sid, sid[2:], sid[:63]} {
				if q, err := ab.FindIdentityS(bad); err == nil {
					fail("find-identity-s", "%q, which is no identity, found %+v", bad, q)
					return
				}
			}
			if had { // the result is a copy
				p.Nick = "changed by the caller"
				p.Identity[5] ^= 1
			} else if !errors.Is(err, addressbook.ErrNotFound) {
				fail("not-found-error", "%v", err)
				return
			}
		}
		for _, n := range append([]string{"never"}, nicks...) {
			p, err := ab.FindNick(n)
			h := holder(n)
			if (h >= 0) != (err == nil) || (h >= 0 && *p != byID[h]) {
				fail("find-nick", "nick %q belongs to %d, found %+v, %v", n, h, p, err)
				return
			}
		}
		all := ab.All()
		if len(all) != len(byID) {
			fail("all-differs", "%d entries listed, %d known", len(all), len(byID))
			return
		}
		for _, p := range all {
			h := holder(p.Nick)
			if h < 0 || byID[h] != p {
				fail("all-differs", "listed %q, which is not known so", p.Nick)
				return
			}
		}
	}
	for _, s := range []string{"", "00", "zz", strings.Repeat("z", 64), strings.Repeat("0", 66)} {
		r.Guard("panic", s, func() {
			if _, err := ab.FindIdentityS(s); err == nil {
				fail("bad-id-found", "%q", s)
			}
		})
	}
	r.Count("collisions", coll)
	r.Count("deletions", dels)
	if coll > 0 && dels > 0 {
		r.Case(strings.Join(log, "\n"))
	} else {
		r.Case("")
	}
	if c == 0 {
		r.Sample(log)
	}
}
