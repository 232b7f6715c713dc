package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// p14ack kills the server the moment it has accepted a message, while its
// disk is slow.
func p14ack(r *Report) {
	srv := newSrv(r, nil)
	srv.slowDisk(25 * time.Millisecond)
	srv.MustStart()
	w := newWorld(r, srv, "kill at acceptance", 2)
	for k := 0; k < r.pick(4, 20) && !r.Failed(); k++ {
		b, err := w.Users[0].login()
		if err != nil {
			w.m.violate("cannot-login", "%v", err)
			break
		}
		n := 1 + k%3
		for j := 0; j < n; j++ {
			u := w.Users[0]
			u.seq++
			p := mkMail(0, 1, u.seq, 50+k)
			k := mailKey{0, 1, u.seq}
			w.m.offer(k, len(p)-12)
			var err error
			if u.seq%3 == 0 {
				err = b.Proxy(w.Users[1].ID.Public.Identity, p)
			} else {
				err = b.Cache(w.Users[1].ID.Public.Identity, p)
			}
			if err != nil {
				w.m.violate("refused-for-nothing", "message %v: %v", k, err)
			}
			w.m.delivered(k, len(p)-12, err)
		}
		srv.Kill()
		r.Count("server_kills", 1)
		r.Count("acceptance_kills", 1)
		r.Case(fmt.Sprintf("acceptance-kill-%d", k))
		srv.MustStart()
	}
	w.Drain()
	w.CloseAll()
	srv.Kill()
}

// p14server kills the real server under traffic, again and again.
func p14server(r *Report) {
	p14ack(r)
	n := r.pick(2, 8)
	parallel(n, 2, func(c int) {
		rg := sub(r.Seed, "srvkill", c)
		srv := newSrv(r, nil)
		defer os.RemoveAll(srv.Root)
		// the clock is set ahead and back meanwhile, and passes all kinds
		// of boundaries in a place with summer time
		loc, plan := clockZone(), clockBack(time.Now(), 1000, sub(r.Seed, "srvclock", c).Int63())
		if c%2 == 0 {
			plan = clockForward(time.Now().Add(2*time.Second), loc, 40)
		}
		srv.env = append(srv.env, "TZ="+loc.String(), "VERIF_CLOCK="+plan.String())
		srv.MustStart()
		defer srv.Stop()
		w := newWorld(r, srv, fmt.Sprintf("server kill world %d", c), 5)
		w.m.clk = plan
		w.ackSome = true
		w.dropEvery = 30
		slots := 0
		var wg sync.WaitGroup
		for _, u := range w.Users {
			u := u
			wg.Add(1)
			go func() { defer wg.Done(); u.run(sub(r.Seed, "srvkill", c, u.i), 0) }()
		}
		for k := 0; k < r.pick(14, 60) && !r.Failed(); k++ {
			time.Sleep(time.Duration(300+rg.Intn(900)) * time.Millisecond)
			srv.Kill()
			r.Count("server_kills", 1)
			srv.MustStart()
			r.Count("server_clock_slots", int(1+(time.Now().Unix()-plan.base)/plan.step)-slots)
			slots = int(1 + (time.Now().Unix()-plan.base)/plan.step)
			r.Case(fmt.Sprintf("server-kill-%d-%d", c, k))
		}
		atomic.StoreInt32(&w.stop, 1)
		wg.Wait()
		w.Drain()
		w.CloseAll()
	})
}
