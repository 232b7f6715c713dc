package main

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/companyzero/zkc/tagstack"
)

func init() { register("P11", p11) }

type tagIn struct {
	pop bool
	tag uint32
}
type tagOut struct {
	tag uint32
	err int // 0 none, 1 underflow, 2 overflow, 3 other
}

func errCode(err error) int {
	switch {
	case err == nil:
		return 0
	case errors.Is(err, tagstack.ErrUnderflow):
		return 1
	case errors.Is(err, tagstack.ErrOverflow):
		return 2
	}
	return 3
}

// poolModel is the specification: a set of free tags.
func poolModel(depth int) porcupine.Model {
	full := uint64(1)<<uint(depth) - 1
	return porcupine.Model{
		Init: func() interface{} { return full },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s := st.(uint64)
			i, o := in.(tagIn), out.(tagOut)
			if i.pop {
				if o.err == 1 {
					return s == 0, s
				}
				if o.err != 0 || int(o.tag) >= depth || s&(1<<o.tag) == 0 {
					return false, s
				}
				return true, s &^ (1 << o.tag)
			}
			if o.err == 2 {
				return s == full, s
			}
			if o.err != 0 || s&(1<<i.tag) != 0 {
				return false, s
			}
			return true, s | 1<<i.tag
		},
		Equal: func(a, b interface{}) bool { return a == b },
		DescribeOperation: func(in, out interface{}) string {
			return fmt.Sprintf("%+v -> %+v", in, out)
		},
	}
}

func p11(r *Report) {
	r.Rule = "a case is one recorded concurrent history (or one sequential/blocking scenario) of takes and returns; distinct by its event order, non-trivial when operations of different users overlapped or a limit was hit"
	r.Need("linearized_histories", 30)
	r.Need("overlapping_operations", 500)
	r.Need("underflows", 20)
	r.Need("blocked_pops", 20)
	// sequential: every depth, all tags once, exhaustion and overflow
	for _, d := range []int{0, 1, 2, 3, 7, 8, 31, 32, 33, 255, 256, 1000, 65536} {
		s := tagstack.New(d)
		if s.Depth() != d {
			r.Violate("depth", fmt.Sprintf("pool of %d reports %d", d, s.Depth()), nil)
		}
		for round := 0; round < 3; round++ {
			seen := map[uint32]bool{}
			for i := 0; i < d; i++ {
				t, err := s.Pop()
				if err != nil || int(t) >= d || seen[t] {
					r.Violate("sequential-pop", fmt.Sprintf("depth %d take %d: tag %d, err %v, repeated %v", d, i, t, err, seen[t]), nil)
					break
				}
				seen[t] = true
			}
			for k := 0; k < 2; k++ {
				if t, err := s.Pop(); !errors.Is(err, tagstack.ErrUnderflow) {
					r.Violate("no-underflow", fmt.Sprintf("empty pool of %d gave %d, %v", d, t, err), nil)
				}
				r.Count("underflows", 1)
			}
			var ts []uint32
			for t := range seen {
				ts = append(ts, t)
			}
			for _, t := range ts {
				if err := s.Push(t); err != nil {
					r.Violate("sequential-push", fmt.Sprintf("depth %d: %v", d, err), nil)
				}
			}
			for k := 0; k < 2; k++ {
				if err := s.Push(0); !errors.Is(err, tagstack.ErrOverflow) {
					r.Violate("no-overflow", fmt.Sprintf("full pool of %d accepted another tag: %v", d, err), nil)
				}
			}
			r.Case(fmt.Sprintf("seq-%d-%d", d, round))
		}
		b := tagstack.NewBlocking(d)
		seen := map[uint32]bool{}
		okb := withTimeout(60*time.Second, func() {
			for i := 0; i < d; i++ {
				if b.Depth() != d-i {
					r.Violate("depth", fmt.Sprintf("blocking pool of %d after %d takes reports %d free", d, i, b.Depth()), nil)
					return
				}
				t, err := b.Pop()
				if err != nil || int(t) >= d || seen[t] {
					r.Violate("sequential-pop", fmt.Sprintf("blocking depth %d take %d: tag %d, err %v", d, i, t, err), nil)
					return
				}
				seen[t] = true
			}
			for t := range seen {
				if err := b.Push(t); err != nil {
					r.Violate("sequential-push", fmt.Sprintf("blocking depth %d: %v", d, err), nil)
					return
				}
			}
			if b.Depth() != d {
				r.Violate("depth", fmt.Sprintf("blocking pool of %d, all returned, reports %d free", d, b.Depth()), nil)
			}
		})
		if !okb {
			r.Violate("blocked", fmt.Sprintf("blocking pool of %d does not hand out all its tags", d), nil)
		}
	}
	// recorded histories
	n := r.pick(120, 3000)
	for c := 0; c < n && !r.Failed(); c++ {
		rg := sub(r.Seed, "tags", c)
		depth := 1 + rg.Intn(6)
		users := 2 + rg.Intn(6)
		blocking := rg.Intn(2) == 0
		var s *tagstack.TagStack
		if blocking {
			s = tagstack.NewBlocking(depth)
		} else {
			s = tagstack.New(depth)
		}
		var (
			mu   sync.Mutex
			ops  []porcupine.Operation
			wg   sync.WaitGroup
			gate = make(chan struct{})
		)
		t0 := time.Now()
		now := func() int64 { return time.Since(t0).Nanoseconds() }
		rec := func(u int, in tagIn, out tagOut, a, b int64) {
			mu.Lock()
			ops = append(ops, porcupine.Operation{ClientId: u, Input: in, Output: out, Call: a, Return: b})
			mu.Unlock()
		}
		for u := 0; u < users; u++ {
			wg.Add(1)
			go func(u int) {
				defer wg.Done()
				rg := sub(r.Seed, "tags", c, u)
				<-gate
				var held []uint32
				for i := 0; i < 9; i++ {
					pop := len(held) == 0 || rg.Intn(2) == 0
					if blocking && len(held) > 0 {
						pop = false // one tag per user: no user can starve
					}
					if pop {
						a := now()
						t, err := s.Pop()
						rec(u, tagIn{pop: true}, tagOut{tag: t, err: errCode(err)}, a, now())
						if err == nil {
							held = append(held, t)
						} else {
							r.Count("underflows", 1)
						}
					} else {
						t := held[len(held)-1]
						held = held[:len(held)-1]
						a := now()
						err := s.Push(t)
						rec(u, tagIn{tag: t}, tagOut{err: errCode(err)}, a, now())
					}
					if rg.Intn(3) == 0 {
						time.Sleep(time.Duration(rg.Intn(40)) * time.Microsecond)
					}
				}
				for _, t := range held {
					a := now()
					err := s.Push(t)
					rec(u, tagIn{tag: t}, tagOut{err: errCode(err)}, a, now())
				}
			}(u)
		}
		close(gate)
		if !withTimeout(60*time.Second, wg.Wait) {
			r.Violate("blocked", fmt.Sprintf("users of a pool of %d wait although every tag is returned", depth), map[string]any{"case": c})
			return
		}
		sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		key := fmt.Sprint(depth, blocking)
		overlap := 0
		last := int64(0)
		for i, o := range ops {
			if o.Call < last {
				overlap++
			}
			if o.Return > last {
				last = o.Return
			}
			key += fmt.Sprint(o.ClientId, o.Input, o.Output)
			_ = i
		}
		r.Count("overlapping_operations", overlap)
		res := porcupine.CheckOperationsTimeout(poolModel(depth), ops, 20*time.Second)
		switch res {
		case porcupine.Ok:
			r.Count("linearized_histories", 1)
		case porcupine.Illegal:
			var l []string
			for _, o := range ops {
				l = append(l, fmt.Sprintf("user %d [%d,%d] %+v -> %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output))
			}
			r.Violate("not-linearizable", fmt.Sprintf("history of a pool of %d has no valid order", depth), l)
		default:
			r.Count("undecided_histories", 1)
		}
		if overlap > 0 {
			r.Case(key)
		} else {
			r.Case("")
		}
		if c == 0 {
			var l []string
			for _, o := range ops[:min(len(ops), 12)] {
				l = append(l, fmt.Sprintf("user %d %+v -> %+v", o.ClientId, o.Input, o.Output))
			}
			r.Sample(map[string]any{"depth": depth, "blocking": blocking, "history": l})
		}
	}
	// stress with an ownership monitor: a tag has at most one holder
	for c := 0; c < r.pick(8, 60) && !r.Failed(); c++ {
		depth := []int{1, 2, 8, 32, 100}[c%5]
		blocking := c%2 == 0
		var s *tagstack.TagStack
		if blocking {
			s = tagstack.NewBlocking(depth)
		} else {
			s = tagstack.New(depth)
		}
		owner := make([]int32, depth)
		var wg sync.WaitGroup
		var taken int64
		for u := 0; u < 16; u++ {
			wg.Add(1)
			go func(u int) {
				defer wg.Done()
				for i := 0; i < 3000; i++ {
					t, err := s.Pop()
					if err != nil {
						r.Count("underflows", 1)
						continue
					}
					if int(t) >= depth {
						r.Violate("unknown-tag", fmt.Sprintf("pool of %d handed out %d", depth, t), nil)
						return
					}
					if !atomic.CompareAndSwapInt32(&owner[t], 0, int32(u+1)) {
						r.Violate("tag-shared", fmt.Sprintf("tag %d handed to two holders", t), nil)
						return
					}
					atomic.AddInt64(&taken, 1)
					if !atomic.CompareAndSwapInt32(&owner[t], int32(u+1), 0) {
						r.Violate("tag-shared", fmt.Sprintf("tag %d changed holder while held", t), nil)
						return
					}
					if err := s.Push(t); err != nil {
						r.Violate("return-refused", fmt.Sprintf("returning tag %d: %v", t, err), nil)
						return
					}
				}
			}(u)
		}
		if !withTimeout(120*time.Second, wg.Wait) {
			r.Violate("blocked", fmt.Sprintf("users of a pool of %d (blocking %v) wait for ever", depth, blocking), nil)
			return
		}
		// conservation
		if !withTimeout(30*time.Second, func() {
			seen := map[uint32]bool{}
			for i := 0; i < depth; i++ {
				t, err := s.Pop()
				if err != nil || seen[t] {
					r.Violate("tag-lost", fmt.Sprintf("after all returns pool of %d gives tag %d, err %v, repeated %v", depth, t, err, seen[t]), nil)
					return
				}
				seen[t] = true
			}
		}) {
			r.Violate("tag-lost", fmt.Sprintf("after all returns the blocking pool of %d lacks tags", depth), nil)
		}
		r.Count("stress_takes", int(taken))
		r.Case(fmt.Sprintf("stress-%d", c))
	}
	// a blocking pool waits, and every return wakes a waiter
	for c := 0; c < r.pick(40, 300) && !r.Failed(); c++ {
		rg := sub(r.Seed, "block", c)
		depth := 1 + rg.Intn(4)
		waiters := 1 + rg.Intn(5)
		s := tagstack.NewBlocking(depth)
		var held []uint32
		for i := 0; i < depth; i++ {
			t, _ := s.Pop()
			held = append(held, t)
		}
		got := make(chan uint32, waiters+depth)
		for w := 0; w < waiters; w++ {
			go func() {
				t, err := s.Pop()
				if err != nil {
					r.Violate("blocking-pop-error", err.Error(), nil)
				}
				got <- t
			}()
		}
		time.Sleep(time.Duration(200+rg.Intn(2000)) * time.Microsecond)
		select {
		case t := <-got:
			r.Violate("pop-did-not-wait", fmt.Sprintf("tag %d handed out while all are held", t), nil)
		default:
			r.Count("blocked_pops", waiters)
		}
		for w := 0; w < waiters; w++ {
			t := held[0]
			held = held[1:]
			if !withTimeout(30*time.Second, func() { s.Push(t) }) {
				r.Violate("blocked", "returning a held tag blocks", nil)
				return
			}
			select {
			case g := <-got:
				if g != t {
					r.Violate("wrong-tag", fmt.Sprintf("returned %d, waiter got %d", t, g), nil)
				}
				held = append(held, g)
			case <-time.After(30 * time.Second):
				r.Violate("lost-wakeup", "a returned tag did not wake the waiter", nil)
				return
			}
		}
		r.Case(fmt.Sprintf("block-%d-%d-%d", c, depth, waiters))
		// several tags returned at once wake as many waiters
		for k := 0; k < 4; k++ {
			burst := 1 + rg.Intn(depth)
			left := rg.Intn(2)
			for w := 0; w < burst+left; w++ {
				go func() {
					if t, err := s.Pop(); err == nil {
						got <- t
					}
				}()
			}
			time.Sleep(time.Duration(rg.Intn(800)) * time.Microsecond)
			for w := 0; w < burst; w++ {
				t := held[0]
				held = held[1:]
				if rg.Intn(3) == 0 {
					go s.Push(t)
				} else {
					s.Push(t)
				}
			}
			for w := 0; w < burst; w++ {
				select {
				case g := <-got:
					held = append(held, g)
				case <-time.After(30 * time.Second):
					r.Violate("lost-wakeup", fmt.Sprintf("%d tags of a pool of %d were returned at once to waiters, %d were handed out", burst, depth, w), nil)
					return
				}
			}
			r.Count("bursts", burst)
			// a waiter that is left over takes the next one
			select {
			case g := <-got:
				r.Violate("tag-shared", fmt.Sprintf("tag %d handed out while all are held", g), nil)
				return
			default:
			}
			if left > 0 {
				t := held[0]
				held = held[1:]
				s.Push(t)
				select {
				case g := <-got:
					held = append(held, g)
				case <-time.After(30 * time.Second):
					r.Violate("lost-wakeup", "a returned tag did not wake the waiter that was left over", nil)
					return
				}
			}
		}
	}
}
