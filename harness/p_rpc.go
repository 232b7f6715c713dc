package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// P32: programs of one protocol version understand each other and the data
// they saved. The oracle is the released version, in ../released, that the
// tree under test talks to.

func init() { register("P32", p32) }

type isession interface {
	Read() ([]byte, error)
	Write([]byte) error
	Close()
}

type iratchet interface {
	Fill() ([]byte, error)
	Complete(kx []byte, alice bool) error
	Seal([]byte) ([]byte, error)
	Open([]byte) ([]byte, error)
	Save(time.Time) []byte
}

type imail struct {
	from     [32]byte
	payload  []byte
	clear    bool
	received int64
}

type iaccounts interface {
	Create(pub []byte) error
	Deliver(to, from [32]byte, p []byte, clear bool) error
	Find(nick string) []byte
	List(id [32]byte) error
	State(id [32]byte) string
	Disable(id [32]byte) error
	Enable(id [32]byte) error
	Drain(id [32]byte, n int) ([]imail, error)
}

type impl interface {
	NewID(name, nick string) (full, pub []byte)
	FullAgain(full []byte) []byte
	PubAgain(pub []byte) []byte
	Sign(full, msg []byte) []byte
	VerifySig(pub, msg, sig []byte) bool
	VerifyPub(pub []byte) bool
	Names(pub []byte) string
	SessionInit()
	Session(conn net.Conn, full, serverPub []byte, max uint) (isession, error)
	Their(s isession) []byte
	Ratchet(full, peer []byte) iratchet
	Restore(full, peer, state []byte, now time.Time) (iratchet, error)
	Nrp(n, r, p int)
	BlobSeal(pw, data []byte) ([]byte, error)
	BlobOpen(pw, b []byte) ([]byte, error)
	NonceSeal(k *[32]byte, data []byte) ([]byte, error)
	NonceOpen(k *[32]byte, b []byte) ([]byte, error)
	IniWrite(f string, m map[string]map[string]string) error
	IniRead(f string) (map[string]map[string]string, error)
	Accounts(root string) iaccounts
	Structs() map[string]any
	Constants() map[string]any
}

var implCur, implRel impl

func implName(i impl) string {
	if i == implCur {
		return "this tree"
	}
	return "the released version"
}

// ---- structures

// fill gives every field a value that depends on its name and the seed only.
func fill(v reflect.Value, path string, seed int64) {
	h := sha256.Sum256([]byte(fmt.Sprint(seed, path)))
	rg := rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(h[:]))))
	fillWith(v, path, seed, rg)
}

func fillWith(v reflect.Value, path string, seed int64, rg *rand.Rand) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		fill(v.Elem(), path, seed)
	case reflect.String:
		n := rg.Intn(40)
		if rg.Intn(30) == 0 {
			n = 1000 + rg.Intn(3000)
		}
		var s []byte
		for len(s) < n {
			switch rg.Intn(8) {
			case 0:
				s = append(s, "é漢☃"...)
			case 1:
				s = append(s, byte(rg.Intn(256)))
			default:
				s = append(s, byte(' '+rg.Intn(95)))
			}
		}
		v.SetString(string(s))
	case reflect.Bool:
		v.SetBool(rg.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := []int64{0, 1, -1, math.MaxInt32, math.MinInt32, int64(int32(rg.Uint32())), rg.Int63(), -rg.Int63()}
		n := 6
		if v.Kind() == reflect.Int64 {
			n = 8
		}
		v.SetInt(x[rg.Intn(n)])
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := []uint64{0, 1, math.MaxUint32, uint64(rg.Uint32()), rg.Uint64(), math.MaxUint64}
		n := 4
		if v.Kind() == reflect.Uint64 {
			n = 6
		}
		v.SetUint(x[rg.Intn(n)])
	case reflect.Slice:
		n := rg.Intn(9)
		if rg.Intn(20) == 0 {
			n = rg.Intn(300)
		}
		if v.Type().Elem().Kind() == reflect.Uint8 && rg.Intn(4) == 0 {
			n = rg.Intn(2000)
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				v.Index(i).SetUint(uint64(rg.Intn(256)))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), fmt.Sprintf("%s[%d]", path, i), seed)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath == "" {
				fill(v.Field(i), path+"."+f.Name, seed)
			}
		}
	default:
		panic("a field that is not in the protocol: " + path + " " + v.Kind().String())
	}
}

// flat describes a value by the names of its fields.
func flat(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return flat(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			if len(b) > 64 {
				return fmt.Sprintf("%d:%x", len(b), sha256.Sum256(b))
			}
			return fmt.Sprintf("%d:%x", len(b), b)
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, flat(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				s = append(s, f.Name+"="+flat(v.Field(i)))
			}
		}
		sort.Strings(s)
		return "{" + strings.Join(s, " ") + "}"
	default:
		return fmt.Sprintf("%q", fmt.Sprint(v.Interface()))
	}
}

func fresh(v any) any { return reflect.New(reflect.TypeOf(v).Elem()).Interface() }

func (c codec) encode(v any) []byte {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, reflect.ValueOf(v).Elem().Interface())
	must(err)
	return b.Bytes()
}

type codec struct{}

func p32structs(r *Report, seed int64) {
	cs, rs := implCur.Structs(), implRel.Structs()
	var names []string
	for n := range rs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		cv, rv := fresh(cs[n]), fresh(rs[n])
		wit := map[string]any{"structure": n, "seed": seed}
		if !r.Guard("codec-panic", wit, func() {
			fill(reflect.ValueOf(cv).Elem(), n, seed)
			fill(reflect.ValueOf(rv).Elem(), n, seed)
			cb, rb := codec{}.encode(cv), codec{}.encode(rv)
			if cf, rf := flat(reflect.ValueOf(cv)), flat(reflect.ValueOf(rv)); cf != rf {
				r.Violate("fields:"+n, fmt.Sprintf("%s does not have the fields of protocol version 9: %s instead of %s", n, trim(cf, 300), trim(rf, 300)), wit)
				return
			}
			if !bytes.Equal(cb, rb) {
				r.Violate("encoding:"+n, fmt.Sprintf("%s is not encoded as in protocol version 9: %x instead of %x", n, head(cb, 80), head(rb, 80)), wit)
				return
			}
			for _, dir := range []struct {
				who string
				b   []byte
				to  any
			}{{"this tree", rb, fresh(cs[n])}, {"the released version", cb, fresh(rs[n])}} {
				got, err := xdr.UnmarshalLimited(bytes.NewReader(append(append([]byte{}, dir.b...), "payload"...)), dir.to, uint(len(dir.b)+64))
				if err != nil || got != len(dir.b) {
					r.Violate("decoding:"+n, fmt.Sprintf("%s: %s decodes %d of %d bytes: %v", n, dir.who, got, len(dir.b), err), wit)
					return
				}
				if a, b := flat(reflect.ValueOf(dir.to)), flat(reflect.ValueOf(rv)); a != b {
					r.Violate("decoding:"+n, fmt.Sprintf("%s: %s decodes %s, sent was %s", n, dir.who, trim(a, 300), trim(b, 300)), wit)
				}
			}
		}) {
			return
		}
		r.Case("structure " + n)
		r.Count("values", 1)
		if seed%500 == 1 {
			r.Sample(map[string]any{"structure": n, "encoded": fmt.Sprintf("%x", head(codec{}.encode(cv), 60))})
		}
	}
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func p32constants(r *Report) {
	cs, rs := implCur.Constants(), implRel.Constants()
	for n, v := range rs {
		if fmt.Sprint(cs[n]) != fmt.Sprint(v) {
			r.Violate("constant:"+n, fmt.Sprintf("%s of protocol version 9 is %v, not %v", n, v, cs[n]), nil)
		}
		r.Count("constants", 1)
	}
	r.Case("constants")
}

// ---- hostile bytes

func p32hostile(r *Report, rg *rand.Rand, n int) {
	cs := implCur.Structs()
	var names []string
	for n := range cs {
		names = append(names, n)
	}
	sort.Strings(names)
	for i := 0; i < n; i++ {
		k := names[rg.Intn(len(names))]
		v := fresh(cs[k])
		fill(reflect.ValueOf(v).Elem(), k, rg.Int63())
		b := codec{}.encode(v)
		switch rg.Intn(5) {
		case 0:
			if len(b) > 0 {
				b = b[:rg.Intn(len(b))]
			}
		case 1:
			for j := 0; j < 3 && len(b) >= 4; j++ {
				o := rg.Intn(len(b)/4) * 4
				binary.BigEndian.PutUint32(b[o:], []uint32{math.MaxUint32, 1 << 31, 1<<31 - 1, 1 << 24, uint32(len(b)), 2}[rg.Intn(6)])
			}
		case 2:
			b = make([]byte, rg.Intn(200))
			rg.Read(b)
		default:
			for j := 0; j < 1+rg.Intn(4) && len(b) > 0; j++ {
				b[rg.Intn(len(b))] ^= byte(1 << rg.Intn(8))
			}
		}
		to := fresh(cs[k])
		wit := map[string]any{"structure": k, "bytes": fmt.Sprintf("%x", head(b, 400))}
		r.Guard("hostile-panic:"+k, wit, func() {
			got, err := xdr.UnmarshalLimited(bytes.NewReader(b), to, uint(len(b)))
			if err == nil {
				// what was accepted means what it says
				if again := (codec{}).encode(to); !bytes.Equal(again, b[:got]) && !padded(again, b[:got]) {
					r.Violate("hostile-changed:"+k, fmt.Sprintf("%s: bytes that are accepted encode differently: %x, %x", k, head(again, 60), head(b, 60)), wit)
				}
				r.Count("hostile_accepted", 1)
			} else {
				r.Count("hostile_refused", 1)
			}
		})
	}
	r.Case("hostile bytes")
}

// padded: the same but for the bytes that fill up to four.
func padded(a, b []byte) bool { return len(a) == len(b) }

// ---- identities

func pair(rg *rand.Rand) (a, b impl) {
	if rg.Intn(2) == 0 {
		return implCur, implRel
	}
	return implRel, implCur
}

func randText(rg *rand.Rand, n int) string {
	var s []byte
	for len(s) < n {
		s = append(s, "abcdefghijklmnopqrstuvwxyz0123456789-_.ABC"[rg.Intn(42)])
	}
	return string(s)
}

func p32identity(r *Report, rg *rand.Rand) {
	a, b := pair(rg)
	full, pub := a.NewID("Name "+randText(rg, rg.Intn(20)), "nick"+randText(rg, rg.Intn(10)))
	wit := map[string]any{"made_by": implName(a), "public": fmt.Sprintf("%x", head(pub, 200))}
	bad := func(f string, x ...any) { r.Violate("identity", fmt.Sprintf(f, x...), wit) }
	if !bytes.Equal(b.FullAgain(full), full) || !bytes.Equal(b.PubAgain(pub), pub) {
		bad("an identity of %s is changed by %s", implName(a), implName(b))
	}
	if !b.VerifyPub(pub) {
		bad("a public identity of %s is refused by %s", implName(a), implName(b))
	}
	if x, y := a.Names(pub), b.Names(pub); x != y {
		bad("names of an identity differ: %s, %s", x, y)
	}
	m := randBytes(rg, rg.Intn(500))
	s := a.Sign(full, m)
	if !b.VerifySig(pub, m, s) || !bytes.Equal(s, b.Sign(full, m)) {
		bad("a signature of %s is not one for %s", implName(a), implName(b))
	}
	p := append([]byte{}, pub...)
	p[rg.Intn(len(p))] ^= byte(1 << rg.Intn(8))
	if a.VerifyPub(p) != b.VerifyPub(p) {
		bad("an altered identity is accepted by one version only")
	}
	r.Case("identity of " + implName(a))
	r.Count("identities", 1)
}

// ---- sessions

var relSession sync.Mutex // its keys are shared by all exchanges of a process

func p32session(r *Report, rg *rand.Rand) {
	relSession.Lock()
	defer relSession.Unlock()
	cl, sv := pair(rg)
	// The released version shares its keys between the exchanges of a
	// process and replaces them every minute.
	for try := 0; !p32sessionOf(r, rg, cl, sv, try == 3) && try < 3; try++ {
	}
}

func p32sessionOf(r *Report, rg *rand.Rand, cl, sv impl, last bool) bool {
	if sv == implRel {
		implRel.SessionInit()
	}
	cf, cp := cl.NewID("Client", "client")
	sf, sp := sv.NewID("Server", "server")
	what := implName(cl) + " connects to " + implName(sv)
	wit := map[string]any{"what": what}
	bad := func(f string, x ...any) { r.Violate("session", what+": "+fmt.Sprintf(f, x...), wit) }
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer ln.Close()
	var ss isession
	var serr error
	done := make(chan struct{})
	max := uint(65536)
	go func() {
		defer close(done)
		c, err := ln.Accept()
		if err != nil {
			serr = err
			return
		}
		ss, serr = sv.Session(c, sf, nil, max)
		if serr != nil {
			c.Close()
		}
	}()
	c, err := net.Dial("tcp", ln.Addr().String())
	must(err)
	defer c.Close()
	cs, cerr := cl.Session(c, cf, sp, max)
	<-done
	if cerr != nil || serr != nil {
		if last {
			bad("no key exchange: client %v, server %v", cerr, serr)
		}
		return false
	}
	defer ss.Close()
	if t, id := sv.Their(ss), pubID(cp); !bytes.Equal(t, id[:]) {
		bad("the server takes the client for someone else")
	}
	n := 2 + rg.Intn(30)
	for i := 0; i < n; i++ {
		from, to, dir := cs, ss, "to the server"
		if rg.Intn(2) == 0 {
			from, to, dir = ss, cs, "to the client"
		}
		m := randBytes(rg, []int{0, 1, 24, rg.Intn(1000), rg.Intn(30000)}[rg.Intn(5)])
		var werr error
		wd := make(chan struct{})
		go func() { werr = from.Write(m); close(wd) }()
		got, err := to.Read()
		if err != nil {
			bad("message %d %s: %v", i, dir, err)
			return true
		}
		<-wd
		if werr != nil || !bytes.Equal(got, m) {
			bad("message %d %s of %d bytes arrives as %d bytes (%v)", i, dir, len(m), len(got), werr)
			return true
		}
	}
	r.Case("session: " + what)
	r.Count("sessions", 1)
	r.Count("session_messages", n)
	return true
}

// ---- ratchets

func p32ratchet(r *Report, rg *rand.Rand) {
	side := [2]impl{}
	side[0], side[1] = pair(rg)
	var full, pub [2][]byte
	for i := range full {
		full[i], pub[i] = side[rg.Intn(2)].NewID("Name", fmt.Sprint("nick", i))
	}
	var rt [2]iratchet
	var kx [2][]byte
	var hist []string
	note := func(f string, x ...any) { hist = append(hist, fmt.Sprintf(f, x...)) }
	bad := func(f string, x ...any) {
		h := hist
		if len(h) > 12 {
			h = h[len(h)-12:]
		}
		r.Violate("ratchet", fmt.Sprintf(f, x...)+" ("+strings.Join(h, "; ")+")", map[string]any{"history": hist})
	}
	now := time.Unix(1_700_000_000, 0)
	// exchanges set the parameters of blobs for the whole process
	kxMtx.Lock()
	locked := true
	defer func() {
		if locked {
			kxMtx.Unlock()
		}
	}()
	for i := range rt {
		rt[i] = side[i].Ratchet(full[i], pub[1-i])
		var err error
		if kx[i], err = rt[i].Fill(); err != nil {
			bad("no exchange: %v", err)
			return
		}
	}
	note("%s starts with %s", implName(side[0]), implName(side[1]))
	if rg.Intn(2) == 0 {
		// half an exchange is saved by one and read by the other
		i := rg.Intn(2)
		st := rt[i].Save(now)
		side[i] = other(side[i])
		x, err := side[i].Restore(full[i], pub[1-i], st, now)
		if err != nil {
			bad("half an exchange does not load: %v", err)
			return
		}
		rt[i] = x
		note("half an exchange moves to %s", implName(side[i]))
	}
	for i := range rt {
		if err := rt[i].Complete(kx[1-i], i == 1); err != nil {
			bad("exchange refused by %s: %v", implName(side[i]), err)
			return
		}
	}
	kxMtx.Unlock()
	locked = false
	var q [2][]struct{ ct, pt []byte }
	steps := 60 + rg.Intn(200)
	for s := 0; s < steps; s++ {
		i := rg.Intn(2)
		switch x := rg.Intn(10); {
		case x < 5:
			for k := 1 + rg.Intn(4); k > 0; k-- {
				// (the released version loses empty messages that are late)
				m := randBytes(rg, []int{1, 2, 1 + rg.Intn(200), 1 + rg.Intn(3000)}[rg.Intn(4)])
				ct, err := rt[i].Seal(m)
				if err != nil {
					bad("%s cannot encrypt: %v", implName(side[i]), err)
					return
				}
				q[1-i] = append(q[1-i], struct{ ct, pt []byte }{ct, m})
			}
			note("%d sends", i)
		case x < 8 && len(q[i]) > 0:
			j := 0
			if rg.Intn(3) == 0 {
				j = rg.Intn(min(len(q[i]), 20))
			}
			m := q[i][j]
			q[i] = append(q[i][:j:j], q[i][j+1:]...)
			got, err := rt[i].Open(m.ct)
			if err != nil || !bytes.Equal(got, m.pt) {
				bad("%s does not open message %d in line of %s: %v", implName(side[i]), j, implName(side[1-i]), err)
				return
			}
			note("%d receives (%d)", i, j)
			r.Count("ratchet_messages", 1)
		case x >= 8:
			st := rt[i].Save(now)
			side[i] = other(side[i])
			y, err := side[i].Restore(full[i], pub[1-i], st, now)
			if err != nil {
				bad("%s does not load a ratchet: %v", implName(side[i]), err)
				return
			}
			rt[i] = y
			note("%d moves to %s", i, implName(side[i]))
			r.Count("ratchet_moves", 1)
		}
	}
	r.Case(fmt.Sprintf("ratchet of %s and %s", implName(side[0]), implName(side[1])))
	r.Count("ratchets", 1)
}

func other(i impl) impl {
	if i == implCur {
		return implRel
	}
	return implCur
}

// ---- blobs and databases

func p32blob(r *Report, rg *rand.Rand) {
	a, b := pair(rg)
	pw := randBytes(rg, 1+rg.Intn(30))
	data := randBytes(rg, rg.Intn(5000))
	e, err := a.BlobSeal(append([]byte{}, pw...), data)
	wit := map[string]any{"sealed_by": implName(a), "size": len(data)}
	if err != nil {
		r.Violate("blob", fmt.Sprintf("%s does not seal: %v", implName(a), err), wit)
		return
	}
	if got, err := b.BlobOpen(pw, e); err != nil || !bytes.Equal(got, data) {
		r.Violate("blob", fmt.Sprintf("a blob of %s does not open in %s: %v", implName(a), implName(b), err), wit)
	}
	var k [32]byte
	rg.Read(k[:])
	e, err = a.NonceSeal(&k, data)
	if err != nil {
		r.Violate("blob", fmt.Sprintf("%s does not seal: %v", implName(a), err), wit)
		return
	}
	if got, err := b.NonceOpen(&k, e); err != nil || !bytes.Equal(got, data) {
		r.Violate("blob", fmt.Sprintf("what %s sealed with a key does not open in %s: %v", implName(a), implName(b), err), wit)
	}
	r.Case("blob of " + implName(a))
	r.Count("blobs", 1)
}

func p32ini(r *Report, rg *rand.Rand) {
	a, b := pair(rg)
	f := filepath.Join(tempDir("ini"), "x.ini")
	m := map[string]map[string]string{"": {}}
	for i := rg.Intn(5); i >= 0; i-- {
		t := "t" + randText(rg, 1+rg.Intn(8))
		if i == 0 {
			t = ""
		}
		m[t] = map[string]string{}
		for j := 1 + rg.Intn(6); j > 0; j-- {
			v := base64.StdEncoding.EncodeToString(randBytes(rg, rg.Intn(300)))
			if rg.Intn(2) == 0 {
				v = "some text " + randText(rg, 1+rg.Intn(30))
			}
			m[t]["k"+randText(rg, 1+rg.Intn(8))] = v
		}
	}
	if a == implRel && len(m) > 1 {
		m[""] = map[string]string{} // it does not write both
	}
	must(a.IniWrite(f, m))
	got, err := b.IniRead(f)
	if err != nil || fmt.Sprint(got) != fmt.Sprint(m) {
		r.Violate("ini", fmt.Sprintf("a database of %s is read differently by %s: %v %v, not %v", implName(a), implName(b), err, trim(fmt.Sprint(got), 300), trim(fmt.Sprint(m), 300)), m)
	}
	r.Case("database of " + implName(a))
	r.Count("databases", 1)
}

// ---- accounts and mail

func p32accounts(r *Report, rg *rand.Rand) {
	root := tempDir("accounts")
	type user struct {
		id   [32]byte
		nick string
		pub  []byte
		mail []imail
		off  bool
	}
	var us []*user
	who := implRel
	if rg.Intn(2) == 0 {
		who = implCur
	}
	wit := map[string]any{}
	var hist []string
	bad := func(f string, x ...any) {
		wit["history"] = hist
		r.Violate("accounts", fmt.Sprintf(f, x...)+" ("+strings.Join(hist, "; ")+")", wit)
	}
	before := time.Now().Unix()
	for turn := 0; turn < 4; turn++ {
		hist = append(hist, implName(who)+" starts")
		a := who.Accounts(root)
		for _, u := range us {
			if want := fmt.Sprint(!u.off, u.off); a.State(u.id) != want {
				bad("enabled, disabled of an account: %s, not %s", a.State(u.id), want)
				return
			}
			if got := a.Find(u.nick); !u.off && !bytes.Equal(got, u.pub) {
				bad("%s is not found by the nick", u.nick)
				return
			}
			if u.off {
				continue
			}
			if rg.Intn(3) > 0 {
				got, err := a.Drain(u.id, len(u.mail))
				if err != nil {
					bad("mail of %s: %v", u.nick, err)
					return
				}
				for i, g := range got {
					w := u.mail[i]
					if g.from != w.from || !bytes.Equal(g.payload, w.payload) || g.clear != w.clear || g.received < before || g.received > time.Now().Unix() {
						bad("message %d of %d of %s is not what was delivered", i, len(got), u.nick)
						return
					}
				}
				hist = append(hist, fmt.Sprintf("%s takes %d messages", u.nick, len(got)))
				r.Count("mail", len(got))
				u.mail = nil
			}
		}
		for k := 1 + rg.Intn(2); k > 0; k-- {
			u := &user{nick: fmt.Sprintf("user%d", len(us))}
			_, u.pub = who.NewID("Name of "+u.nick, u.nick)
			u.id = pubID(u.pub)
			if err := a.Create(u.pub); err != nil {
				bad("no account: %v", err)
				return
			}
			if err := a.List(u.id); err != nil {
				bad("not listed: %v", err)
				return
			}
			us = append(us, u)
			hist = append(hist, u.nick+" is created")
		}
		for k := rg.Intn(6); k > 0; k-- {
			u, f := us[rg.Intn(len(us))], us[rg.Intn(len(us))]
			if u.off {
				continue
			}
			m := imail{from: f.id, payload: randBytes(rg, rg.Intn(2000)), clear: rg.Intn(3) == 0}
			if err := a.Deliver(u.id, f.id, m.payload, m.clear); err != nil {
				bad("not delivered: %v", err)
				return
			}
			u.mail = append(u.mail, m)
			hist = append(hist, "mail for "+u.nick)
		}
		u := us[rg.Intn(len(us))]
		if rg.Intn(2) == 0 {
			var err error
			if u.off {
				err = a.Enable(u.id)
			} else {
				err = a.Disable(u.id)
			}
			if err != nil {
				bad("%s is not switched: %v", u.nick, err)
				return
			}
			u.off = !u.off
			hist = append(hist, u.nick+" is switched")
		}
		who = other(who)
	}
	// mail of a server that did not know messages in the clear
	a := implCur.Accounts(root)
	for _, u := range us {
		if u.off || len(u.mail) == 0 {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(root, hexed(u.id), "cache", "*"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil || filepath.Base(f) == "deliver.tmp" || len(b) < 48 {
				continue
			}
			must(os.WriteFile(f, b[:len(b)-4], 0600))
		}
		got, err := a.Drain(u.id, len(u.mail))
		if err != nil {
			bad("mail of an old server for %s: %v", u.nick, err)
			return
		}
		for i, g := range got {
			if w := u.mail[i]; g.from != w.from || !bytes.Equal(g.payload, w.payload) || g.clear {
				bad("message %d of an old server for %s is not what was delivered (in the clear: %v)", i, u.nick, g.clear)
				return
			}
		}
		r.Count("old_mail", len(got))
	}
	r.Case("accounts")
	r.Count("account_dirs", 1)
}

func pubID(pub []byte) [32]byte {
	p := implCur.(cur).pub(pub)
	return p.Identity
}

// ---- whole programs

type vworld struct {
	r      *Report
	rg     *rand.Rand
	lane   int
	s      *Srv
	cs     []*Cli
	hist   []string
	failed bool
	n      int
	dir    bool
	group  bool
}

func (w *vworld) note(f string, a ...any) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }

func (w *vworld) bad(sig, f string, a ...any) {
	w.failed = true
	wit := map[string]any{"history": w.hist, "server": trim(lastLines(w.s.Log(), 15), 2000)}
	for _, c := range w.cs {
		wit[c.Nick] = trim(lastLines(c.Console(), 15), 2000)
	}
	h := w.hist
	if len(h) > 10 {
		h = h[len(h)-10:]
	}
	w.r.Violate(sig, fmt.Sprintf(f, a...)+" ("+strings.Join(h, "; ")+")", wit)
}

func verName(bin string) string {
	if bin == "" {
		return "this tree"
	}
	return "released"
}

// start starts a client with one of the versions.
func (w *vworld) start(c *Cli, bin string) bool {
	c.bin = bin
	n := c.connects()
	w.note("%s starts (%s)", c.Nick, verName(bin))
	c.MustStart()
	if !c.online(n, 30*time.Second) {
		w.bad("offline", "%s does not go online: %s", c.Nick, trim(lastLines(c.Console(), 5), 500))
		return false
	}
	return true
}

func (w *vworld) talk(a, b *Cli) {
	if w.failed {
		return
	}
	w.n++
	t := fmt.Sprintf("text-%d-%d-", w.lane, w.n)
	cmd, text := "/m "+b.Nick+" "+t, t
	if w.rg.Intn(4) == 0 {
		text = t + randText(w.rg, 1500)
		cmd = "/m " + b.Nick + " " + text
	}
	w.note("%s to %s", a.Nick, b.Nick)
	a.Type(cmd)
	if !b.shows(a.me(), text, 25*time.Second) {
		w.bad("not-understood", "a text of %s (%s) is not shown by %s (%s), the server is %s", a.Nick, verName(a.bin), b.Nick, verName(b.bin), verName(w.s.bin))
		return
	}
	w.r.Count("texts", 1)
	w.r.Case(fmt.Sprintf("text from %s to %s over %s", verName(a.bin), verName(b.bin), verName(w.s.bin)))
}

func (w *vworld) groupTalk(a, b *Cli) {
	if w.failed || !w.group {
		return
	}
	w.n++
	t := fmt.Sprintf("gtext-%d-%d-", w.lane, w.n)
	w.note("%s to the group", a.Nick)
	a.Type("/gc m crew " + t)
	if !b.wait(25*time.Second, func() bool { return strings.Contains(b.GroupConv("crew"), t) }) {
		w.bad("not-understood", "a text of %s (%s) to the group is not shown by %s (%s)", a.Nick, verName(a.bin), b.Nick, verName(b.bin))
		return
	}
	w.r.Count("group_texts", 1)
	w.r.Case(fmt.Sprintf("group text from %s to %s", verName(a.bin), verName(b.bin)))
}

func (w *vworld) sendFile(a, b *Cli) {
	if w.failed {
		return
	}
	w.n++
	data := randBytes(w.rg, 1+w.rg.Intn(600000))
	name := fmt.Sprintf("file-%d-%d.bin", w.lane, w.n)
	f := filepath.Join(tempDir("send"), name)
	must(os.WriteFile(f, data, 0600))
	w.note("%s sends %d bytes to %s", a.Nick, len(data), b.Nick)
	a.Type("/send " + b.Nick + " " + f + " some file")
	want := fileSum(data)
	if !b.wait(40*time.Second, func() bool {
		for _, v := range b.spooled() {
			if v == want {
				return true
			}
		}
		return false
	}) {
		w.bad("not-understood", "a file of %s (%s) does not arrive at %s (%s)", a.Nick, verName(a.bin), b.Nick, verName(b.bin))
		return
	}
	w.r.Count("files", 1)
	w.r.Case(fmt.Sprintf("file from %s to %s", verName(a.bin), verName(b.bin)))
}

// inviteToken is the token of an invitation that a client has.
func inviteToken(c *Cli, group string) string {
	m, err := implCur.IniRead(c.path("joins", "joins.ini"))
	if err != nil {
		return ""
	}
	for _, v := range m[group] {
		b, err := base64.StdEncoding.DecodeString(v)
		var i rpc.GroupInvite
		if err == nil && unxdr(b, &i) == nil {
			return fmt.Sprint(i.Token)
		}
	}
	return ""
}

// newGroup: a makes a group that b joins.
func (w *vworld) newGroup(a, b *Cli) {
	if w.failed {
		return
	}
	w.note("%s makes a group", a.Nick)
	a.Type("/gc new crew")
	if !a.wait(10*time.Second, func() bool { _, ok := a.Group("crew"); return ok }) {
		w.bad("no-group", "no group: %s", trim(lastLines(a.Console(), 4), 300))
		return
	}
	a.Type("/gc invite crew " + b.Nick)
	tok := ""
	if !b.wait(25*time.Second, func() bool {
		tok = inviteToken(b, "crew")
		return tok != ""
	}) {
		w.bad("not-understood", "an invitation of %s (%s) does not arrive at %s (%s)", a.Nick, verName(a.bin), b.Nick, verName(b.bin))
		return
	}
	b.Type("/gc join crew " + tok)
	ok := func(c *Cli) bool { g, ok := c.Group("crew"); return ok && len(g.Members) == 2 }
	if !b.wait(25*time.Second, func() bool { return ok(a) && ok(b) }) {
		w.bad("not-understood", "%s (%s) cannot join the group of %s (%s)", b.Nick, verName(b.bin), a.Nick, verName(a.bin))
		return
	}
	w.group = true
	w.r.Count("groups", 1)
	w.r.Case(fmt.Sprintf("group of %s joined by %s", verName(a.bin), verName(b.bin)))
}

func (w *vworld) reset(a, b *Cli) {
	if w.failed {
		return
	}
	if !w.dir && a.bin != "" {
		return // the released client only carries this out with a directory
	}
	w.note("%s resets %s", a.Nick, b.Nick)
	ra, rb := a.path("inbound", hexed(b.me()), "ratchet.xdr"), b.path("inbound", hexed(a.me()), "ratchet.xdr")
	xa, _ := os.ReadFile(ra)
	xb, _ := os.ReadFile(rb)
	a.Type("/reset " + b.Nick)
	if !b.wait(30*time.Second, func() bool {
		ya, ea := os.ReadFile(ra)
		yb, eb := os.ReadFile(rb)
		return ea == nil && eb == nil && !bytes.Equal(xa, ya) && !bytes.Equal(xb, yb)
	}) {
		w.bad("not-understood", "a reset of %s (%s) is not carried out by %s (%s)", a.Nick, verName(a.bin), b.Nick, verName(b.bin))
		return
	}
	w.r.Count("resets", 1)
	w.r.Case(fmt.Sprintf("reset by %s of %s", verName(a.bin), verName(b.bin)))
}

func p32programs(r *Report, rg *rand.Rand, lane int) {
	bins := func(base string, old bool) string {
		if old {
			return "rel-" + base
		}
		return ""
	}
	w := &vworld{r: r, rg: rg, lane: lane, dir: lane%2 == 0}
	w.s = newSrv(r, map[string]string{"directory": map[bool]string{true: "yes", false: "no"}[w.dir]})
	// lanes start from each mix; one program of the tree under test at least
	mix := []int{1, 2, 4, 3, 5, 6, 0, 1}[lane%8]
	w.s.bin = bins("zkserver", mix&4 != 0)
	w.note("server: %s", verName(w.s.bin))
	w.s.MustStart()
	a, b := w.s.client("anna", ""), w.s.client("berta", "")
	w.cs = []*Cli{a, b}
	if !w.start(a, bins("zkclient", mix&1 != 0)) || !w.start(b, bins("zkclient", mix&2 != 0)) {
		return
	}
	exchange := func() {
		var err error
		if w.dir {
			err = findKX(a, b)
		} else {
			err = pwKX(a, b, "secret"+randText(rg, 6))
		}
		if err != nil {
			w.bad("no-exchange", "%s (%s) and %s (%s): %v", a.Nick, verName(a.bin), b.Nick, verName(b.bin), err)
			return
		}
		r.Count("exchanges", 1)
		r.Case(fmt.Sprintf("key exchange of %s with %s", verName(a.bin), verName(b.bin)))
	}
	exchange()
	for round := 0; round < r.pick(3, 6) && !w.failed; round++ {
		w.talk(a, b)
		w.talk(b, a)
		if round == 0 {
			w.newGroup(a, b)
		}
		w.groupTalk(a, b)
		w.groupTalk(b, a)
		if rg.Intn(2) == 0 {
			w.sendFile(a, b)
		} else {
			w.sendFile(b, a)
		}
		if rg.Intn(2) == 0 {
			w.reset(a, b)
			w.talk(a, b)
			w.talk(b, a)
		}
		if w.failed || round == r.pick(3, 6)-1 {
			break
		}
		// mail that waits while the programs change
		off, on := a, b
		if rg.Intn(2) == 0 {
			off, on = b, a
		}
		w.note("%s quits", off.Nick)
		w.rest(off)
		off.Quit()
		w.n++
		t := fmt.Sprintf("late-%d-%d-", w.lane, w.n)
		on.Type("/m " + off.Nick + " " + t)
		if !w.delivered(off) {
			w.bad("not-understood", "mail for %s is not accepted", off.Nick)
			return
		}
		w.rest(on)
		on.Quit()
		w.s.Stop()
		w.s.bin = bins("zkserver", rg.Intn(2) == 0)
		w.note("server: %s", verName(w.s.bin))
		w.s.MustStart()
		obin, nbin := bins("zkclient", off.bin == ""), bins("zkclient", rg.Intn(2) == 0)
		if !w.start(off, obin) {
			return
		}
		if !off.shows(on.me(), t, 25*time.Second) {
			w.bad("saved-data", "mail that waited is not shown by %s, now %s", off.Nick, verName(off.bin))
			return
		}
		r.Count("swaps", 1)
		if !w.start(on, nbin) {
			return
		}
	}
	for _, c := range w.cs {
		if !w.failed && !c.Alive() {
			w.bad("dead", "%s died: %s", c.Nick, c.Death())
		}
	}
}

// rest waits until a client has nothing to save any more. (The released
// version saves a conversation after it sent.)
func (w *vworld) rest(c *Cli) {
	last, since := "", time.Now()
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && time.Since(since) < 600*time.Millisecond; time.Sleep(50 * time.Millisecond) {
		if t := c.tree("inbound") + c.tree("groupchat"); t != last {
			last, since = t, time.Now()
		}
	}
}

// delivered waits until the server has mail for a client.
func (w *vworld) delivered(c *Cli) bool {
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		fs, _ := filepath.Glob(filepath.Join(w.s.Root, "home", hexed(c.me()), "cache", "*"))
		n := 0
		for _, f := range fs {
			if filepath.Base(f) != "deliver.tmp" {
				n++
			}
		}
		if n > 0 {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// p32version: a server of another version is refused.
func p32version(r *Report, rg *rand.Rand) {
	for _, v := range []int{8, 10, 0, 9} {
		s := newFSrv(r)
		s.version = v
		c := s.newClient("anna")
		c.MustStart()
		said := c.wait(15*time.Second, func() bool {
			return c.connects() > 0 || strings.Contains(c.Console(), "version")
		})
		ok := c.connects() > 0
		if v == rpc.ProtocolVersion != ok || !said {
			r.Violate("version", fmt.Sprintf("a server with protocol version %d: connected %v (%s)", v, ok, trim(lastLines(c.Console(), 5), 400)), nil)
		}
		c.Kill()
		r.Count("versions", 1)
		r.Case(fmt.Sprintf("server of version %d", v))
	}
}

func p32(r *Report) {
	r.Rule = "one case per structure, per pair of versions in each protocol step, and per mix of versions of the programs"
	r.Need("values", 500)
	r.Need("sessions", 10)
	r.Need("ratchet_messages", 200)
	r.Need("texts", 10)
	r.Need("swaps", 3)
	p32constants(r)
	initOnce.Do(session.Init)
	implRel.SessionInit()
	var wg sync.WaitGroup
	lane := func(seed int64, f func(rg *rand.Rand)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rg := rand.New(rand.NewSource(r.Seed*7919 + seed))
			r.Guard("panic", nil, func() { f(rg) })
		}()
	}
	lanes := r.pick(6, 16)
	for l := 0; l < lanes; l++ {
		l := l
		lane(int64(l), func(rg *rand.Rand) { p32programs(r, rg, l) })
	}
	lane(100, func(rg *rand.Rand) { p32version(r, rg) })
	lane(101, func(rg *rand.Rand) {
		for i := 0; i < r.pick(60, 1000); i++ {
			p32structs(r, r.Seed*1_000_003+int64(i))
		}
		p32hostile(r, rg, r.pick(4000, 100000))
	})
	lane(102, func(rg *rand.Rand) {
		for i := 0; i < r.pick(40, 400) && !r.Failed(); i++ {
			p32identity(r, rg)
			p32session(r, rg)
		}
	})
	lane(103, func(rg *rand.Rand) {
		for i := 0; i < r.pick(8, 150) && !r.Failed(); i++ {
			p32ratchet(r, rg)
		}
	})
	lane(104, func(rg *rand.Rand) {
		for i := 0; i < r.pick(60, 1000) && !r.Failed(); i++ {
			p32ini(r, rg)
		}
		for i := 0; i < r.pick(6, 100) && !r.Failed(); i++ {
			p32accounts(r, rg)
		}
		kxMtx.Lock()
		implCur.Nrp(1024, 8, 1)
		implRel.Nrp(1024, 8, 1)
		for i := 0; i < r.pick(40, 400) && !r.Failed(); i++ {
			p32blob(r, rg)
		}
		// with the parameters of the programs
		implCur.Nrp(32768, 16, 2)
		implRel.Nrp(32768, 16, 2)
		for i := 0; i < 2 && !r.Failed(); i++ {
			p32blob(r, rg)
		}
		kxMtx.Unlock()
	})
	wg.Wait()
}
