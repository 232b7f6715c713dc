package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
)

// P24: file transfers.

// files lists what is below a directory, directories included.
func files(root string, skip func(rel string) bool) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if skip != nil && skip(rel) {
			return nil
		}
		if d.IsDir() {
			m[rel] = "dir"
			return nil
		}
		x, _ := os.ReadFile(p)
		m[rel] = fmt.Sprintf("%d %x", len(x), sha256.Sum256(x))
		return nil
	})
	return m
}

// spooled is what a client has in its download directory, without what is
// under way.
func (c *Cli) spooled() map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(c.path("spool"))
	for _, e := range es {
		p := c.path("spool", e.Name())
		if e.IsDir() {
			continue
		}
		x, _ := os.ReadFile(p)
		m[e.Name()] = fmt.Sprintf("%d %x", len(x), sha256.Sum256(x))
	}
	return m
}

// ownState are the files of a client that may change when it receives.
func ownState(rel string) bool {
	p := strings.Split(rel, string(filepath.Separator))
	switch p[0] {
	case "inbound", "zkclient.log", "history", ".", "spool":
		return true
	}
	return strings.HasSuffix(rel, ".log") || strings.HasSuffix(rel, "history")
}

func fileSum(b []byte) string { return fmt.Sprintf("%d %x", len(b), sha256.Sum256(b)) }

// xfer is a transfer that a peer carries out.
type xfer struct {
	p        *Peer
	name     string
	data     []byte
	sum      [32]byte
	chunk    int
	msgs     []any
	next     int
	sent     bool // everything was acknowledged
	optional bool // may be refused
}

type ftworld struct {
	r      *Report
	rng    *mrand.Rand
	s      *FSrv
	c      *Cli
	peers  []*Peer
	lane   int
	n      int
	hist   []string
	failed bool
	killed bool
	outer  string            // directory the client's root is in
	have   map[string]string // what was in the download directory
	rest   map[string]string // everything else
}

func (w *ftworld) note(f string, a ...any) { w.hist = append(w.hist, trim(fmt.Sprintf(f, a...), 200)) }

func (w *ftworld) bad(sig, f string, a ...any) {
	w.failed = true
	h := w.hist
	if len(h) > 10 {
		h = h[len(h)-10:]
	}
	w.r.Violate(sig, fmt.Sprintf(f, a...)+" ("+strings.Join(h, "; ")+")",
		map[string]any{"history": w.hist, "console": trim(lastLines(w.c.Console(), 15), 3000)})
}

func newFtworld(r *Report, rng *mrand.Rand, lane int) *ftworld {
	w := &ftworld{r: r, rng: rng, s: newFSrv(r), lane: lane}
	w.c = w.s.newClient("user")
	// the root is moved two directories deeper, what a sender may reach
	// with a few ".." stays in the scratch directory
	w.outer = w.c.Root
	deep := filepath.Join(w.outer, "a", "b", "root")
	must(os.MkdirAll(filepath.Dir(deep), 0700))
	must(os.MkdirAll(deep, 0700))
	must(os.Rename(filepath.Join(w.outer, "myserver"), filepath.Join(deep, "myserver")))
	w.c.Root = deep
	w.c.MustStart()
	if w.s.Conn(20*time.Second) == nil {
		panic("client does not connect: " + w.c.Console())
	}
	for i := 0; i < 3; i++ {
		p := w.s.newPeer(fmt.Sprintf("peer%d", i), &w.c.ID.Public)
		if err := p.KX(); err != nil {
			panic(err.Error())
		}
		w.peers = append(w.peers, p)
	}
	must(os.WriteFile(w.c.path("canary"), []byte("canary"), 0600))
	must(os.WriteFile(filepath.Join(w.outer, "canary"), []byte("canary"), 0600))
	must(os.WriteFile(filepath.Join(w.outer, "a", "b", "canary"), []byte("canary"), 0600))
	must(os.MkdirAll(w.c.path("spool", "mine"), 0700))
	must(os.WriteFile(w.c.path("spool", "kept"), []byte("of the user"), 0600))
	must(os.WriteFile(w.c.path("spool", "mine", "kept"), []byte("of the user"), 0600))
	w.look()
	return w
}

func (w *ftworld) others() map[string]string {
	root, _ := filepath.Rel(w.outer, w.c.Root)
	m := files(w.outer, func(rel string) bool {
		if r, err := filepath.Rel(root, rel); err == nil && !strings.HasPrefix(r, "..") {
			return ownState(r)
		}
		return false
	})
	m["spool/mine"] = fmt.Sprint(files(w.c.path("spool", "mine"), nil))
	return m
}

func (w *ftworld) look() {
	w.have = w.c.spooled()
	w.rest = w.others()
}

func (w *ftworld) xfer(p *Peer, name string, data []byte, chunk int) *xfer {
	chunk = max(chunk, len(data)/20)
	x := &xfer{p: p, name: name, data: data, sum: sha256.Sum256(data), chunk: chunk}
	x.msgs = append(x.msgs, rpc.ChunkNew{Size: uint64(len(data)), ChunkSize: uint64(chunk), Filename: name,
		Description: "d", MIME: "application/octet-stream", Digest: x.sum})
	for o := 0; o < len(data); o += chunk {
		e := min(o+chunk, len(data))
		x.msgs = append(x.msgs, rpc.Chunk{Offset: uint64(o), Digest: x.sum, Payload: data[o:e]})
	}
	return x
}

// step sends the next message of a transfer.
func (w *ftworld) step(x *xfer) {
	m := x.msgs[x.next]
	x.next++
	w.send(x.p, m)
	x.sent = x.next == len(x.msgs)
}

func (w *ftworld) send(p *Peer, m any) {
	if w.failed {
		return
	}
	switch v := m.(type) {
	case rpc.ChunkNew:
		w.note("%s new %q size %d %x", p.ID.Public.Nick, v.Filename, v.Size, v.Digest[:2])
	case rpc.Chunk:
		w.note("%s chunk %x @%d +%d", p.ID.Public.Nick, v.Digest[:2], v.Offset, len(v.Payload))
		w.r.Count("chunks", 1)
	}
	if err := p.Send(m); err != nil {
		w.bad("not-handled", "a message of a file transfer is not acknowledged: %v %s", err, w.c.Death())
	}
}

// run carries out transfers interleaved at random.
func (w *ftworld) run(xs ...*xfer) {
	open := append([]*xfer(nil), xs...)
	for len(open) > 0 && !w.failed {
		i := w.rng.Intn(len(open))
		w.step(open[i])
		if open[i].sent {
			open = append(open[:i], open[i+1:]...)
		}
		if w.rng.Intn(12) == 0 {
			w.hostile()
		}
		if w.rng.Intn(60) == 0 {
			w.restart()
		}
	}
}

func (w *ftworld) restart() {
	w.note("restart")
	w.c.Kill()
	w.c.MustStart()
	if w.s.Conn(20*time.Second) == nil {
		w.bad("dead", "the client does not connect after a restart")
	}
	w.r.Count("restarts", 1)
	w.killed = true // what was to be shown may be lost
}

// settle checks the directory after transfers that must have arrived.
func (w *ftworld) settle(name string, fair ...*xfer) {
	if w.failed {
		return
	}
	if !w.c.Alive() {
		w.bad("dead", "the client died: %s", w.c.Death())
		return
	}
	want := map[string]int{}
	for _, x := range fair {
		if x.optional {
			continue
		}
		want[fileSum(x.data)]++
	}
	allowed := map[string]int{}
	for _, x := range fair {
		allowed[fileSum(x.data)]++
	}
	var now map[string]string
	got := map[string][]string{}
	ok := w.c.wait(10*time.Second, func() bool {
		now = w.c.spooled()
		got = map[string][]string{}
		for n, v := range now {
			if _, old := w.have[n]; !old {
				got[v] = append(got[v], n)
			}
		}
		for v, n := range want {
			if len(got[v]) < n {
				return false
			}
		}
		return true
	})
	for n, v := range w.have {
		if now[n] != v {
			w.bad("overwritten", "%s: the file %q that was in the download directory changed from %s to %s", name, n, v, now[n])
			return
		}
	}
	for v, ns := range got {
		if len(ns) > allowed[v] {
			w.bad("not-sent", "%s: there are files in the download directory that were not sent like that: %q (%s)", name, ns, trim(v, 40))
			return
		}
	}
	if rest := w.others(); fmt.Sprint(rest) != fmt.Sprint(w.rest) {
		var ch []string
		for k, v := range rest {
			if w.rest[k] != v {
				ch = append(ch, k+" is "+trim(v, 30))
			}
		}
		for k := range w.rest {
			if _, ok := rest[k]; !ok {
				ch = append(ch, k+" is gone")
			}
		}
		sort.Strings(ch)
		w.bad("outside", "%s: files outside of the download directory changed: %s", name, trim(strings.Join(ch, ", "), 400))
		return
	}
	if !ok {
		var miss []string
		for _, x := range fair {
			if len(got[fileSum(x.data)]) < want[fileSum(x.data)] {
				miss = append(miss, fmt.Sprintf("%q of %s, %d bytes", x.name, x.p.ID.Public.Nick, len(x.data)))
			}
		}
		w.bad("not-received", "%s: not all that was sent in full is in the download directory: %s", name, strings.Join(miss, ", "))
		return
	}
	for _, x := range fair {
		// the name is the one it was sent with, as far as it is free
		hit := false
		for _, n := range got[fileSum(x.data)] {
			if strings.TrimLeft(n, "1") == strings.TrimLeft(filepath.Base(x.name), "1") {
				hit = true
			}
			told := "File transfer complete from: " + x.p.ID.Public.Nick
			if !x.optional && !w.killed && !w.c.wait(10*time.Second, func() bool {
				n := strings.Count(w.c.Console(), told)
				for _, l := range w.c.logsWith(told) {
					n += strings.Count(l, told)
				}
				return n > 0
			}) {
				w.bad("not-told", "%s: the user is not told that a file of %s was received", name, x.p.ID.Public.Nick)
				return
			}
		}
		if !x.optional && !hit {
			w.bad("name", "%s: the file %q was saved under another name: %q", name, x.name, got[fileSum(x.data)])
			return
		}
	}
	w.killed = false
	w.r.Count("received", len(fair))
	w.r.Case(name)
	w.look()
}

func (w *ftworld) data() []byte {
	w.n++
	sizes := []int{0, 1, 2, 511, 512, 513, 999, 1000, 1001, 2000, 3000, 4097, 1 + w.rng.Intn(9000), 20000 + w.rng.Intn(20000)}
	b := randBytes(w.rng, sizes[w.rng.Intn(len(sizes))])
	switch w.rng.Intn(4) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = "text \n"[i%6]
		}
	}
	if len(b) == 0 {
		return b
	}
	// contents differ, a file is told from another by what is in it
	copy(b, fmt.Sprintf("%d-%d\n", w.lane, w.n))
	if len(b) < 12 {
		b = append(b, fmt.Sprintf("%d-%d\n", w.lane, w.n)...)
	}
	return b
}

func (w *ftworld) fairName() string {
	l := []string{"file.txt", "kept", "mine", "1file.txt", "ümlaut", "100%s%n", ".hidden", "...", "a b c", "descriptor.xdr", "descriptor", "-rf",
		strings.Repeat("x", 200), "x.xdr", fmt.Sprintf("f%d", w.n), "~", "$HOME", "*", "con"}
	id := w.peers[w.rng.Intn(3)].ID.Public.Identity
	l = append(l, hex.EncodeToString(id[:]), hex.EncodeToString(randBytes(w.rng, 32)))
	return l[w.rng.Intn(len(l))]
}

func (w *ftworld) chunkSize() int { return []int{100, 500, 1000, 1024, 4096, 10000}[w.rng.Intn(6)] }

func (w *ftworld) peer() *Peer { return w.peers[w.rng.Intn(len(w.peers))] }

// hostile sends something that must not have an effect.
func (w *ftworld) hostile() {
	p := w.peer()
	b := randBytes(w.rng, 50+w.rng.Intn(3000))
	copy(b, fmt.Sprintf("hostile-%d-%d", w.lane, w.n))
	w.n++
	x := w.xfer(p, w.fairName(), b, 1000)
	w.r.Count("hostile", 1)
	kind := w.rng.Intn(11)
	w.note("hostile %d", kind)
	nw, _ := x.msgs[0].(rpc.ChunkNew)
	switch kind {
	case 0: // chunks of a file nobody announced
		for _, m := range x.msgs[1:] {
			w.send(p, m)
		}
	case 1: // content that is not what was announced
		b[w.rng.Intn(len(b))] ^= 1
		for _, m := range x.msgs {
			w.send(p, m)
		}
	case 2: // more than was announced
		nw.Size = uint64(w.rng.Intn(len(b)))
		w.send(p, nw)
		for _, m := range x.msgs[1:] {
			w.send(p, m)
		}
		for i := 0; i < 3; i++ {
			w.send(p, rpc.Chunk{Offset: uint64(len(b) + i*1000), Digest: nw.Digest, Payload: make([]byte, 1000)})
		}
		w.size(p, nw.Digest, int64(nw.Size))
	case 3: // a part is left out
		if len(x.msgs) > 2 {
			i := 1 + w.rng.Intn(len(x.msgs)-1)
			for j, m := range x.msgs {
				if i != j {
					w.send(p, m)
				}
			}
		}
	case 4: // offsets that are out of range
		w.send(p, nw)
		for _, o := range []uint64{1, 1 << 31, 1 << 32, 1 << 62, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 10} {
			w.send(p, rpc.Chunk{Offset: o, Digest: nw.Digest, Payload: b[:10]})
		}
		w.size(p, nw.Digest, int64(nw.Size))
	case 5: // sizes that are out of range
		nw.Size = []uint64{1 << 32, 1 << 62, 1 << 63, ^uint64(0), ^uint64(0) - 1}[w.rng.Intn(5)]
		w.send(p, nw)
		for _, m := range x.msgs[1:] {
			w.send(p, m)
		}
		w.size(p, nw.Digest, int64(len(b)))
	case 6: // empty, but with the digest of something
		nw.Size = 0
		w.send(p, nw)
		w.send(p, rpc.Chunk{Digest: nw.Digest})
	case 7: // announced by one, sent by another
		q := w.peer()
		if p == q {
			return
		}
		w.send(q, nw)
		for _, m := range x.msgs[1:] {
			w.send(p, m)
		}
	case 8: // announced only
		w.send(p, nw)
	case 9: // empty chunks
		w.send(p, nw)
		for i := 0; i < 3; i++ {
			w.send(p, rpc.Chunk{Digest: nw.Digest})
		}
	case 10: // announced twice, with another size
		w.send(p, nw)
		if len(x.msgs) > 2 {
			w.send(p, x.msgs[1])
		}
		nw.Size = uint64(w.rng.Intn(len(b)))
		w.send(p, nw)
		for _, m := range x.msgs[1:] {
			w.send(p, m)
		}
	}
}

// size checks what is stored of a file.
func (w *ftworld) size(p *Peer, d [32]byte, max int64) {
	if w.failed {
		return
	}
	id := p.ID.Public.Identity
	filepath.WalkDir(w.c.path("spool"), func(f string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() || filepath.Base(f) != hex.EncodeToString(d[:]) {
			return nil
		}
		if fi, err := e.Info(); err == nil && fi.Size() > max {
			w.bad("too-much", "a file of %x announced with %d bytes takes %d", id[:4], max, fi.Size())
		}
		return nil
	})
}

func (w *ftworld) episode() {
	switch k := w.rng.Intn(9); k {
	case 0:
		x := w.xfer(w.peer(), w.fairName(), w.data(), w.chunkSize())
		w.run(x)
		w.settle("one file", x)
	case 1, 2:
		var xs []*xfer
		seen := map[string]bool{}
		for i := 2 + w.rng.Intn(4); i > 0; i-- {
			x := w.xfer(w.peer(), w.fairName(), w.data(), w.chunkSize())
			if seen[fileSum(x.data)] {
				continue
			}
			seen[fileSum(x.data)] = true
			xs = append(xs, x)
		}
		w.run(xs...)
		w.settle("files at the same time", xs...)
	case 3:
		var xs []*xfer
		p, n := w.peer(), w.fairName()
		for i := 2 + w.rng.Intn(2); i > 0; i-- {
			d := w.data()
			if len(d) == 0 {
				continue
			}
			xs = append(xs, w.xfer(p, n, d, w.chunkSize()))
		}
		w.run(xs...)
		w.settle("files of one peer with the same name", xs...)
	case 4:
		// given up and sent again
		x := w.xfer(w.peer(), w.fairName(), w.data(), w.chunkSize())
		for i := w.rng.Intn(len(x.msgs)); i > 0; i-- {
			w.step(x)
		}
		if !x.sent {
			x = w.xfer(x.p, x.name, x.data, w.chunkSize())
			w.note("again")
			w.run(x)
		}
		w.settle("a file sent again from the start", x)
	case 5:
		// twice at the same time: at least once it arrives
		d := w.data()
		if len(d) == 0 {
			return
		}
		p, n, c := w.peer(), w.fairName(), w.chunkSize()
		x, y := w.xfer(p, n, d, c), w.xfer(p, n, d, c)
		y.optional = true
		w.run(x, y)
		w.settle("a file sent twice at the same time", x, y)
	case 6, 8:
		// names that are paths, nothing outside of the scratch directory
		// can be reached with them
		d := w.data()
		l := []string{"../canary", "../../canary", "../../../canary", "../../../../canary", "..", ".", "", "/", "//", "../", "mine/kept", "mine/new", "./kept", "sub/dir/x",
			"../myserver/myserver.ini", "../../b/canary", w.c.path("canary"), w.outer + "/evil", "../../evil", "../evil", "x/../../evil", "a\x00b", "..\\evil", "mine/../../evil",
			"../inbound/evil", "../spool/kept", "../../root/canary"}
		x := w.xfer(w.peer(), l[w.rng.Intn(len(l))], d, w.chunkSize())
		x.optional = true
		w.run(x)
		w.r.Count("paths", 1)
		w.settle("a name that is a path", x)
	case 7:
		for i := 1 + w.rng.Intn(3); i > 0; i-- {
			w.hostile()
		}
		w.settle("nothing fair")
	}
}

func p24lane(r *Report, rng *mrand.Rand, lane, steps int) {
	w := newFtworld(r, rng, lane)
	defer w.c.Kill()
	if lane%2 == 0 {
		// nobody's place is taken by the name of a file
		id := w.peers[1].ID.Public.Identity
		x := w.xfer(w.peers[0], hex.EncodeToString(id[:]), w.data(), 1000)
		w.run(x)
		w.settle("a name that is the identity of someone", x)
		x = w.xfer(w.peers[1], "after", w.data(), 1000)
		w.run(x)
		w.settle("the first file of someone", x)
	}
	for i := 0; i < steps && !w.failed && !r.Failed(); i++ {
		w.note("--")
		w.episode()
	}
	if w.failed {
		return
	}
	// the conversations are as good as before
	for _, p := range w.peers {
		t := "still-" + p.ID.Public.Nick + fmt.Sprint(lane)
		if err := p.Send(rpc.PrivateMessage{Text: t}); err != nil || !w.c.wait(10*time.Second, func() bool { return len(w.c.logsWith(t)) == 1 }) {
			w.bad("conversation-lost", "after file transfers a message of %s does not arrive", p.ID.Public.Nick)
		}
	}
}

// p24real has real clients send files to each other.
func p24real(r *Report, rng *mrand.Rand, lane, steps int) {
	b := newBridge(r, "alice", "bob")
	defer func() {
		for _, n := range b.nodes {
			n.c.Kill()
		}
	}()
	chunk := []int{1000, 4096, 65536}[lane%3]
	attach := 20*chunk + 7
	for _, n := range b.nodes {
		n.s.chunk, n.s.attach = uint64(chunk), uint64(attach)
		if int(n.s.msgsize) < 2*chunk {
			n.s.msgsize = uint64(2 * chunk)
		}
	}
	if err := b.start(); err != nil {
		panic(err.Error())
	}
	a, o := b.nodes[0], b.nodes[1]
	a.c.Type("/find bob")
	if !a.c.wait(15*time.Second, func() bool { return a.knows(o) && o.knows(a) }) {
		panic("no exchange")
	}
	w := &rsworld{r: r, rng: rng, b: b, lane: lane, dir: true}
	type file struct {
		from, to *Node
		name     string
		data     []byte
	}
	n := 0
	var hist []string
	mk := func(x, y *Node, size int) file {
		n++
		d := randBytes(rng, size)
		if size > 12 {
			copy(d, fmt.Sprintf("%d-%d-", lane, n))
		} else if size > 0 {
			d = []byte(fmt.Sprintf("%d-%d-", lane, n))
		}
		nm := []string{fmt.Sprintf("f%d", n), "same", "100%d", "ümlaut", ".hid", "no-ext."}[rng.Intn(6)]
		f := file{x, y, nm, d}
		dir := tempDir("send")
		must(os.WriteFile(filepath.Join(dir, nm), d, 0600))
		cmd := "/send " + y.c.Nick + " " + filepath.Join(dir, nm)
		if rng.Intn(2) == 0 {
			cmd += " some description of it"
		}
		hist = append(hist, fmt.Sprintf("%s sends %q %d", x.c.Nick, nm, len(d)))
		if !x.c.Type(cmd) {
			w.bad("dead", "%s takes no command %s", x.c.Nick, x.c.Death())
		}
		return f
	}
	arrives := func(f file, name string) bool {
		ok := f.to.c.wait(25*time.Second, func() bool {
			for _, v := range f.to.c.spooled() {
				if v == fileSum(f.data) {
					return true
				}
			}
			return false
		})
		if !ok {
			w.hist = hist
			w.bad("not-received", "%s: %q with %d bytes that %s sent to %s (chunks of %d) is not in the download directory", name, f.name, len(f.data), f.from.c.Nick, f.to.c.Nick, chunk)
			return false
		}
		r.Count("sent_by_client", 1)
		r.Case("client: " + name)
		return true
	}
	sizes := []int{0, 1, chunk - 1, chunk, chunk + 1, 2 * chunk, attach, attach - 1, 3*chunk + 5, 512}
	for i := 0; i < steps && !w.failed && !r.Failed(); i++ {
		x, y := a, o
		if rng.Intn(2) == 0 {
			x, y = y, x
		}
		switch rng.Intn(5) {
		case 0, 1:
			arrives(mk(x, y, sizes[(i+lane*3)%len(sizes)]), "one file")
		case 2:
			var fs []file
			b.Hold(y, true)
			for j := 2 + rng.Intn(3); j > 0; j-- {
				fs = append(fs, mk(x, y, sizes[1+rng.Intn(len(sizes)-1)]))
			}
			fs = append(fs, mk(y, x, sizes[1+rng.Intn(len(sizes)-1)]))
			b.Hold(y, false)
			for _, f := range fs {
				if !arrives(f, "files at the same time") {
					break
				}
			}
		case 3:
			before := fmt.Sprint(y.c.spooled())
			c0 := strings.Count(x.c.Console(), "file too large")
			mk(x, y, attach+1+rng.Intn(100))
			if !x.c.wait(10*time.Second, func() bool { return strings.Count(x.c.Console(), "file too large") > c0 }) {
				w.hist = hist
				w.bad("not-refused", "a file larger than the server allows is not refused")
			}
			b.quiet(5 * time.Second)
			if now := fmt.Sprint(y.c.spooled()); now != before {
				w.bad("sent-too-large", "a file larger than the server allows arrives")
			}
			r.Case("client: too large")
		case 4:
			// the receiver is stopped in the middle
			b.Hold(y, true)
			f := mk(x, y, 5*chunk+3)
			b.Hold(y, false)
			waitFor(5*time.Second, func() bool { return b.waiting(y) > 2 || b.quiet(400*time.Millisecond) })
			b.Hold(y, true)
			y.c.Kill()
			y.c.MustStart()
			y.s.Conn(20 * time.Second)
			b.Hold(y, false)
			arrives(f, "the receiver starts again in between")
		}
	}
}

func p24(r *Report) {
	r.Rule = "one case per kind of transfer, by peers of the monitor and by real clients"
	for round := 0; round < r.pick(1, 6); round++ {
		var wg sync.WaitGroup
		for l := 0; l < 7; l++ {
			wg.Add(1)
			go func(l int) {
				defer wg.Done()
				defer harness(r)
				rng := mrand.New(mrand.NewSource(r.Seed*1000 + int64(round*7+l)))
				if l < 4 {
					p24lane(r, rng, round*7+l, r.pick(40, 150))
				} else {
					p24real(r, rng, round*7+l, r.pick(10, 40))
				}
			}(l)
		}
		wg.Wait()
	}
	r.Need("received", 60)
	r.Need("hostile", 60)
	r.Need("paths", 5)
	r.Need("sent_by_client", 10)
}

func init() { register("P24", p24) }
