package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	mrand "math/rand"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
)

// P23: nothing a server or a peer sends can crash, hang or take over the
// terminal of the client.

type attack struct {
	name string
	f    func(w *Crowd)
}

func be32(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func cat(b ...[]byte) []byte { return bytes.Join(b, nil) }

// evil are control sequences; none may reach the terminal.
var evil = []string{"\x1b]0;EVIL\x07", "\x1b[6n", "\x1b[?1049l", "\x1bP0;1|17/EVIL\x1b\\", "\x1bc", "\u009b6n", "\u009d0;EVIL\u009c", "\x1b[2;3R", "\x1b[31;6n"}

var evilRe = regexp.MustCompile("\x1b\\]|\x1b\\[[0-9;]*6n|\x1bP|\x1bc|\x1b_|\x1b\\^|\u009b|\u009d|\x1b\\[2;3R|\x07")

func evilText() string { return "A" + strings.Join(evil, "B") + "C" }

// raw group messages and the like that do not decode, by command
var allCRPC = []string{rpc.CRPCCmdPrivateMessage, rpc.CRPCCmdGroupInvite, rpc.CRPCCmdGroupJoin, rpc.CRPCCmdGroupList,
	rpc.CRPCCmdGroupUpdate, rpc.CRPCCmdGroupMessage, rpc.CRPCCmdGroupPart, rpc.CRPCCmdGroupKill, rpc.CRPCCmdGroupKick,
	rpc.CRPCCmdChunkNew, rpc.CRPCCmdChunk, rpc.CRPCCmdJanitorMessage}

func msgSamples(w *Crowd) []any {
	return []any{rpc.PrivateMessage{Text: "x"}, rpc.GroupInvite{Name: "zz", Members: []string{"dave"}, Token: 3, Description: "d", Expires: time.Now().Unix() + 99},
		rpc.GroupJoin{Name: "mine", Token: 2}, rpc.GroupList{Name: "crew", Generation: 9, Members: w.crew.Members},
		rpc.GroupUpdate{Reason: "r", NewGroupList: rpc.GroupList{Name: "crew", Generation: 9, Members: w.crew.Members}},
		rpc.GroupMessage{Name: "crew", Generation: 1, Message: "m"}, rpc.GroupPart{Name: "nope", Reason: "r"},
		rpc.GroupKill{Name: "nope", Reason: "r"}, rpc.GroupKick{Member: pid(w.dave), Reason: "r", NewGroupList: *w.crew},
		rpc.ChunkNew{Size: 3, ChunkSize: 5, Filename: "f", Description: "d", MIME: "text/plain"}, rpc.Chunk{Offset: 0, Payload: []byte("abc")},
		rpc.JanitorMessage{Command: rpc.CRPCJanitorDeleted, Reason: "r"}}
}

func peerAttacks(rng *mrand.Rand, nick string) []attack {
	var a []attack
	add := func(n string, f func(w *Crowd)) { a = append(a, attack{n, f}) }
	raw := func(n string, pt func(w *Crowd) []byte) { add(n, func(w *Crowd) { w.dave.Raw(pt(w)) }) }

	raw("crpc-empty", func(w *Crowd) []byte { return nil })
	raw("crpc-command", func(w *Crowd) []byte { return crpc("nonsense", rpc.CRPCCompNone, []byte("x")) })
	raw("crpc-compression", func(w *Crowd) []byte { return crpc(rpc.CRPCCmdPrivateMessage, "lz5", []byte("x")) })
	for _, cmd := range allCRPC {
		cmd := cmd
		raw(cmd+"-nobody", func(w *Crowd) []byte { return crpc(cmd, rpc.CRPCCompNone, nil) })
		raw(cmd+"-zlib-nobody", func(w *Crowd) []byte { return crpc(cmd, rpc.CRPCCompZLIB, nil) })
		raw(cmd+"-zlib-garbage", func(w *Crowd) []byte { return crpc(cmd, rpc.CRPCCompZLIB, []byte("this is no zlib stream")) })
		raw(cmd+"-zlib-cut", func(w *Crowd) []byte {
			z := zbytes(bytes.Repeat([]byte("abcdefgh"), 500))
			return crpc(cmd, rpc.CRPCCompZLIB, z[:len(z)/2])
		})
		raw(cmd+"-hugelen", func(w *Crowd) []byte {
			return crpc(cmd, rpc.CRPCCompNone, cat(be32(0x7fffffff), make([]byte, 64)))
		})
		raw(cmd+"-garbage", func(w *Crowd) []byte {
			b := make([]byte, 10+rng.Intn(300))
			rng.Read(b)
			return crpc(cmd, rpc.CRPCCompNone, b)
		})
	}
	// lists that claim far more members than they bring
	name := func(n string) []byte { return xdrBytes(n) }
	for _, n := range []uint32{0x7fffffff, 0x10000000, 0xffffffff} {
		n := n
		raw(fmt.Sprintf("grouplist-members-%x", n), func(w *Crowd) []byte {
			return crpc(rpc.CRPCCmdGroupList, rpc.CRPCCompNone, cat(name("crew"), make([]byte, 16), be32(n), make([]byte, 64)))
		})
		raw(fmt.Sprintf("groupinvite-members-%x", n), func(w *Crowd) []byte {
			return crpc(rpc.CRPCCmdGroupInvite, rpc.CRPCCompNone, cat(name("crew"), be32(n), make([]byte, 64)))
		})
		raw(fmt.Sprintf("chunk-payload-%x", n), func(w *Crowd) []byte {
			return crpc(rpc.CRPCCmdChunk, rpc.CRPCCompNone, cat(make([]byte, 40), be32(n), make([]byte, 64)))
		})
	}
	// samples cut short and with changed bytes
	for i := range allCRPC {
		i := i
		add(fmt.Sprintf("mutate-%s", allCRPC[i]), func(w *Crowd) {
			b := xdrBytes(msgSamples(w)[i])
			for k := 0; k < 4 && w.c.Alive(); k++ {
				c := append([]byte(nil), b...)
				if k%2 == 0 && len(c) > 0 {
					c = c[:rng.Intn(len(c))]
				} else if len(c) > 0 {
					c[rng.Intn(len(c))] ^= byte(1 << rng.Intn(8))
				}
				w.dave.Raw(crpc(allCRPC[i], rpc.CRPCCompNone, c))
			}
		})
	}
	send := func(n string, v func(w *Crowd) any) { add(n, func(w *Crowd) { w.dave.Send(v(w)) }) }
	text := map[string]string{
		"empty": "", "nul": "a\x00b", "long": strings.Repeat("long words ", 1500), "noesc": "\x1b", "esc-end": "abc\x1b[", "esc-m": "\x1b[1;;m",
		"esc-big": "\x1b[99999999999999999999999m", "esc-open": "\x1b[31", "utf8": "\xff\xfe\x80", "percent": "%s%n%d%!v(%",
		"wide": strings.Repeat("世界", 400), "newline": "one\ntwo\r\nthree\b\b\b", "bidi": "\u202eabc\u2066",
		"combining": strings.Repeat("a\u0301", 300), "colours": strings.Repeat("\x1b[31mr\x1b[0m", 300),
		"only-colour": strings.Repeat("\x1b[31m", 500), "evil": evilText()}
	for k, t := range text {
		t := t
		send("pm-"+k, func(w *Crowd) any { return rpc.PrivateMessage{Text: t} })
		send("pm-me-"+k, func(w *Crowd) any { return rpc.PrivateMessage{Text: t, Mode: rpc.MessageModeMe} })
		add("gm-"+k, func(w *Crowd) {
			w.carol.Send(rpc.GroupMessage{Name: "crew", Generation: 1, Message: t})
			w.bob.Send(rpc.GroupMessage{Name: "crew", Generation: 1, Message: t, Mode: rpc.MessageModeMe})
		})
		send("janitor-"+k, func(w *Crowd) any { return rpc.JanitorMessage{Command: rpc.CRPCJanitorDeleted, Reason: t} })
		send("janitorcmd-"+k, func(w *Crowd) any { return rpc.JanitorMessage{Command: t} })
		send("invite-"+k, func(w *Crowd) any {
			return rpc.GroupInvite{Name: "n" + t, Members: []string{t, "bob"}, Token: 1, Description: t, Expires: 1}
		})
		send("invitename-"+k, func(w *Crowd) any { return rpc.GroupInvite{Name: t, Members: []string{t}, Token: 1} })
		send("part-"+k, func(w *Crowd) any { return rpc.GroupPart{Name: t, Reason: t} })
		send("kick-"+k, func(w *Crowd) any {
			return rpc.GroupKick{Member: w.me(), Reason: t, NewGroupList: rpc.GroupList{Name: t}}
		})
		send("list-"+k, func(w *Crowd) any { return rpc.GroupList{Name: t, Members: [][32]byte{pid(w.dave), w.me()}} })
		send("update-"+k, func(w *Crowd) any {
			return rpc.GroupUpdate{Reason: t, NewGroupList: rpc.GroupList{Name: t, Members: [][32]byte{pid(w.dave), w.me()}}}
		})
		send("chunknew-"+k, func(w *Crowd) any {
			return rpc.ChunkNew{Size: 1 << 62, ChunkSize: 0, Filename: t, Description: t, MIME: t}
		})
		add("kx-nick-"+k, func(w *Crowd) {
			if len(t) > 5000 {
				return // more than a message may carry
			}
			id, err := zkidentity.New("name"+t, "n"+t)
			if err != nil {
				return
			}
			p := w.s.addPeer(id, &w.c.ID.Public)
			if p.KX() != nil {
				return
			}
			p.Send(rpc.PrivateMessage{Text: "hello from a strange nick"})
			p.Send(rpc.ChunkNew{Size: 1, Filename: "f"})
			w.c.Type("/ab")
		})
	}
	// the own nick in another alphabet, of another length when capitalised
	for i, t := range []string{"ıııı" + nick, strings.Repeat("ı", 40) + nick, nick, strings.ToUpper(nick) + "ß",
		strings.Repeat("\u0250", 30) + nick, strings.Repeat("\u1e9e", 3) + nick, nick[:len(nick)-1], strings.Repeat("ŉ", 20) + strings.ToUpper(nick), "\xff\xff\xff" + nick,
		strings.Repeat("\xff", 9) + nick} {
		t := t
		add(fmt.Sprintf("mention-%d", i), func(w *Crowd) {
			w.carol.Send(rpc.GroupMessage{Name: "crew", Generation: 1, Message: t})
			w.bob.Send(rpc.GroupMessage{Name: "crew", Generation: 1, Message: t})
		})
	}
	// group lists of the administrator that are odd
	lists := map[string]func(w *Crowd) [][32]byte{
		"empty":  func(w *Crowd) [][32]byte { return nil },
		"noself": func(w *Crowd) [][32]byte { return [][32]byte{pid(w.bob), pid(w.carol)} },
		"dup": func(w *Crowd) [][32]byte {
			return [][32]byte{pid(w.bob), w.me(), w.me(), pid(w.carol), pid(w.carol), pid(w.bob)}
		},
		"zero":    func(w *Crowd) [][32]byte { return [][32]byte{pid(w.bob), {}, w.me(), pid(w.carol)} },
		"unknown": func(w *Crowd) [][32]byte { return [][32]byte{pid(w.bob), {1, 2, 3}, w.me(), pid(w.carol)} },
		"many": func(w *Crowd) [][32]byte {
			l := [][32]byte{pid(w.bob), w.me()}
			for i := 0; i < 300; i++ {
				l = append(l, [32]byte{9, byte(i), byte(i >> 8)})
			}
			return l
		},
		"otheradmin": func(w *Crowd) [][32]byte { return [][32]byte{pid(w.carol), w.me(), pid(w.bob)} },
		"onlyme":     func(w *Crowd) [][32]byte { return [][32]byte{w.me()} },
	}
	for k, l := range lists {
		k, l := k, l
		for _, how := range []string{"list", "update", "kick"} {
			how := how
			add("crewlist-"+how+"-"+k, func(w *Crowd) {
				g := "g" + how + k
				if _, err := w.joinCrew(g, w.bob, w.carol); err != nil {
					w.r.Count("join_failed", 1)
					return
				}
				nl := rpc.GroupList{Name: g, Generation: 7, Timestamp: time.Now().Unix(), Members: l(w)}
				switch how {
				case "list":
					w.bob.Send(nl)
				case "update":
					w.bob.Send(rpc.GroupUpdate{NewGroupList: nl})
				case "kick":
					w.bob.Send(rpc.GroupKick{Member: pid(w.carol), NewGroupList: nl})
				}
				// everything that looks at a group afterwards
				w.carol.Send(rpc.GroupMessage{Name: g, Generation: 7, Message: "hi " + nick})
				w.bob.Send(rpc.GroupKick{Member: pid(w.dave), NewGroupList: rpc.GroupList{Name: g, Members: l(w)}})
				w.bob.Send(rpc.GroupPart{Name: g})
				w.bob.Send(rpc.GroupJoin{Name: g, Token: 1})
				w.c.Type("/gc m " + g + " hello there")
				w.c.Type("/list gc " + g)
				w.c.Type("/gc invite " + g + " dave")
				w.c.Type("/gc kick " + g + " carol")
				w.c.Type("/gc part " + g)
				w.bob.Send(rpc.GroupKill{Name: g})
				w.carol.Send(rpc.GroupKill{Name: g})
			})
		}
	}
	for _, n := range []string{"", ".", "..", "../x", "a/b", strings.Repeat("n", 300), "mine", "\x00", "crew\n"} {
		n := n
		add(fmt.Sprintf("groupname-%.8q", n), func(w *Crowd) {
			w.dave.Send(rpc.GroupInvite{Name: n, Members: []string{"dave"}, Token: 55, Expires: time.Now().Unix() + 999})
			w.c.Type("/gc join " + n + " 55")
			w.dave.Send(rpc.GroupList{Name: n, Members: [][32]byte{pid(w.dave), w.me()}})
			w.dave.Send(rpc.GroupMessage{Name: n, Message: "x"})
			w.dave.Send(rpc.GroupKick{Member: w.me(), NewGroupList: rpc.GroupList{Name: n}})
			w.dave.Send(rpc.GroupKill{Name: n})
			w.dave.Send(rpc.GroupJoin{Name: n, Token: 3})
		})
	}
	// transfers
	for _, sz := range []uint64{0, 1, 5, 1 << 40, 1<<64 - 1} {
		sz := sz
		add(fmt.Sprintf("transfer-%d", sz), func(w *Crowd) {
			d := [32]byte{7, byte(sz)}
			w.dave.Send(rpc.ChunkNew{Digest: d, Size: sz, ChunkSize: 1, Filename: "t"})
			w.dave.Send(rpc.Chunk{Digest: d, Offset: 0, Payload: []byte("xy")})
			w.dave.Send(rpc.Chunk{Digest: d, Offset: 1 << 63, Payload: []byte("xy")})
			w.dave.Send(rpc.Chunk{Digest: d, Offset: 2, Payload: nil})
			w.dave.Send(rpc.Chunk{Digest: [32]byte{1}, Offset: 0, Payload: nil})
		})
	}
	// what comes without or before a conversation
	push := func(n string, from func(w *Crowd) [32]byte, clear bool, p func(w *Crowd) []byte) {
		add(n, func(w *Crowd) {
			w.s.push(rpc.Push{From: from(w), Received: time.Now().Unix(), Payload: p(w)}, clear, 20*time.Second)
		})
	}
	stranger := newID("stranger")
	froms := map[string]func(w *Crowd) [32]byte{"zero": func(*Crowd) [32]byte { return [32]byte{} }, "self": func(w *Crowd) [32]byte { return w.me() },
		"stranger": func(*Crowd) [32]byte { return stranger.Public.Identity }, "bob": func(w *Crowd) [32]byte { return pid(w.bob) }}
	for k, f := range froms {
		push("push-nil-"+k, f, false, func(*Crowd) []byte { return nil })
		push("push-short-"+k, f, false, func(*Crowd) []byte { return make([]byte, 23) })
		push("push-garbage-"+k, f, false, func(*Crowd) []byte { b := make([]byte, 3000); rand.Read(b); return b })
		push("push-clear-nil-"+k, f, true, func(*Crowd) []byte { return nil })
		push("push-clear-garbage-"+k, f, true, func(*Crowd) []byte { return bytes.Repeat([]byte{0x7f}, 99) })
		push("push-clear-hugelen-"+k, f, true, func(*Crowd) []byte { return be32(0x7fffffff) })
		push("push-clear-cmd-"+k, f, true, func(*Crowd) []byte { return xdrBytes(rpc.ProxyCmd{Command: 77, Message: evilText()}) })
		if k != "bob" {
			push("push-reset-"+k, f, true, func(*Crowd) []byte {
				return xdrBytes(rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: evilText()})
			})
		}
	}
	push("kx-garbage-inside", froms["stranger"], false, func(w *Crowd) []byte {
		p := &Peer{s: w.s, ID: stranger, them: &w.c.ID.Public}
		return p.exchangePayload(func(k *rpc.IdentityKX) { k.KX.Public = nil })
	})
	push("kx-huge-inside", froms["stranger"], false, func(w *Crowd) []byte {
		p := &Peer{s: w.s, ID: stranger, them: &w.c.ID.Public}
		return p.exchangePayload(func(k *rpc.IdentityKX) { k.Identity.Name = strings.Repeat("x", 70000) })
	})
	push("kx-self-inside", froms["stranger"], false, func(w *Crowd) []byte {
		p := &Peer{s: w.s, ID: stranger, them: &w.c.ID.Public}
		return p.exchangePayload(func(k *rpc.IdentityKX) { k.Identity = w.c.ID.Public })
	})
	return a
}

// rawMsg writes a message to the client and gives it time to be read.
func (w *Crowd) rawMsg(b []byte) {
	if f := w.s.Conn(5 * time.Second); f != nil {
		f.write(b)
	}
	time.Sleep(60 * time.Millisecond)
}

func serverAttacks(rng *mrand.Rand) []attack {
	var a []attack
	add := func(n string, f func(w *Crowd)) { a = append(a, attack{n, f}) }
	msg := func(n, cmd string, tag uint32, v any) {
		add(n, func(w *Crowd) { w.rawMsg(encMsg(rpc.Message{Command: cmd, Tag: tag}, v)) })
	}
	for _, tag := range []uint32{0, 9, 10, 11, 1 << 31, 1<<32 - 1} {
		t := fmt.Sprintf("-tag%d", tag)
		msg("ack"+t, rpc.TaggedCmdAcknowledge, tag, rpc.Acknowledge{})
		msg("ackerr"+t, rpc.TaggedCmdAcknowledge, tag, rpc.Acknowledge{Error: "bad " + evilText(), ErrorCode: rpc.ErrorCodeUserDisabled})
		msg("pong"+t, rpc.TaggedCmdPong, tag, rpc.Pong{})
		msg("rdvreply"+t, rpc.TaggedCmdRendezvousReply, tag, rpc.RendezvousReply{Token: evilText(), Error: ""})
		msg("rdverr"+t, rpc.TaggedCmdRendezvousReply, tag, rpc.RendezvousReply{Error: evilText()})
		msg("pullerr"+t, rpc.TaggedCmdRendezvousPullReply, tag, rpc.RendezvousPullReply{Error: evilText()})
		msg("findreply"+t, rpc.TaggedCmdIdentityFindReply, tag, rpc.IdentityFindReply{Nick: "zed", Error: evilText()})
		msg("findempty"+t, rpc.TaggedCmdIdentityFindReply, tag, rpc.IdentityFindReply{})
		msg("proxyreply"+t, rpc.TaggedCmdProxyReply, tag, rpc.ProxyReply{Error: evilText()})
		msg("push"+t, rpc.TaggedCmdPush, tag, rpc.Push{From: [32]byte{1}, Received: -1 << 62, Payload: []byte("x")})
	}
	for _, cmd := range []string{"", "nope", evilText(), rpc.TaggedCmdPing, rpc.TaggedCmdCache, rpc.SessionCmdWelcome, rpc.SessionCmdUnwelcome} {
		msg(fmt.Sprintf("cmd-%.12q", cmd), cmd, 3, rpc.Acknowledge{Error: "x"})
	}
	for _, cmd := range []string{rpc.TaggedCmdPong, rpc.TaggedCmdPush, rpc.TaggedCmdAcknowledge, rpc.TaggedCmdRendezvousReply,
		rpc.TaggedCmdRendezvousPullReply, rpc.TaggedCmdIdentityFindReply, rpc.TaggedCmdProxyReply} {
		cmd := cmd
		add("cut-"+cmd, func(w *Crowd) { w.rawMsg(xdrBytes(rpc.Message{Command: cmd, Tag: 1})) })
		add("hugelen-"+cmd, func(w *Crowd) {
			w.rawMsg(cat(xdrBytes(rpc.Message{Command: cmd, Tag: 1}), be32(0x7fffffff), be32(0x7fffffff)))
		})
		add("garbage-"+cmd, func(w *Crowd) {
			b := make([]byte, 200)
			rng.Read(b)
			w.rawMsg(cat(xdrBytes(rpc.Message{Command: cmd, Tag: 1}), b))
		})
	}
	add("noheader", func(w *Crowd) { w.rawMsg([]byte{1, 2, 3}) })
	add("emptymsg", func(w *Crowd) { w.rawMsg(nil) })
	add("hugemsg", func(w *Crowd) { w.rawMsg(make([]byte, 30<<20)) })
	add("rawbytes", func(w *Crowd) {
		if f := w.s.Conn(time.Second); f != nil {
			b := make([]byte, 4000)
			rng.Read(b)
			f.kx.Conn.Write(b)
		}
		time.Sleep(50 * time.Millisecond)
	})
	add("drop", func(w *Crowd) { w.s.Drop(); time.Sleep(50 * time.Millisecond) })
	for i := 0; i < 3; i++ {
		add(fmt.Sprintf("drop-while-sending-%d", i), func(w *Crowd) {
			for k := 0; k < 6; k++ {
				go w.c.Keys("/m dave filler\r")
				if k == 3 {
					go w.s.Drop()
				}
			}
			time.Sleep(100 * time.Millisecond)
			w.c.typeMu.Lock()
			w.c.Keys("\r")
			time.Sleep(50 * time.Millisecond)
			w.c.resync()
			w.c.typeMu.Unlock()
		})
	}
	// the answer to /find is about someone else, or rubbish
	for i, v := range []func(w *Crowd) rpc.IdentityFindReply{
		func(w *Crowd) rpc.IdentityFindReply { return rpc.IdentityFindReply{Nick: "zed"} },
		func(w *Crowd) rpc.IdentityFindReply {
			return rpc.IdentityFindReply{Nick: "zed", Identity: w.c.ID.Public}
		},
		func(w *Crowd) rpc.IdentityFindReply {
			return rpc.IdentityFindReply{Nick: "zed", Identity: w.dave.ID.Public}
		},
		func(w *Crowd) rpc.IdentityFindReply { return rpc.IdentityFindReply{Error: evilText()} },
		func(w *Crowd) rpc.IdentityFindReply { return rpc.IdentityFindReply{Nick: evilText(), Error: "no"} },
	} {
		v := v
		add(fmt.Sprintf("find-%d", i), func(w *Crowd) {
			w.s.mu.Lock()
			w.s.onOther = func(f *FConn, m rpc.Message, _ []byte) bool {
				if m.Command != rpc.TaggedCmdIdentityFind {
					return false
				}
				f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdIdentityFindReply, Tag: m.Tag}, v(w)))
				return true
			}
			w.s.mu.Unlock()
			w.c.Type(fmt.Sprintf("/find zed%d", i))
			time.Sleep(80 * time.Millisecond)
			w.s.mu.Lock()
			w.s.onOther = nil
			w.s.mu.Unlock()
		})
	}
	// answers to a fetch: the accept window opens
	blobs := map[string][]byte{"nil": nil, "short": make([]byte, 10), "garbage": bytes.Repeat([]byte{5}, 500), "text": []byte(evilText())}
	for k, b := range blobs {
		k, b := k, b
		add("fetch-"+k, func(w *Crowd) {
			w.s.mu.Lock()
			w.s.blobs["1234"+k] = b
			w.s.mu.Unlock()
			w.c.Type("/fetch 1234" + k)
			time.Sleep(100 * time.Millisecond)
			w.c.Keys("secret\r")
			time.Sleep(1500 * time.Millisecond)
			w.c.Keys("\x1b[21~")
			time.Sleep(50 * time.Millisecond)
			w.c.typeMu.Lock()
			w.c.resync()
			w.c.typeMu.Unlock()
		})
	}
	add("fetch-unasked", func(w *Crowd) {
		w.rawMsg(encMsg(rpc.Message{Command: rpc.TaggedCmdRendezvousPullReply, Tag: 1}, rpc.RendezvousPullReply{Blob: []byte("x"), Token: "1"}))
		w.c.Keys("\x1b[21~")
		time.Sleep(50 * time.Millisecond)
		w.c.typeMu.Lock()
		w.c.resync()
		w.c.typeMu.Unlock()
	})
	return a
}

// resync counts the commands the client has taken.
func (c *Cli) resync() {
	time.Sleep(30 * time.Millisecond)
	c.typed = bytes.Count([]byte(c.history()), []byte("\n"))
}

// welcomeAttacks are things a server does instead of a proper welcome.
func welcomeAttacks(rng *mrand.Rand) []attack {
	var a []attack
	add := func(n string, f func(k *session.KX) bool) {
		a = append(a, attack{"welcome-" + n, func(w *Crowd) {
			w.s.mu.Lock()
			w.s.welcome = f
			w.s.mu.Unlock()
			w.s.Drop()
			w.c.wait(3*time.Second, func() bool { return !strings.HasSuffix(w.c.Console(), "x") && w.s.Conn(0) == nil })
			w.c.Type("/online")
			time.Sleep(150 * time.Millisecond)
			// a client that accepted it goes on working with it
			if w.s.Conn(0) != nil {
				w.c.Type("/m dave in the strange session")
				w.c.Type("/send dave " + w.c.path("zkclient.conf") + " x")
				w.c.Type("/find nobody")
				time.Sleep(100 * time.Millisecond)
			}
			w.s.mu.Lock()
			w.s.welcome = nil
			w.s.mu.Unlock()
			w.s.Drop()
			time.Sleep(100 * time.Millisecond)
		}})
	}
	raw := func(n string, b []byte) {
		add(n, func(k *session.KX) bool { k.Write(b); time.Sleep(20 * time.Millisecond); return false })
	}
	raw("empty", nil)
	raw("garbage", bytes.Repeat([]byte{9}, 100))
	raw("othercmd", encMsg(rpc.Message{Command: rpc.TaggedCmdPong}, rpc.Pong{}))
	raw("cut", xdrBytes(rpc.Message{Command: rpc.SessionCmdWelcome}))
	raw("hugeprops", cat(xdrBytes(rpc.Message{Command: rpc.SessionCmdWelcome}), make([]byte, 12), be32(0x7fffffff)))
	raw("hugeprops2", cat(xdrBytes(rpc.Message{Command: rpc.SessionCmdWelcome}), make([]byte, 12), be32(0x08000000)))
	add("hangup", func(k *session.KX) bool { return false })
	prop := func(n string, ch map[string]string) {
		add("prop-"+n, func(k *session.KX) bool {
			def := map[string]string{rpc.PropTagDepth: "10", rpc.PropMaxAttachmentSize: "1000000", rpc.PropMaxChunkSize: "1000",
				rpc.PropMaxMsgSize: "270000", rpc.PropServerTime: "1600000000", rpc.PropDirectory: "true"}
			for k, v := range ch {
				def[k] = v
			}
			var ps []rpc.ServerProperty
			for k, v := range def {
				if v != "-" {
					ps = append(ps, rpc.ServerProperty{Key: k, Value: v})
				}
			}
			return k.Write(encMsg(rpc.Message{Command: rpc.SessionCmdWelcome}, rpc.Welcome{Version: rpc.ProtocolVersion, Properties: ps})) == nil
		})
	}
	for _, v := range []string{"0", "-1", "-2", "-9223372036854775808", "1", "11", "9223372036854775807", "x", "", "-"} {
		prop("tagdepth"+v, map[string]string{rpc.PropTagDepth: v})
	}
	for _, v := range []string{"0", "1", "9223372036854775807", "18446744073709551615", "4611686018427387904", "x", "-"} {
		prop("chunk"+v, map[string]string{rpc.PropMaxChunkSize: v, rpc.PropMaxMsgSize: "18446744073709551615"})
		prop("attach"+v, map[string]string{rpc.PropMaxAttachmentSize: v})
		prop("msg"+v, map[string]string{rpc.PropMaxMsgSize: v})
		prop("time"+v, map[string]string{rpc.PropServerTime: v})
		prop("dir"+v, map[string]string{rpc.PropDirectory: v})
	}
	prop("unknown", map[string]string{evilText(): evilText()})
	prop("motd", map[string]string{rpc.PropMOTD: evilText() + "\n%s\n\n" + strings.Repeat("x\n", 100)})
	add("version", func(k *session.KX) bool {
		k.Write(encMsg(rpc.Message{Command: rpc.SessionCmdWelcome}, rpc.Welcome{Version: 999}))
		return false
	})
	return a
}

func p23(r *Report) {
	r.Level = "exploration"
	r.Rule = "one case per hostile message; distinct by attack; every one followed by a liveness probe"
	nick := "alice"
	lanes := 6
	build := func(rng *mrand.Rand) [][]attack {
		all := peerAttacks(rng, nick)
		all = append(all, serverAttacks(rng)...)
		wa := welcomeAttacks(rng)
		rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		rng.Shuffle(len(wa), func(i, j int) { wa[i], wa[j] = wa[j], wa[i] })
		l := make([][]attack, lanes)
		for i, x := range all {
			l[i%lanes] = append(l[i%lanes], x)
		}
		for i, x := range wa {
			l[i%lanes] = append(l[i%lanes], x)
		}
		return l
	}
	for round := 0; round < r.pick(1, 6); round++ {
		ls := build(mrand.New(mrand.NewSource(r.Seed*100 + int64(round))))
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			p23stall(r)
		}()
		for li, l := range ls {
			wg.Add(1)
			go func(li int, l []attack) {
				defer wg.Done()
				var w *Crowd
				fails := 0
				for i, at := range l {
					if fails > 25 {
						return
					}
					if w == nil {
						var err error
						if w, err = newCrowd(r, nick); err != nil {
							r.Inconclusive("the crowd does not come up: %v", err)
							return
						}
						if err = w.probe(true); err != nil {
							r.Inconclusive("the probe fails before any attack: %v", err)
							return
						}
					}
					func() {
						defer func() {
							if e := recover(); e != nil {
								r.Inconclusive("%s: harness: %v", at.name, e)
							}
						}()
						at.f(w)
					}()
					err := w.probe(i%4 == 0 || strings.HasPrefix(at.name, "welcome") || strings.HasPrefix(at.name, "crewlist"))
					r.Case(at.name)
					r.Count("attacks", 1)
					if m := evilRe.FindString(w.c.Screen()); m != "" {
						r.Violate("terminal:"+at.name, fmt.Sprintf("%s: the client wrote the control sequence %q of the sender to the terminal", at.name, m), nil)
						err = fmt.Errorf("x")
					} else if err != nil {
						r.Violate("crash:"+at.name, at.name+": "+err.Error(), nil)
					}
					if err != nil {
						fails++
						w.c.Kill()
						w = nil
					}
				}
				if w != nil {
					if err := w.probe(true); err != nil {
						r.Violate("crash:end", err.Error(), nil)
					}
					if !w.c.Quit() {
						r.Violate("quit", "the client does not quit after the attacks", nil)
					}
				}
			}(li, l)
		}
		wg.Wait()
	}
	r.Need("attacks", 300)
}

// p23stall: a server that accepts and then says nothing.
func p23stall(r *Report) {
	w := &Crowd{r: r, s: newFSrv(r)}
	w.c = w.s.newClient("alice")
	w.c.MustStart()
	if w.s.Conn(20*time.Second) == nil {
		r.Inconclusive("stall: the client does not connect")
		return
	}
	stop := make(chan struct{})
	w.s.mu.Lock()
	w.s.welcome = func(*session.KX) bool { <-stop; return false }
	w.s.mu.Unlock()
	w.s.Drop()
	time.Sleep(200 * time.Millisecond)
	w.c.Keys("/online\r")
	time.Sleep(300 * time.Millisecond)
	w.c.Keys("/help\r")
	ok := w.c.wait(45*time.Second, func() bool { return strings.Contains(w.c.history(), "/help") })
	r.Case("stalled-server")
	if !ok {
		r.Violate("hang:stalled-server", "the client takes no command for 45 s while the server is silent during the connection setup", nil)
	}
	close(stop)
}

func init() { register("P23", p23) }
