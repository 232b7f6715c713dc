package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"

	"github.com/companyzero/zkc/zkidentity"
	"golang.org/x/crypto/ed25519"
)

func init() { register("P08", p08) }

func idDigest(p *zkidentity.PublicIdentity) [32]byte {
	d := sha256.New()
	d.Write([]byte(p.Name))
	d.Write([]byte(p.Nick))
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	var o [32]byte
	copy(o[:], d.Sum(nil))
	return o
}

func p08(r *Report) {
	r.Rule = "a case is one identity with one alteration (or one hostile byte string); non-trivial when the unaltered identity was accepted before"
	r.Need("accepted", 20)
	r.Need("refused", 1500)
	names := []string{"", "a", "Alice", "Bob Example", strings.Repeat("n", 500), "näme", "\x00", "x\ny", "ab", "abc"}
	n := r.pick(10, 40)
	type who struct {
		f *zkidentity.FullIdentity
	}
	ids := make([]*zkidentity.FullIdentity, n)
	parallel(n, 8, func(i int) {
		rg := sub(r.Seed, "id", i)
		f, err := zkidentity.New(names[rg.Intn(len(names))], names[rg.Intn(len(names))])
		must(err)
		ids[i] = f
	})
	seen := map[[32]byte]bool{}
	for _, f := range ids {
		if seen[f.Public.Identity] {
			r.Violate("identity-collision", "two new identities are the same", nil)
		}
		seen[f.Public.Identity] = true
		if f.Public.Identity != sha256.Sum256(f.Public.Key[:]) {
			r.Violate("identity-not-key-hash", "identity is not the hash of its key", nil)
		}
		if s := f.Public.Fingerprint(); s != hex.EncodeToString(f.Public.Identity[:]) || f.Public.String() != s || zkidentity.Fingerprint(f.Public.Identity) != s {
			r.Violate("fingerprint", "fingerprint is not the identity", s)
		}
		if p, err := zkidentity.String2ID(f.Public.String()); err != nil || *p != f.Public.Identity {
			r.Violate("string2id", fmt.Sprintf("does not invert String: %v", err), nil)
		}
	}
	for _, s := range []string{"", "0", "zz", strings.Repeat("0", 62), strings.Repeat("0", 63), strings.Repeat("0", 66), strings.Repeat("g", 64), strings.Repeat("0", 64) + "\n"} {
		r.Guard("panic-string2id", s, func() {
			if _, err := zkidentity.String2ID(s); err == nil {
				r.Violate("string2id-accepts", "malformed identity accepted", s)
			}
			r.Case("s2id" + s)
		})
	}
	parallel(n, 8, func(i int) {
		f := ids[i]
		rg := sub(r.Seed, "mut", i)
		other := ids[(i+1)%n]
		// round trips
		b, err := f.Public.Marshal()
		if err != nil {
			r.Violate("marshal-failed", err.Error(), nil)
			return
		}
		p, err := zkidentity.UnmarshalPublicIdentity(b)
		if err != nil || *p != f.Public {
			r.Violate("roundtrip-public", fmt.Sprintf("err %v", err), f.Public)
			return
		}
		fb, err := f.Marshal()
		if err != nil {
			r.Violate("marshal-failed", err.Error(), nil)
			return
		}
		f2, err := zkidentity.UnmarshalFullIdentity(fb)
		if err != nil || *f2 != *f {
			r.Violate("roundtrip-full", fmt.Sprintf("err %v", err), nil)
			return
		}
		r.Count("accepted", 2)
		// signatures
		for k := 0; k < r.pick(25, 120); k++ {
			m := randBytes(rg, []int{0, 1, 32, 33, 64, 1000}[rg.Intn(6)])
			s := f2.SignMessage(m)
			if !f.Public.VerifyMessage(m, s) {
				r.Violate("own-signature-refused", fmt.Sprintf("message of %d bytes", len(m)), nil)
			}
			r.Count("accepted", 1)
			if !ed25519.Verify(f.Public.SigKey[:], m, s[:]) {
				r.Violate("not-ed25519", "the signature is not one of the published key", nil)
			}
			bad := 0
			chk := func(ok bool, sig string) {
				bad++
				if ok {
					r.Violate(sig, "accepted", map[string]any{"len": len(m)})
				}
			}
			chk(other.Public.VerifyMessage(m, s), "other-signer-accepted")
			s2 := s
			s2[rg.Intn(64)] ^= 1 << uint(rg.Intn(8))
			chk(f.Public.VerifyMessage(m, s2), "altered-signature-accepted")
			chk(f.Public.VerifyMessage(append(append([]byte(nil), m...), 0), s), "altered-message-accepted")
			if len(m) > 0 {
				m2 := append([]byte(nil), m...)
				m2[rg.Intn(len(m))] ^= 1 << uint(rg.Intn(8))
				chk(f.Public.VerifyMessage(m2, s), "altered-message-accepted")
				chk(f.Public.VerifyMessage(m[:len(m)-1], s), "altered-message-accepted")
				// last byte only, beyond any fixed-size prefix
				m3 := append([]byte(nil), m...)
				m3[len(m)-1] ^= 0x80
				chk(f.Public.VerifyMessage(m3, s), "altered-message-accepted")
			}
			chk(f.Public.VerifyMessage(m, [64]byte{}), "zero-signature-accepted")
			r.Count("refused", bad)
			r.Case(fmt.Sprintf("sig-%d-%d", i, k))
		}
		// field alterations by someone without the private key, who may
		// recompute the digest
		mut := map[string]func(q *zkidentity.PublicIdentity, rg *rand.Rand){
			"name-append": func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Name += "x" },
			"name-set":    func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Name = "Mallory" },
			"nick-append": func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Nick += "_" },
			"nick-set":    func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Nick = "mallory" },
			"nick-nul":    func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Nick += "\x00" },
			"sigkey-bit": func(q *zkidentity.PublicIdentity, g *rand.Rand) {
				q.SigKey[g.Intn(32)] ^= 1 << uint(g.Intn(8))
			},
			"sigkey-other": func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.SigKey = other.Public.SigKey },
			"key-bit":      func(q *zkidentity.PublicIdentity, g *rand.Rand) { q.Key[g.Intn(len(q.Key))] ^= 1 << uint(g.Intn(8)) },
			"key-first":    func(q *zkidentity.PublicIdentity, g *rand.Rand) { q.Key[0] ^= 1 },
			"key-last":     func(q *zkidentity.PublicIdentity, g *rand.Rand) { q.Key[len(q.Key)-1] ^= 1 },
			"key-other": func(q *zkidentity.PublicIdentity, _ *rand.Rand) {
				q.Key = other.Public.Key
			},
			"key-identity-other": func(q *zkidentity.PublicIdentity, _ *rand.Rand) {
				q.Key = other.Public.Key
				q.Identity = other.Public.Identity
			},
			"identity-bit":   func(q *zkidentity.PublicIdentity, g *rand.Rand) { q.Identity[g.Intn(32)] ^= 1 << uint(g.Intn(8)) },
			"identity-other": func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Identity = other.Public.Identity },
			"digest-bit":     func(q *zkidentity.PublicIdentity, g *rand.Rand) { q.Digest[g.Intn(32)] ^= 1 << uint(g.Intn(8)) },
			"digest-last":    func(q *zkidentity.PublicIdentity, g *rand.Rand) { q.Digest[31] ^= 1 },
			"digest-other":   func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Digest = other.Public.Digest },
			"digest-zero":    func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Digest = [32]byte{} },
			"sig-bit":        func(q *zkidentity.PublicIdentity, g *rand.Rand) { q.Signature[g.Intn(64)] ^= 1 << uint(g.Intn(8)) },
			"sig-other":      func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Signature = other.Public.Signature },
			"sig-zero":       func(q *zkidentity.PublicIdentity, _ *rand.Rand) { q.Signature = [64]byte{} },
			"sig-digest-other": func(q *zkidentity.PublicIdentity, _ *rand.Rand) {
				q.Signature, q.Digest = other.Public.Signature, other.Public.Digest
			},
			"all-but-names-other": func(q *zkidentity.PublicIdentity, _ *rand.Rand) {
				a, b := q.Name, q.Nick
				*q = other.Public
				q.Name, q.Nick = a+"1", b
			},
		}
		try := func(sig string, q zkidentity.PublicIdentity) {
			if q == f.Public || q == other.Public {
				return
			}
			for v := 0; v < 2; v++ {
				m := q
				if v == 1 {
					m.Digest = idDigest(&m)
				}
				if m == f.Public || m == other.Public {
					continue
				}
				mb, err := m.Marshal()
				if err != nil {
					continue
				}
				r.Guard("panic-unmarshal", sig, func() {
					_, err := zkidentity.UnmarshalPublicIdentity(mb)
					if err == nil {
						r.Violate(sig, "altered public identity accepted by unmarshalling", map[string]any{"name": m.Name, "nick": m.Nick, "digest_recomputed": v == 1})
					}
					if m.Verify() {
						r.Violate(sig, "altered public identity verifies", map[string]any{"name": m.Name, "nick": m.Nick, "digest_recomputed": v == 1})
					}
				})
				r.Count("refused", 1)
				r.Case(fmt.Sprintf("%s-%d-%d-%x", sig, v, i, m.Digest[:4]))
			}
		}
		for k, fn := range mut {
			for j := 0; j < r.pick(3, 20); j++ {
				q := f.Public
				fn(&q, rg)
				try("altered-"+k, q)
			}
		}
		// moving bytes between name and nick keeps their concatenation
		if all := f.Public.Name + f.Public.Nick; len(all) > 0 {
			for j := 0; j < 3; j++ {
				cut := rg.Intn(len(all) + 1)
				if cut == len(f.Public.Name) {
					continue
				}
				q := f.Public
				q.Name, q.Nick = all[:cut], all[cut:]
				try("name-nick-boundary", q)
			}
		}
		// an attacker with own signing keys claims the victim's identity
		att := other
		q := zkidentity.FullIdentity{Public: f.Public, PrivateSigKey: att.PrivateSigKey, PrivateKey: att.PrivateKey}
		q.Public.SigKey = att.Public.SigKey
		// (a) victim's handle and the attacker's encryption key, re-signed
		q.Public.Key = att.Public.Key
		q.Public.Digest = idDigest(&q.Public)
		copy(q.Public.Signature[:], ed25519.Sign(att.PrivateSigKey[:], q.Public.Digest[:]))
		qb, _ := q.Public.Marshal()
		r.Count("refused", 1)
		if _, err := zkidentity.UnmarshalPublicIdentity(qb); err == nil || q.Public.Verify() {
			r.Violate("identity-handle-stolen", "the identifier of one user was accepted with the encryption key of another", nil)
		}
		// (b) the rebuilt identity of an honest rename still verifies
		ren := *f2
		ren.Public.Nick = "renamed"
		if err := ren.RecalculateDigest(); err != nil || !ren.Public.Verify() {
			r.Violate("rename-refused", fmt.Sprintf("renaming with the private key: %v", err), nil)
		}
		// bit flips and cuts of the wire form
		for k := 0; k < r.pick(120, 1500); k++ {
			m := append([]byte(nil), b...)
			bit := rg.Intn(len(m) * 8)
			m[bit/8] ^= 1 << uint(bit%8)
			// a length prefix flip would only ask for a huge allocation
			if m[0] != 0 || bit/8 == 4+(len(f.Public.Name)+3)/4*4 {
				continue
			}
			r.Guard("panic-unmarshal", hex.EncodeToString(m[:16]), func() {
				p, err := zkidentity.UnmarshalPublicIdentity(m)
				r.Count("refused", 1)
				if err == nil && *p != f.Public {
					sig := "altered-wire"
					if p.Name+p.Nick == f.Public.Name+f.Public.Nick && p.SigKey == f.Public.SigKey && p.Key == f.Public.Key {
						sig = "name-nick-boundary"
					}
					r.Violate(sig, fmt.Sprintf("bit %d of the wire form flipped, accepted", bit), nil)
				}
				r.Case(fmt.Sprintf("flip-%d-%d", i, bit))
			})
		}
		for k := 0; k < r.pick(40, 300); k++ {
			cut := rg.Intn(len(b))
			r.Guard("panic-unmarshal", cut, func() {
				if _, err := zkidentity.UnmarshalPublicIdentity(b[:cut]); err == nil {
					r.Violate("truncated-accepted", fmt.Sprintf("cut to %d of %d", cut, len(b)), nil)
				}
				cut = rg.Intn(len(fb))
				if _, err := zkidentity.UnmarshalFullIdentity(fb[:cut]); err == nil {
					r.Violate("truncated-accepted", fmt.Sprintf("full identity cut to %d of %d", cut, len(fb)), nil)
				}
				g := randBytes(rg, rg.Intn(400))
				if len(g) > 2 {
					g[0], g[1] = 0, 0
				}
				if _, err := zkidentity.UnmarshalPublicIdentity(g); err == nil {
					r.Violate("garbage-accepted", "random bytes accepted", hex.EncodeToString(g))
				}
				r.Count("refused", 3)
				r.Case(fmt.Sprintf("cut-%d-%d", i, k))
			})
		}
		// a full identity whose private signing key is not the published one
		// must not be able to re-sign
		mix := *f2
		mix.PrivateSigKey = other.PrivateSigKey
		mix.Public.Nick = "x"
		if err := mix.RecalculateDigest(); err == nil {
			r.Violate("mismatched-key-signs", "an identity with foreign signing key was accepted", nil)
		}
		if !bytes.Equal(fb, func() []byte { x, _ := f2.Marshal(); return x }()) {
			r.Violate("marshal-unstable", "marshalling twice differs", nil)
		}
		if i == 0 {
			r.Sample(map[string]any{"name": f.Public.Name, "nick": f.Public.Nick, "wire_bytes": len(b)})
		}
	})
}
