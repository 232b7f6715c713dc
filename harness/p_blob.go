package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/companyzero/zkc/blobshare"
	"golang.org/x/crypto/nacl/secretbox"
	"golang.org/x/crypto/scrypt"
)

func init() { register("P07", p07) }

// samePassword tells whether HMAC, on which the key derivation is built,
// cannot tell a and b apart.
func samePassword(a, b []byte) bool {
	if len(a) > 64 || len(b) > 64 {
		return len(a) > 64 == (len(b) > 64) && bytes.Equal(a, b)
	}
	var x, y [64]byte
	copy(x[:], a)
	copy(y[:], b)
	return x == y
}

func p07(r *Report) {
	r.Rule = "a case seals generated data under a generated password and attacks the packed result; it is non-trivial when the genuine opening was observed to succeed first"
	r.Need("opened", 50)
	r.Need("refused", 2000)
	blobshare.SetNrp(256, 8, 1)
	var (
		mu     sync.Mutex
		nonces = map[[24]byte]bool{}
		salts  = map[[32]byte]bool{}
	)
	fresh := func(salt *[32]byte, nonce *[24]byte) {
		mu.Lock()
		defer mu.Unlock()
		if salt != nil {
			if salts[*salt] || *salt == [32]byte{} {
				r.Violate("salt-reuse", "a salt was handed out twice", hex.EncodeToString(salt[:]))
			}
			salts[*salt] = true
		}
		if nonce != nil {
			if nonces[*nonce] || *nonce == [24]byte{} {
				r.Violate("nonce-reuse", "a nonce was used twice", hex.EncodeToString(nonce[:]))
			}
			nonces[*nonce] = true
		}
	}
	sizes := []int{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 1000, 4096, 65535, 65536, 300000}
	passes := [][]byte{nil, {}, []byte("a"), []byte("pässwörd"), bytes.Repeat([]byte("x"), 64), bytes.Repeat([]byte("x"), 65), bytes.Repeat([]byte{0xff}, 1000), {1, 0, 2}}
	n := r.pick(160, 2500)
	parallel(n, 8, func(c int) {
		rg := sub(r.Seed, "blob", c)
		data := randBytes(rg, sizes[rg.Intn(len(sizes))])
		if rg.Intn(4) == 0 {
			data = bytes.Repeat([]byte{byte(rg.Intn(3))}, len(data))
		}
		// part of a larger buffer of the caller, as a slice of a message is
		buf := append(append(make([]byte, 0, len(data)+64), data...), bytes.Repeat([]byte{0xa5}, 64)...)
		if c%2 == 0 {
			data = buf[:len(data)]
		}
		bufo := append([]byte(nil), buf...)
		orig := append([]byte(nil), data...)
		pw := passes[rg.Intn(len(passes))]
		if rg.Intn(3) == 0 {
			pw = randBytes(rg, rg.Intn(80))
		}
		pwo := append([]byte(nil), pw...)
		w := map[string]any{"case": c, "size": len(data), "password": hex.EncodeToString(pw)}
		r.Guard("panic-honest", w, func() {
			key, salt, err := blobshare.NewKey(pw)
			if err != nil {
				r.Violate("newkey-failed", err.Error(), w)
				return
			}
			fresh(salt, nil)
			// independent derivation
			want, _ := scrypt.Key(pw, salt[:], 256, 8, 1, 32)
			if !bytes.Equal(want, key[:]) {
				r.Violate("key-derivation", "the key is not the one scrypt derives from password and salt", w)
			}
			k2, err := blobshare.DeriveKey(pw, salt)
			if err != nil || *k2 != *key {
				r.Violate("derive-differs", fmt.Sprintf("deriving the key again gave another key, err %v", err), w)
				return
			}
			enc, nonce, err := blobshare.Encrypt(data, key)
			if err != nil {
				r.Violate("encrypt-failed", err.Error(), w)
				return
			}
			fresh(nil, nonce)
			if !bytes.Equal(data, orig) || !bytes.Equal(pw, pwo) || !bytes.Equal(buf, bufo) {
				r.Violate("input-modified", "sealing modified its input or what follows it", w)
				return
			}
			{ // opening leaves the sealed bytes alone, genuine or not
				sealed := append(append(make([]byte, 0, len(enc)+64), enc...), bytes.Repeat([]byte{0x5a}, 64)...)
				so := append([]byte(nil), sealed...)
				blobshare.Decrypt(key, nonce, sealed[:len(enc)])
				wrong := *key
				wrong[c%32] ^= 1
				blobshare.Decrypt(&wrong, nonce, sealed[:len(enc)])
				if !bytes.Equal(so, sealed) {
					r.Violate("input-modified", "opening modified its input or what follows it", w)
				}
			}
			if len(data) >= 16 && bytes.Contains(enc, data) {
				r.Violate("plaintext-visible", "the sealed blob contains the data", w)
			}
			if p, ok := secretbox.Open(nil, enc, nonce, key); !ok || !bytes.Equal(p, data) {
				r.Violate("not-secretbox", "the sealed blob does not open with the documented construction", w)
			}
			enc2, nonce2, err := blobshare.Encrypt(data, key)
			if err != nil {
				r.Violate("encrypt-failed", err.Error(), w)
				return
			}
			fresh(nil, nonce2)
			if bytes.Equal(enc, enc2) {
				r.Violate("deterministic-seal", "sealing twice gave the same bytes", w)
			}
			packed := blobshare.PackSaltNonce(salt, nonce, enc)
			packed2 := blobshare.PackNonce(nonce, enc)
			if len(packed) != 56+len(enc) || len(packed2) != 24+len(enc) {
				r.Violate("pack-length", "packing loses or adds bytes", w)
			}
			open := func(p []byte, pw []byte) ([]byte, error) {
				s, nn, d, err := blobshare.UnpackSaltNonce(p)
				if err != nil {
					return nil, err
				}
				k, err := blobshare.DeriveKey(pw, s)
				if err != nil {
					return nil, err
				}
				return blobshare.Decrypt(k, nn, d)
			}
			open2 := func(p []byte, k *[32]byte) ([]byte, error) {
				nn, d, err := blobshare.UnpackNonce(p)
				if err != nil {
					return nil, err
				}
				return blobshare.Decrypt(k, nn, d)
			}
			okn := 0
			if p, err := open(packed, pw); err != nil || !bytes.Equal(p, data) {
				r.Violate("open-failed", fmt.Sprintf("sealed blob does not open to its data: err %v, %d bytes", err, len(p)), w)
			} else {
				okn++
			}
			if p, err := open2(packed2, key); err != nil || !bytes.Equal(p, data) {
				r.Violate("open-failed", fmt.Sprintf("sealed blob does not open to its data: err %v, %d bytes", err, len(p)), w)
			} else {
				okn++
			}
			r.Count("opened", okn)
			r.Case(fmt.Sprintf("%x-%d-%x", pw, len(data), salt))
			refuse := func(sig string, got []byte, err error, what string) {
				r.Count("refused", 1)
				if err == nil {
					r.Violate(sig, what+fmt.Sprintf(": opened to %d bytes", len(got)), w)
				}
			}
			// every single-bit change of small blobs, sampled of large ones
			bits := len(packed2) * 8
			try := func(bit int) {
				m := append([]byte(nil), packed2...)
				m[bit/8] ^= 1 << uint(bit%8)
				g, err := open2(m, key)
				refuse("tamper-accepted", g, err, fmt.Sprintf("bit %d of %d flipped", bit, bits))
			}
			if bits <= 8*120 {
				for b := 0; b < bits; b++ {
					try(b)
				}
				r.Count("exhaustive_bitflips", 1)
			} else {
				for k := 0; k < 24; k++ {
					try(rg.Intn(bits))
				}
				try(0)
				try(bits - 1)
			}
			// salt changes go through the key derivation
			for k := 0; k < 4; k++ {
				m := append([]byte(nil), packed...)
				b := rg.Intn(256)
				m[b/8] ^= 1 << uint(b%8)
				g, err := open(m, pw)
				refuse("tamper-accepted", g, err, fmt.Sprintf("salt bit %d flipped", b))
			}
			// added and removed bytes
			for k := 0; k < 10; k++ {
				cut := rg.Intn(len(packed2))
				if k == 0 {
					cut = len(packed2) - 1
				} else if k == 1 {
					cut = 0
				} else if k == 2 {
					cut = 23
				}
				g, err := open2(packed2[:cut], key)
				refuse("truncation-accepted", g, err, fmt.Sprintf("cut to %d of %d", cut, len(packed2)))
				ext := append(append([]byte(nil), packed2...), randBytes(rg, 1+rg.Intn(40))...)
				g, err = open2(ext, key)
				refuse("extension-accepted", g, err, "bytes appended")
				at := rg.Intn(len(packed2))
				ins := append(append(append([]byte(nil), packed2[:at]...), byte(rg.Intn(256))), packed2[at:]...)
				g, err = open2(ins, key)
				if !bytes.Equal(ins[:len(packed2)], packed2) {
					refuse("insertion-accepted", g, err, "byte inserted")
				}
				cut = rg.Intn(len(packed))
				g, err = open(packed[:cut], pw)
				refuse("truncation-accepted", g, err, fmt.Sprintf("salted blob cut to %d of %d", cut, len(packed)))
			}
			// wrong passwords and keys
			wrong := [][]byte{nil, append(append([]byte(nil), pw...), 'x'), []byte("wrong")}
			if len(pw) > 0 {
				wrong = append(wrong, pw[:len(pw)-1])
				f := append([]byte(nil), pw...)
				f[rg.Intn(len(f))] ^= 1 << uint(rg.Intn(8))
				wrong = append(wrong, f)
			}
			if len(pw) > 70 {
				f := append([]byte(nil), pw...)
				f[len(f)-1] ^= 1
				wrong = append(wrong, f)
			}
			for _, p := range wrong {
				if samePassword(p, pw) {
					continue
				}
				g, err := open(packed, p)
				refuse("wrong-password-accepted", g, err, fmt.Sprintf("password %x", p))
			}
			for k := 0; k < 8; k++ {
				kk := *key
				b := rg.Intn(256)
				kk[b/8] ^= 1 << uint(b%8)
				g, err := blobshare.Decrypt(&kk, nonce, enc)
				refuse("wrong-key-accepted", g, err, fmt.Sprintf("key bit %d flipped", b))
			}
			g, err := blobshare.Decrypt(key, nonce2, enc)
			refuse("wrong-nonce-accepted", g, err, "nonce of another blob")
		})
	})
	// arbitrary and short input
	rg := sub(r.Seed, "short")
	for n := 0; n < 120; n++ {
		for k := 0; k < r.pick(4, 40); k++ {
			b := randBytes(rg, n)
			if k == 0 {
				b = make([]byte, n)
			}
			w := map[string]any{"input": hex.EncodeToString(b)}
			r.Guard("panic-short", w, func() {
				var key [32]byte
				s, nn, d, err := blobshare.UnpackSaltNonce(b)
				if n < 56 {
					if err == nil {
						r.Violate("short-accepted", fmt.Sprintf("%d bytes unpacked", n), w)
					}
				} else if err != nil || !bytes.Equal(blobshare.PackSaltNonce(s, nn, d), b) {
					r.Violate("unpack-lossy", fmt.Sprintf("unpack/pack changed %d bytes (err %v)", n, err), w)
				} else if _, err := blobshare.Decrypt(&key, nn, d); err == nil {
					r.Violate("garbage-accepted", "random bytes opened", w)
				}
				nn, d, err = blobshare.UnpackNonce(b)
				if n < 24 {
					if err == nil {
						r.Violate("short-accepted", fmt.Sprintf("%d bytes unpacked", n), w)
					}
				} else if err != nil || !bytes.Equal(blobshare.PackNonce(nn, d), b) {
					r.Violate("unpack-lossy", fmt.Sprintf("unpack/pack changed %d bytes (err %v)", n, err), w)
				} else if _, err := blobshare.Decrypt(&key, nn, d); err == nil {
					r.Violate("garbage-accepted", "random bytes opened", w)
				}
				r.Case(fmt.Sprintf("short-%d-%d", n, k))
			})
		}
	}
	// concurrent use, with the parameters being set at the same time; every
	// key must be one of the two the parameters allow
	var wg sync.WaitGroup
	var stop int32
	blobshare.SetNrp(128, 8, 1) // before the first key
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
			if i%2 == 0 {
				blobshare.SetNrp(128, 8, 1)
			} else {
				blobshare.SetNrp(256, 4, 2)
			}
		}
	}()
	var wg2 sync.WaitGroup
	for k := 0; k < 6; k++ {
		wg2.Add(1)
		go func(k int) {
			defer wg2.Done()
			rg := sub(r.Seed, "conc", k)
			for j := 0; j < r.pick(40, 400); j++ {
				pw := randBytes(rg, 1+rg.Intn(20))
				key, salt, err := blobshare.NewKey(pw)
				if err != nil {
					r.Violate("newkey-failed", err.Error(), nil)
					continue
				}
				fresh(salt, nil)
				a, _ := scrypt.Key(pw, salt[:], 128, 8, 1, 32)
				b, _ := scrypt.Key(pw, salt[:], 256, 4, 2, 32)
				if !bytes.Equal(a, key[:]) && !bytes.Equal(b, key[:]) {
					r.Violate("mixed-parameters", "a key was derived with a mixture of scrypt parameters", nil)
				}
				d := randBytes(rg, rg.Intn(500))
				enc, nonce, err := blobshare.Encrypt(d, key)
				if err != nil {
					r.Violate("encrypt-failed", err.Error(), nil)
					continue
				}
				fresh(nil, nonce)
				if p, err := blobshare.Decrypt(key, nonce, enc); err != nil || !bytes.Equal(p, d) {
					r.Violate("open-failed", fmt.Sprintf("concurrent: %v", err), nil)
				}
				r.Count("concurrent_seals", 1)
			}
		}(k)
	}
	wg2.Wait()
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	// every byte of them varies
	for i := 0; i < 24; i++ {
		v := map[byte]bool{}
		for n := range nonces {
			v[n[i]] = true
		}
		if len(nonces) > 50 && len(v) < 10 {
			r.Violate("nonce-predictable", fmt.Sprintf("byte %d of %d nonces takes %d values", i, len(nonces), len(v)), nil)
		}
	}
	for i := 0; i < 32; i++ {
		v := map[byte]bool{}
		for n := range salts {
			v[n[i]] = true
		}
		if len(salts) > 50 && len(v) < 10 {
			r.Violate("salt-predictable", fmt.Sprintf("byte %d of %d salts takes %d values", i, len(salts), len(v)), nil)
		}
	}
	r.Count("nonces", len(nonces))
	r.Count("salts", len(salts))
	// the parameters in force by default must be the strong ones
	r.Sample(map[string]any{"sizes": sizes, "password_kinds": len(passes)})
}
