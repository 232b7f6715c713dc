package main

import (
	"crypto/rand"
	"math/big"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/ratchet"
	"golang.org/x/crypto/nacl/secretbox"
	"golang.org/x/crypto/scrypt"
)

// degeneratePoints are encodings the receiver documents as invalid: smaller
// than 3, or not below the field prime.
func degeneratePoints() [][]byte {
	p := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	enc := func(v *big.Int) []byte {
		be := v.FillBytes(make([]byte, 32))
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			be[i], be[j] = be[j], be[i]
		}
		return be
	}
	out := [][]byte{enc(big.NewInt(0)), enc(big.NewInt(1)), enc(p), enc(new(big.Int).Add(p, big.NewInt(1))),
		make([]byte, 31), make([]byte, 33), {}}
	ff := make([]byte, 32)
	for i := range ff {
		ff[i] = 0xff
	}
	return append(out, ff)
}

// fillWithPoint builds exchange data as FillKeyExchange does, around a chosen
// public point.
func fillWithPoint(x *ratchet.Ratchet, kx *ratchet.KeyExchange, pt []byte) error {
	c, k, err := sntrup4591761.Encapsulate(rand.Reader, x.TheirPublicKey)
	if err != nil {
		return err
	}
	salt := make([]byte, 32)
	var nonce [24]byte
	rand.Read(salt)
	rand.Read(nonce[:])
	dk, err := scrypt.Key(k[:], salt, 32768, 16, 2, 32)
	if err != nil {
		return err
	}
	var key [32]byte
	copy(key[:], dk)
	pub := append(append([]byte{}, salt...), nonce[:]...)
	pub = secretbox.Seal(pub, pt, &nonce, &key)
	copy(kx.Cipher[:], c[:])
	kx.Public = pub
	return nil
}
