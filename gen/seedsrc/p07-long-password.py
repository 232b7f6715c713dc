PROP='P07'
NEEDS='a password of more than 64 bytes'
BREAKS='only the first 64 bytes of a password count: another password that shares them opens the blob'
PKG='blobshare'
EDITS=[('blobshare/blobshare.go',[('''	dk, err := scrypt.Key(password, salt[:]''','''	if len(password) > 64 {
		password = password[:64]
	}
	dk, err := scrypt.Key(password, salt[:]''')])]
DEMO='''package blobshare

import (
	"bytes"
	"testing"
)

func TestZZ(t *testing.T) {
	SetNrp(2, 8, 1)
	k, salt, err := NewKey(append(bytes.Repeat([]byte("x"), 70), 'a'))
	if err != nil {
		t.Fatal(err)
	}
	l, err := DeriveKey(append(bytes.Repeat([]byte("x"), 70), 'b'), salt)
	if err != nil {
		t.Fatal(err)
	}
	if *k == *l {
		t.Error("another password derives the same key")
	}
}
'''
