PROP='P02'
NEEDS='more than 65536 messages in one direction of a session, and an old message replayed at the same point of the sequence'
BREAKS='the sequence number starts over after 65536 messages, so that recorded traffic is accepted once more'
PKG='session'
EDITS=[('session/kx.go',[('''	for i := 0; i < 8; i++ {
		n += uint32(seq[i])''','''	for i := 0; i < 2; i++ {
		n += uint32(seq[i])''')])]
DEMO='''package session

import (
	"bytes"
	"net"
	"testing"
)

type zzBuf struct {
	net.Conn
	bytes.Buffer
}

func (b *zzBuf) Read(p []byte) (int, error)  { return b.Buffer.Read(p) }
func (b *zzBuf) Write(p []byte) (int, error) { return b.Buffer.Write(p) }

func TestZZ(t *testing.T) {
	c := &zzBuf{}
	k := new([32]byte)
	kx := &KX{Conn: c, MaxMessageSize: 1 << 20, writeKey: k, readKey: k}
	var first []byte
	for i := 0; i < 65536; i++ {
		if err := kx.Write([]byte("x")); err != nil {
			t.Fatal(err)
		}
		if i == 0 {
			first = append([]byte{}, c.Bytes()...)
		}
		if _, err := kx.Read(); err != nil {
			t.Fatal(err)
		}
	}
	c.Write(first)
	if _, err := kx.Read(); err == nil {
		t.Error("replay accepted")
	}
}
'''
