PROP='P03'
NEEDS='the ephemeral key of the server is rotated while a key exchange is under way'
BREAKS='the key exchange under way uses the new ephemeral private key with the old public one and fails'
PKG='session'
EDITS=[('session/kx.go',[('''	epk := new([sntrup4591761.PublicKeySize]byte)
	esk := new([sntrup4591761.PrivateKeySize]byte)
	ephemeralMutex.Lock()
	copy(epk[:], ephemeralPublic[:])
	copy(esk[:], ephemeralPrivate[:])
	ephemeralMutex.Unlock()

	D(0, "[session.Respond] ephemeral public:\\n%x", *epk)
	D(0, "[session.Respond] ephemeral private:\\n%x", *esk)
''','''	epk := new([sntrup4591761.PublicKeySize]byte)
	esk := &ephemeralPrivate
	ephemeralMutex.Lock()
	copy(epk[:], ephemeralPublic[:])
	ephemeralMutex.Unlock()

	D(0, "[session.Respond] ephemeral public:\\n%x", *epk)
''')])]
DEMO='''package session

import (
	"net"
	"testing"

	"github.com/companyzero/zkc/zkidentity"
)

// slow rotates the keys before the nth write of the client.
type zzConn struct {
	net.Conn
	n int
}

func (c *zzConn) Write(b []byte) (int, error) {
	c.n++
	if c.n == 3 {
		if err := regenerateEphemeral(); err != nil {
			return 0, err
		}
	}
	return c.Conn.Write(b)
}

func TestZZ(t *testing.T) {
	a, err := zkidentity.New("a", "a")
	if err != nil {
		t.Fatal(err)
	}
	b, err := zkidentity.New("b", "b")
	if err != nil {
		t.Fatal(err)
	}
	if err := regenerateEphemeral(); err != nil {
		t.Fatal(err)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	done := make(chan error, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			done <- err
			return
		}
		kx := &KX{Conn: c, MaxMessageSize: 1 << 20, OurPrivateKey: &b.PrivateKey, OurPublicKey: &b.Public.Key}
		err = kx.Respond()
		if err != nil {
			c.Close()
		}
		done <- err
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	kx := &KX{Conn: &zzConn{Conn: c}, MaxMessageSize: 1 << 20, OurPrivateKey: &a.PrivateKey, OurPublicKey: &a.Public.Key, TheirPublicKey: &b.Public.Key}
	if err := kx.Initiate(); err != nil {
		t.Errorf("initiate: %v", err)
	}
	if err := <-done; err != nil {
		t.Errorf("respond: %v", err)
	}
}
'''
