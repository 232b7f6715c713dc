package main

import (
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// bufPipe is an unbounded one-directional byte stream.
type bufPipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	b      []byte
	closed bool
}

func newBufPipe() *bufPipe { p := &bufPipe{}; p.cond = sync.NewCond(&p.mu); return p }

func (p *bufPipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return 0, io.ErrClosedPipe
	}
	p.b = append(p.b, b...)
	p.cond.Broadcast()
	return len(b), nil
}

func (p *bufPipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.b) == 0 {
		if p.closed {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
	n := copy(b, p.b)
	p.b = p.b[n:]
	return n, nil
}

func (p *bufPipe) Close() {
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

// memConn is one end of an in-memory connection.
type memConn struct {
	r, w *bufPipe
}

func (c *memConn) Read(b []byte) (int, error)         { return c.r.Read(b) }
func (c *memConn) Write(b []byte) (int, error)        { return c.w.Write(b) }
func (c *memConn) Close() error                       { c.r.Close(); c.w.Close(); return nil }
func (c *memConn) LocalAddr() net.Addr                { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr               { return memAddr{} }
func (c *memConn) SetDeadline(t time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error { return nil }

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem" }

func memPair() (a, b *memConn) {
	x, y := newBufPipe(), newBufPipe()
	return &memConn{r: x, w: y}, &memConn{r: y, w: x}
}

// readFrame reads one xdr variable opaque (length, data, padding) verbatim.
func readFrame(r io.Reader) ([]byte, error) {
	var l [4]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(l[:])
	if n > 64<<20 {
		return nil, errors.New("frame too large")
	}
	b := make([]byte, 4+int(n)+int((4-n%4)%4))
	copy(b, l[:])
	_, err := io.ReadFull(r, b[4:])
	return b, err
}

func readFixed(r io.Reader, n int) ([]byte, error) {
	b := make([]byte, n+(4-n%4)%4)
	_, err := io.ReadFull(r, b)
	return b, err
}

// frameData returns the data of a verbatim frame.
func frameData(f []byte) []byte {
	n := binary.BigEndian.Uint32(f[:4])
	return f[4 : 4+n]
}

func mkFrame(data []byte) []byte {
	n := len(data)
	b := make([]byte, 4+n+(4-n%4)%4)
	binary.BigEndian.PutUint32(b, uint32(n))
	copy(b[4:], data)
	return b
}
