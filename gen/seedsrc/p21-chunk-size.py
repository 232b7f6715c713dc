PROP='P21'
NEEDS='a server whose maximum chunk size differs from its maximum message size'
BREAKS='the server announces its message size limit as the chunk size limit'
PKG='zkserver'
KIT=['srvkit']
EDITS=[('zkserver/zkserver.go',[('strconv.FormatUint(z.settings.MaxChunkSize, 10)','strconv.FormatUint(z.settings.MaxMsgSize, 10)')])]
DEMO='''package main

import (
	"net"
	"strconv"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkserver/settings"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func TestZZ(t *testing.T) {
	z, addr := zzServer(t, func(s *settings.Settings) { s.MaxChunkSize = 12345 })
	a := zzID(t, "a")
	zzCreate(t, addr, a, "")
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	xdr.Marshal(c, rpc.InitialCmdSession)
	kx := &session.KX{Conn: c, MaxMessageSize: uint(z.settings.MaxMsgSize), OurPrivateKey: &a.PrivateKey, OurPublicKey: &a.Public.Key, TheirPublicKey: &z.id.Public.Key}
	if err := kx.Initiate(); err != nil {
		t.Fatal(err)
	}
	var w rpc.Welcome
	if _, err := (&zzClient{t, kx}).until(rpc.SessionCmdWelcome, &w); err != nil {
		t.Fatal(err)
	}
	for _, p := range w.Properties {
		if p.Key == rpc.PropMaxChunkSize && p.Value != strconv.Itoa(12345) {
			t.Errorf("announced %v", p.Value)
		}
	}
}
'''
