PROP='P20'
NEEDS='a random rendezvous token that is in use already'
BREAKS='a token in use is handed out again: the blob of somebody else is replaced'
PKG='zkserver'
KIT=['srvkit']
EDITS=[('zkserver/rendezvous.go',[('''		token %= 1000000
''','''		token = tokenRange(token)
'''),('''// handleRendezvous handles all aspects''','''// tokenRange limits a random number to what a user is willing to type.
func tokenRange(r uint64) uint64 {
	return r % 1000000
}

// handleRendezvous handles all aspects'''),('''		_, err = rz.Get("", tokenS)
		if err == nil {
''','''		_, err = rz.Get(tokenS, tokenS)
		if err == nil {
''')])]
DEMO='''package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/companyzero/zkc/rpc"
)

func TestZZ(t *testing.T) {
	z, addr := zzServer(t, nil)
	a := zzID(t, "a")
	zzCreate(t, addr, a, "")
	c := zzLogin(t, z, addr, a)
	f := filepath.Join(z.settings.Root, rendezvousPath)
	os.MkdirAll(filepath.Dir(f), 0700)
	var b strings.Builder
	for i := 0; i < 800000; i++ {
		fmt.Fprintf(&b, "%v = AA==\\n", i)
	}
	if err := os.WriteFile(f, []byte(b.String()), 0600); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 6; i++ {
		if err := c.send(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: []byte("x"), Expiration: "1"}); err != nil {
			t.Fatal(err)
		}
		var r rpc.RendezvousReply
		if _, err := c.until(rpc.TaggedCmdRendezvousReply, &r); err != nil {
			t.Fatal(err)
		}
		if r.Error == "" && len(r.Token) < 6 || r.Error == "" && r.Token < "800000" {
			t.Errorf("token %v was in use", r.Token)
		}
	}
}
'''
