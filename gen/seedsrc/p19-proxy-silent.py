PROP='P19'
NEEDS='a key exchange or reset proxied to an account that is disabled'
BREAKS='the sender is told that a proxied message to a disabled account was delivered'
PKG='zkserver'
KIT=['srvkit']
EDITS=[('zkserver/cache.go',[('''		payload.Error = fmt.Sprintf("proxy delivery failed to: %x",
			proxy.To)
''','''		if !z.account.Disabled(proxy.To) {
			payload.Error = fmt.Sprintf("proxy delivery failed to: %x",
				proxy.To)
		}
''')])]
DEMO='''package main

import (
	"testing"

	"github.com/companyzero/zkc/rpc"
)

func TestZZ(t *testing.T) {
	z, addr := zzServer(t, nil)
	a, b := zzID(t, "a"), zzID(t, "b")
	zzCreate(t, addr, a, "")
	zzCreate(t, addr, b, "")
	c := zzLogin(t, z, addr, a)
	for i := 0; i < 2; i++ {
		if i == 1 {
			if err := z.account.Disable(b.Public.Identity); err != nil {
				t.Fatal(err)
			}
		}
		c.send(rpc.TaggedCmdProxy, uint32(i+1), rpc.Proxy{To: b.Public.Identity, Payload: []byte("x")})
		var r rpc.ProxyReply
		if _, err := c.until(rpc.TaggedCmdProxyReply, &r); err != nil {
			t.Fatal(err)
		}
		if (r.Error == "") != (i == 0) {
			t.Errorf("disabled %v: %+v", i == 1, r)
		}
	}
}
'''
