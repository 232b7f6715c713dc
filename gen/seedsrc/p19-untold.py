PROP='P19'
NEEDS='a message to an account that was disabled while its owner was away'
BREAKS='the sender of mail to a disabled account is not told the reason'
PKG='zkserver'
KIT=['srvkit']
EDITS=[('zkserver/cache.go',[('''			replyErrorCode = rpc.ErrorCodeUserDisabled
''','''			if z.settings.Directory {
				replyErrorCode = rpc.ErrorCodeUserDisabled
			}
''')])]
DEMO='''package main

import (
	"testing"

	"github.com/companyzero/zkc/rpc"
)

func TestZZ(t *testing.T) {
	z, addr := zzServer(t, nil)
	a, b := zzID(t, "a"), zzID(t, "b")
	zzCreate(t, addr, a, "")
	zzCreate(t, addr, b, "")
	if err := z.account.Disable(b.Public.Identity); err != nil {
		t.Fatal(err)
	}
	c := zzLogin(t, z, addr, a)
	c.send(rpc.TaggedCmdCache, 3, rpc.Cache{To: b.Public.Identity, Payload: []byte("x")})
	var ack rpc.Acknowledge
	if _, err := c.until(rpc.TaggedCmdAcknowledge, &ack); err != nil {
		t.Fatal(err)
	}
	if ack.Error == "" || ack.ErrorCode != rpc.ErrorCodeUserDisabled {
		t.Errorf("%+v", ack)
	}
}
'''
