PROP='P18'
NEEDS='the token policy, and a pending database that contains a record with an empty or unusual name; or simply a request without token'
BREAKS='an account creation request that carries no token is not checked'
PKG='zkserver'
KIT=['srvkit']
EDITS=[('zkserver/account.go',[('''		if !z.validToken(ca.Token, conn) {
''','''		if ca.Token != "" && !z.validToken(ca.Token, conn) {
''')])]
DEMO='''package main

import (
	"testing"

	"github.com/companyzero/zkc/zkserver/settings"
)

func TestZZ(t *testing.T) {
	z, addr := zzServer(t, func(s *settings.Settings) { s.CreatePolicy = "token" })
	a := zzID(t, "a")
	if zzCreate(t, addr, a, "") == "" || z.account.Enabled(a.Public.Identity) {
		t.Error("account created without token")
	}
}
'''
