PROP='P18'
NEEDS='a token that expired, is still in the database, and is presented'
BREAKS='the expiry is compared against the wrong clock unit: a token stays valid for up to a day after it expired'
PKG='zkserver'
KIT=['srvkit']
EDITS=[('zkserver/pending.go',[('''	if ts.Before(time.Now()) {
		z.Dbg(''','''	if ts.Before(time.Now().Truncate(24 * time.Hour)) {
		z.Dbg(''')])]
DEMO='''package main

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/companyzero/zkc/zkserver/settings"
)

func TestZZ(t *testing.T) {
	z, addr := zzServer(t, func(s *settings.Settings) { s.CreatePolicy = "token" })
	now := time.Now()
	f := filepath.Join(z.settings.Root, pendingPath)
	os.MkdirAll(filepath.Dir(f), 0700)
	err := os.WriteFile(f, []byte(fmt.Sprintf("77 = %v\\n78 = %v\\n79 = %v\\n", now.Unix()-1, now.Unix()-3600, now.Unix()+600)), 0600)
	if err != nil {
		t.Fatal(err)
	}
	for i, tok := range []string{"77", "78"} {
		if zzCreate(t, addr, zzID(t, fmt.Sprint(i)), tok) == "" {
			t.Errorf("expired token %v accepted", tok)
		}
		os.WriteFile(f, []byte(fmt.Sprintf("77 = %v\\n78 = %v\\n79 = %v\\n", now.Unix()-1, now.Unix()-3600, now.Unix()+600)), 0600)
	}
	if e := zzCreate(t, addr, zzID(t, "x"), "79"); e != "" {
		t.Error(e)
	}
}
'''
