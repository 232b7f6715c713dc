PROP='P13'
NEEDS='an account that goes offline and comes online again on the same server'
BREAKS='going offline leaves the account marked online, so it is refused when it comes back and its mail stays'
PKG='zkserver/account'
EDITS=[('zkserver/account/account.go',[('''	delete(a.online, who)
}''','''	if !found {
		delete(a.online, who)
	}
}''')])]
DEMO='''package account

import (
	"os"
	"testing"
	"time"

	"github.com/companyzero/zkc/zkidentity"
)

func TestZZ(t *testing.T) {
	dir, err := os.MkdirTemp("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	a, err := New(dir)
	if err != nil {
		t.Fatal(err)
	}
	id, err := zkidentity.New("a", "a")
	if err != nil {
		t.Fatal(err)
	}
	if err := a.Create(id.Public, false); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		c := make(chan *Notification, 10)
		if err := a.Online(id.Public.Identity, c); err != nil {
			t.Error(err)
		}
		if _, err := a.Deliver(id.Public.Identity, id.Public.Identity, []byte("x"), false); err != nil {
			t.Fatal(err)
		}
		select {
		case <-c:
		case <-time.After(5 * time.Second):
			t.Error("nothing handed out")
		}
		a.Offline(id.Public.Identity)
	}
}
'''
