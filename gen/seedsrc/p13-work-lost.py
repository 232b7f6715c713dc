PROP='P13'
NEEDS='a message delivered while the producer is in the middle of handing out earlier messages, with nothing delivered afterwards'
BREAKS='the pending work signal is cleared after the directory was read, so that a message delivered meanwhile stays on disk until the next one'
PKG='zkserver/account'
EDITS=[('zkserver/account/account.go',[('''			a.Lock()
			fi, err := ioutil.ReadDir(cache)
			if err != nil {
				a.Unlock()
				dn.send(&Notification{Error: err})
				continue
			}
			a.Unlock()

			for _, v := range fi {
''','''			a.Lock()
			fi, err := ioutil.ReadDir(cache)
			if err != nil {
				a.Unlock()
				dn.send(&Notification{Error: err})
				continue
			}
			a.Unlock()

			for k, v := range fi {
				if k == len(fi)-1 {
					// all caught up, a single pass will do
					select {
					case <-dn.work:
					default:
					}
				}
''')])]
DEMO='''package account

import (
	"testing"
	"time"

	"github.com/companyzero/zkc/zkidentity"
)

func TestZZ(t *testing.T) {
	a, err := New(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	id, err := zkidentity.New("a", "a")
	if err != nil {
		t.Fatal(err)
	}
	if err := a.Create(id.Public, false); err != nil {
		t.Fatal(err)
	}
	to := id.Public.Identity
	n := make(chan *Notification)
	for _, s := range []string{"0", "1"} {
		if _, err := a.Deliver(to, to, []byte(s), false); err != nil {
			t.Fatal(err)
		}
	}
	if err := a.Online(to, n); err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond) // blocked in the first message
	if _, err := a.Deliver(to, to, []byte("2"), false); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		select {
		case x := <-n:
			if x.Error != nil || string(x.Payload) != string(rune('0'+i)) {
				t.Errorf("%v: %v %s", i, x.Error, x.Payload)
			}
		case <-time.After(3 * time.Second):
			t.Fatalf("message %v does not come", i)
		}
	}
}
'''
