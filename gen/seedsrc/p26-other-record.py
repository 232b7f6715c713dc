PROP='P26'
NEEDS='two people invited to one group; one of them joins, and later sends that same join again'
BREAKS='a used invite is not deleted while someone else is invited to the group too, it admits again after a kick'
PKG='zkclient'
KIT=['clikit']
EDITS=[('zkclient/groupinvites.go',[('''	// delete record
	err = idb.Del(gj.Name, froms)
	if err != nil {
		return fmt.Errorf("could not delete %v %v: %v",
			gj.Name, froms, err)
	}
''','''	// delete record
	for id := range idb.Records(gj.Name) {
		if id != froms {
			continue
		}
		err = idb.Del(gj.Name, id)
		if err != nil {
			return fmt.Errorf("could not delete %v %v: %v",
				gj.Name, froms, err)
		}
	}
	if len(idb.Records(gj.Name)) != 0 {
		return nil
	}
''')])]
DEMO='''package main

import (
	"testing"

	"github.com/companyzero/zkc/rpc"
)

func TestZZ(t *testing.T) {
	z := zzClient(t)
	a, b := zzPeer(t, z, "a"), zzPeer(t, z, "b")
	g := rpc.GroupList{Name: "g", Members: [][32]byte{z.id.Public.Identity}}
	ia, err := z.inviteDBAdd(a.Public.Identity, "", g)
	if err != nil {
		t.Fatal(err)
	}
	ib, err := z.inviteDBAdd(b.Public.Identity, "", g)
	if err != nil {
		t.Fatal(err)
	}
	if err := z.delInvite(a.Public.Identity, rpc.GroupJoin{Name: "g", Token: ia.Token}); err != nil {
		t.Fatal(err)
	}
	if err := z.delInvite(a.Public.Identity, rpc.GroupJoin{Name: "g", Token: ia.Token}); err == nil {
		t.Error("the invite of a admits twice")
	}
	if err := z.delInvite(b.Public.Identity, rpc.GroupJoin{Name: "g", Token: ib.Token}); err != nil {
		t.Fatal(err)
	}
	if err := z.delInvite(b.Public.Identity, rpc.GroupJoin{Name: "g", Token: ib.Token}); err == nil {
		t.Error("the invite of b admits twice")
	}
}
'''
