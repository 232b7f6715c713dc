PROP='P25'
NEEDS='a group kill sent by a member who is not its administrator'
BREAKS='any member of a group can kill it for another member'
PKG='zkclient'
KIT=['clikit']
EDITS=[('zkclient/push.go',[('''	if !bytes.Equal(group.Members[0][:], p.From[:]) {
		return fmt.Errorf("spoofed group chat kill command")
	}
''','''	spoofed := true
	for i := range group.Members {
		if bytes.Equal(group.Members[i][:], p.From[:]) {
			spoofed = false
		}
	}
	if spoofed {
		return fmt.Errorf("spoofed group chat kill command")
	}
''')])]
DEMO='''package main

import (
	"testing"

	"github.com/companyzero/zkc/rpc"
)

func TestZZ(t *testing.T) {
	z := zzClient(t)
	admin, member, other := zzPeer(t, z, "admin"), zzPeer(t, z, "member"), zzPeer(t, z, "other")
	z.groups["g"] = rpc.GroupList{Name: "g", Generation: 2, Members: [][32]byte{admin.Public.Identity, member.Public.Identity, z.id.Public.Identity}}
	if err := z.gcSaveDisk("g"); err != nil {
		t.Fatal(err)
	}
	for _, p := range []rpc.Push{{From: other.Public.Identity}, {From: member.Public.Identity}} {
		z.handleGroupKill(rpc.Message{}, p, rpc.GroupKill{Name: "g"})
		if _, ok := z.groups["g"]; !ok || zzFiles(z, groupchatDir) == "" {
			t.Fatal("the group was killed by someone else")
		}
	}
	if err := z.handleGroupKill(rpc.Message{}, rpc.Push{From: admin.Public.Identity}, rpc.GroupKill{Name: "g"}); err != nil {
		t.Error(err)
	}
	if _, ok := z.groups["g"]; ok || zzFiles(z, groupchatDir) != "" {
		t.Error("the group outlives a kill by its administrator")
	}
	zzWait()
}
'''
