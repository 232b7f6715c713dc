PROP='P24'
NEEDS='two people sending the same file at the same time, one of them stopping half way or lying about its length'
BREAKS='files in flight are kept by digest alone: what one sender does spoils the same file of another one'
PKG='zkclient'
KIT=['clikit']
EDITS=[('zkclient/chunk.go',[('''	// create landing zone
	dir := path.Join(z.settings.Root, spoolDir,
		hex.EncodeToString(p.From[:]))
''','''	// create landing zone
	dir := path.Join(z.settings.Root, spoolDir, landingZone)
'''),('''	c rpc.Chunk) error {

	dir := path.Join(z.settings.Root, spoolDir,
		hex.EncodeToString(p.From[:]))
''','''	c rpc.Chunk) error {

	dir := path.Join(z.settings.Root, spoolDir, landingZone)
'''),('''const descriptor = ".xdr"
''','''const descriptor = ".xdr"

const landingZone = "incoming"
''')])]
DEMO='''package main

import (
	"crypto/sha256"
	"strings"
	"testing"

	"github.com/companyzero/zkc/rpc"
)

func TestZZ(t *testing.T) {
	z := zzClient(t)
	a, b := zzPeer(t, z, "a"), zzPeer(t, z, "b")
	pa, pb := rpc.Push{From: a.Public.Identity}, rpc.Push{From: b.Public.Identity}
	data := []byte("the data of the file")
	d := sha256.Sum256(data)
	if err := z.doHandleChunkNew(rpc.Message{}, pa, rpc.ChunkNew{Size: uint64(len(data)), ChunkSize: 10, Filename: "good", Digest: d}); err != nil {
		t.Fatal(err)
	}
	if err := z.doHandleChunk(rpc.Message{}, pa, rpc.Chunk{Digest: d, Payload: data[:10]}); err != nil {
		t.Fatal(err)
	}
	z.doHandleChunkNew(rpc.Message{}, pb, rpc.ChunkNew{Size: 5, ChunkSize: 10, Filename: "bad", Digest: d})
	z.doHandleChunk(rpc.Message{}, pb, rpc.Chunk{Digest: d, Payload: []byte("junk")})
	if err := z.doHandleChunk(rpc.Message{}, pa, rpc.Chunk{Digest: d, Offset: 10, Payload: data[10:]}); err != nil {
		t.Error(err)
	}
	if all := zzFiles(z, spoolDir); !strings.Contains(all, spoolDir+"/good") {
		t.Error("the file of a did not arrive: ", all)
	}
	zzWait()
}
'''
