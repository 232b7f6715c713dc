PROP='P32'
NEEDS='a group message between a program of this tree and a released one'
BREAKS='the fields of a group message travel in another order than programs of the same protocol version expect'
PKG='rpc'
EDITS=[('rpc/rpc.go',[('''	Generation uint64      // Generation used
	Message    string      // Actual message
''','''	Message    string      // Actual message
	Generation uint64      // Generation used
''')])]
DEMO='''package rpc

import (
	"bytes"
	"testing"

	xdr "github.com/davecgh/go-xdr/xdr2"
)

func TestZZ(t *testing.T) {
	var b bytes.Buffer
	if _, err := xdr.Marshal(&b, GroupMessage{Name: "ab", Generation: 7, Message: "cd", Mode: 1}); err != nil {
		t.Fatal(err)
	}
	want := []byte("\\x00\\x00\\x00\\x02ab\\x00\\x00" + "\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x07" + "\\x00\\x00\\x00\\x02cd\\x00\\x00")
	if !bytes.HasPrefix(b.Bytes(), want) {
		t.Errorf("%x", b.Bytes())
	}
}
'''
