PROP='P09'
NEEDS='more saves than the number of backups that are kept'
BREAKS='the newest backups are removed and the oldest are kept'
PKG='inidb'
EDITS=[('inidb/inidb.go',[('''	for _, v := range pl[:len(pl)-i.depth] {
''','''	for _, v := range pl[i.depth:] {
''')])]
DEMO='''package inidb

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZ(t *testing.T) {
	f := filepath.Join(t.TempDir(), "db")
	if _, err := New(f, true, 3); err != nil && !errors.Is(err, ErrCreated) {
		t.Fatal(err)
	}
	for i := 0; i < 9; i++ {
		o, err := New(f, false, 3)
		if err != nil {
			t.Fatal(err)
		}
		if err := o.Set("", "k", fmt.Sprint(i)); err != nil {
			t.Fatal(err)
		}
		if err := o.Save(); err != nil {
			t.Fatal(err)
		}
	}
	m, _ := filepath.Glob(f + ".*")
	if len(m) != 3 {
		t.Fatalf("%v", m)
	}
	for i, v := range m {
		b, _ := os.ReadFile(v)
		if !strings.Contains(string(b), fmt.Sprintf("k = %v", 5+i)) {
			t.Errorf("backup %v: %s", i, b)
		}
	}
}
'''
