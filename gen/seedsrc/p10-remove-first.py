PROP='P10'
NEEDS='a crash (or a reader) at the point between removing the old database and renaming the new one'
BREAKS='there is a moment during a save at which there is no database'
PKG='inidb'
EDITS=[('inidb/inidb.go',[('''	err = os.Rename(f.Name(), i.filename)
	if err != nil {
''','''	// not every platform replaces the target of a rename
	_ = os.Remove(i.filename)
	if err = os.Rename(f.Name(), i.filename); err != nil {
''')])]
DEMO='''package inidb

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
)

func TestZZ(t *testing.T) {
	f := filepath.Join(t.TempDir(), "db")
	if _, err := New(f, true, 3); err != nil && !errors.Is(err, ErrCreated) {
		t.Fatal(err)
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for j := 0; j < 3; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if _, err := os.Stat(f); err != nil {
					t.Error("no database")
					return
				}
			}
		}()
	}
	end := time.Now().Add(10 * time.Second)
	for i := 0; time.Now().Before(end) && !t.Failed(); i++ {
		o, err := New(f, false, 3)
		if err != nil {
			t.Error(err)
			break
		}
		if err := o.Set("", "k", fmt.Sprint(i)); err != nil {
			t.Error(err)
		}
		if err := o.Save(); err != nil {
			t.Error(err)
		}
	}
	close(stop)
	wg.Wait()
}
'''
