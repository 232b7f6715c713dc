package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/companyzero/zkc/inidb"
)

func init() {
	register("P09", p09)
	register("P10", p10)
	children["inidb"] = inidbChild
}

type dbModel map[string]map[string]string

func (m dbModel) clone() dbModel {
	c := dbModel{}
	for t, rs := range m {
		c[t] = map[string]string{}
		for k, v := range rs {
			c[t][k] = v
		}
	}
	return c
}

// norm leaves out an empty default table, which always exists.
func (m dbModel) norm() dbModel {
	c := m.clone()
	if _, ok := c[""]; !ok {
		c[""] = map[string]string{}
	}
	return c
}

func readDB(db *inidb.INIDB) dbModel {
	m := dbModel{}
	for _, t := range db.Tables() {
		m[t] = db.Records(t)
	}
	return m.norm()
}

func diffDB(want, got dbModel) string {
	var d []string
	for t, rs := range want {
		g, ok := got[t]
		if !ok {
			d = append(d, fmt.Sprintf("table %.60q missing", t))
			continue
		}
		for k, v := range rs {
			if gv, ok := g[k]; !ok {
				d = append(d, fmt.Sprintf("record %.60q/%.60q missing", t, k))
			} else if gv != v {
				d = append(d, fmt.Sprintf("record %.60q/%.60q is %.60q, stored %.60q", t, k, gv, v))
			}
		}
		for k := range g {
			if _, ok := rs[k]; !ok {
				d = append(d, fmt.Sprintf("record %.60q/%.60q appeared", t, k))
			}
		}
	}
	for t := range got {
		if _, ok := want[t]; !ok {
			d = append(d, fmt.Sprintf("table %.60q appeared", t))
		}
	}
	sort.Strings(d)
	if len(d) > 8 {
		d = append(d[:8], "...")
	}
	return strings.Join(d, "; ")
}

var (
	dbTables = []string{"", "t", "other", "with space", "a]b", "[x", "x]", "#hash", ";semi", "ünï", "conversations", strings.Repeat("T", 300), "t.t", "T"}
	dbKeys   = []string{"a", "b", "key with space", "[k", "[k]", "k#", "k;", "ü", "0", "10", "a.b", "A", strings.Repeat("k", 5000), "k:x", "\"q\"", "x]y"}
	dbVals   = []string{"", "v", "0", "a=b", "=", "==", "# not comment", "; neither", "[x]", "\"quoted\"", "ünï ☃", "a b\tc", "base64==", strings.Repeat("v", 4095), strings.Repeat("w", 70000), "k = v", "%s%d", "\\n", "\x00\x01", "-1"}
	// strings the line format cannot hold: they may be refused, but must not
	// corrupt anything
	dbBad = []string{" lead", "trail ", "a\nb", "x = y\nz", "a\n[t]\nk = v", "\t", "a\r\n", "#k", ";k", "k=x", "\n"}
)

func representable(t, k, v string) bool {
	for _, s := range []string{t, k, v} {
		if strings.TrimSpace(s) != s || strings.Contains(s, "\n") {
			return false
		}
	}
	return k != "" && !strings.Contains(k, "=") && !strings.Contains(t, "=") && k[0] != '#' && k[0] != ';'
}

func listFiles(dir string) map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err == nil {
			m[e.Name()] = string(b)
		}
	}
	return m
}

// parseDB reads a database file from a private directory.
func parseDB(content string) (dbModel, error) {
	d := tempDir("pdb")
	defer os.RemoveAll(d)
	f := filepath.Join(d, "x.ini")
	if err := os.WriteFile(f, []byte(content), 0600); err != nil {
		return nil, err
	}
	db, err := inidb.New(f, false, 10)
	if err != nil {
		return nil, err
	}
	return readDB(db), nil
}

func p09(r *Report) {
	r.Rule = "a case is one random history of table and record operations, saves and reopenings; distinct by its operation log, non-trivial when at least one save followed by a reopening was compared with the reference"
	r.Need("reopened", 100)
	r.Need("backups_compared", 100)
	r.Need("not_found", 50)
	n := r.pick(220, 3000)
	parallel(n, 8, func(c int) {
		rg := sub(r.Seed, "inidb", c)
		p09history(r, rg, c)
	})
	p09concurrent(r)
}

func p09history(r *Report, rg *rand.Rand, c int) {
	root := tempDir("db")
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "sub", "dir")
	base := []string{"db.ini", "myserver.ini", "x"}[rg.Intn(3)]
	file := filepath.Join(dir, base)
	log := []string{}
	add := func(f string, a ...any) {
		if len(log) < 400 {
			log = append(log, fmt.Sprintf(f, a...))
		}
	}
	wit := func() any {
		l := log
		if len(l) > 60 {
			l = l[len(l)-60:]
		}
		return map[string]any{"case": c, "operations": l}
	}
	mem := dbModel{"": {}}
	disk := dbModel{"": {}}
	versions := []string{} // contents on disk, in order
	var backups []string   // names expected, ascending, of the versions
	foreign := map[string]string{"other.txt": "keep", "z" + base + ".20200101.000000.000000000": "not yours", "notes": "n = 1"}
	var db *inidb.INIDB
	depth := 0
	created := false
	compared := false
	open := func(first bool) bool {
		depth = []int{-1, 0, 1, 2, 3, 10}[rg.Intn(6)]
		create := first || rg.Intn(2) == 0
		if first && rg.Intn(3) == 0 {
			if _, err := inidb.New(file, false, depth); err == nil {
				r.Violate("opened-missing", "a database that does not exist was opened without create", wit())
				return false
			}
		}
		var err error
		db, err = inidb.New(file, create, depth)
		add("open create=%v depth=%d", create, depth)
		created = errors.Is(err, inidb.ErrCreated)
		if first && !created {
			r.Violate("create-not-reported", fmt.Sprintf("creating gave %v", err), wit())
			return false
		}
		if !first && err != nil {
			r.Violate("reopen-failed", fmt.Sprintf("%v", err), wit())
			return false
		}
		if d := diffDB(disk.norm(), readDB(db)); d != "" {
			r.Violate("reopen-differs", d, wit())
			return false
		}
		if !first {
			r.Count("reopened", 1)
			compared = true
		}
		mem = disk.clone().norm()
		return true
	}
	ok := r.Guard("panic", nil, func() {
		if !open(true) {
			return
		}
		for k, v := range foreign {
			must(os.WriteFile(filepath.Join(dir, k), []byte(v), 0600))
		}
		b, err := os.ReadFile(file)
		if err != nil {
			r.Violate("create-no-file", err.Error(), wit())
			return
		}
		versions = append(versions, string(b))
		dirty := false
		nt := 2 + rg.Intn(len(dbTables)-2)
		nk := 2 + rg.Intn(len(dbKeys)-2)
		for s := 0; s < r.pick(90, 200); s++ {
			tb := dbTables[rg.Intn(nt)]
			k := dbKeys[rg.Intn(nk)]
			switch op := rg.Intn(22); {
			case op < 7: // set
				v := dbVals[rg.Intn(len(dbVals))]
				if rg.Intn(4) == 0 {
					v = strconv.Itoa(rg.Int())
				}
				add("set %.20q %.20q %.20q", tb, k, v)
				err := db.Set(tb, k, v)
				if _, ok := mem[tb]; !ok {
					r.Count("not_found", 1)
					if !errors.Is(err, inidb.ErrNotFound) {
						r.Violate("set-missing-table", fmt.Sprintf("storing into a missing table gave %v", err), wit())
						return
					}
				} else if err != nil {
					r.Violate("set-failed", err.Error(), wit())
					return
				} else {
					mem[tb][k] = v
					dirty = true
				}
			case op < 9: // new table
				add("newtable %.20q", tb)
				db.NewTable(tb)
				if _, ok := mem[tb]; !ok {
					mem[tb] = map[string]string{}
					dirty = true
				}
			case op < 11: // del
				add("del %.20q %.20q", tb, k)
				err := db.Del(tb, k)
				if _, ok := mem[tb]; !ok {
					r.Count("not_found", 1)
					if !errors.Is(err, inidb.ErrNotFound) {
						r.Violate("del-missing-table", fmt.Sprintf("deleting from a missing table gave %v", err), wit())
						return
					}
				} else if err != nil && !errors.Is(err, inidb.ErrNotFound) {
					r.Violate("del-failed", err.Error(), wit())
					return
				} else {
					if _, had := mem[tb][k]; had && err != nil {
						r.Violate("del-failed", err.Error(), wit())
						return
					}
					delete(mem[tb], k)
					dirty = true
				}
			case op == 11: // deltable
				if tb == "" {
					continue
				}
				add("deltable %.20q", tb)
				err := db.DelTable(tb)
				_, had := mem[tb]
				if had != (err == nil) || (!had && !errors.Is(err, inidb.ErrNotFound)) {
					r.Violate("deltable-result", fmt.Sprintf("table existed: %v, result %v", had, err), wit())
					return
				}
				delete(mem, tb)
				if had {
					dirty = true
				}
			case op < 14: // get
				v, err := db.Get(tb, k)
				mv, had := mem[tb][k]
				if had && (err != nil || v != mv) {
					r.Violate("get-differs", fmt.Sprintf("got %.60q, %v, stored %.60q", v, err, mv), wit())
					return
				}
				if !had {
					r.Count("not_found", 1)
					if !errors.Is(err, inidb.ErrNotFound) {
						r.Violate("get-missing", fmt.Sprintf("missing record gave %.60q, %v", v, err), wit())
						return
					}
				}
			case op == 14: // the returned copies are copies
				rs := db.Records(tb)
				for k := range rs {
					rs[k] = "changed by the caller"
				}
				rs["added by the caller"] = "x"
				if _, ok := mem[tb]; !ok && len(rs) != 1 {
					r.Violate("records-of-missing", "records of a missing table", wit())
					return
				}
				ts := db.Tables()
				for i := range ts {
					ts[i] = "changed"
				}
				if d := diffDB(mem.norm(), readDB(db)); d != "" {
					r.Violate("memory-differs", d, wit())
					return
				}
			case op == 15: // strings that cannot be represented
				bad := dbBad[rg.Intn(len(dbBad))]
				bt, bk, bv := "", k, "v"
				switch rg.Intn(2) {
				case 0:
					bk = bad
				case 1:
					bv = bad
				}
				add("set %q %.20q %q (may be refused)", bt, bk, bv)
				if err := db.Set(bt, bk, bv); err == nil {
					if !representable(bt, bk, bv) {
						r.Count("odd_accepted", 1)
					}
					mem[bt][bk] = bv
					dirty = true
				} else {
					r.Count("odd_refused", 1)
				}
			case op < 20: // save
				before := listFiles(dir)
				add("save")
				if err := db.Save(); err != nil {
					r.Violate("save-failed", err.Error(), wit())
					return
				}
				after := listFiles(dir)
				cur := after[base]
				got, err := parseDB(cur)
				if err != nil {
					r.Violate("saved-unreadable", err.Error(), wit())
					return
				}
				if d := diffDB(mem.norm(), got); d != "" {
					r.Violate("saved-differs", d, wit())
					return
				}
				for k, v := range foreign {
					if after[k] != v {
						r.Violate("foreign-file", fmt.Sprintf("file %q was touched", k), wit())
						return
					}
				}
				var bk []string
				for k := range after {
					switch {
					case k == base:
					case strings.HasPrefix(k, base+"."):
						bk = append(bk, k)
					default:
						if _, ok := foreign[k]; !ok {
							r.Violate("stray-file", fmt.Sprintf("file %q left behind by a save", k), wit())
							return
						}
					}
				}
				sort.Strings(bk)
				// backups are complete earlier versions
				for _, k := range bk {
					found := false
					for _, v := range versions {
						if v == after[k] {
							found = true
						}
					}
					if !found {
						r.Violate("backup-not-a-version", fmt.Sprintf("backup %q is not an earlier version", k), wit())
						return
					}
					r.Count("backups_compared", 1)
				}
				if !dirty {
					if !reflect.DeepEqual(before, after) {
						r.Violate("clean-save-writes", "saving without a change changed files", wit())
						return
					}
				} else {
					versions = append(versions, cur)
					if depth >= 0 && len(bk) > depth {
						r.Violate("too-many-backups", fmt.Sprintf("%d backups kept, limit %d", len(bk), depth), wit())
						return
					}
					if !created {
						// the newest depth of (earlier backups + the version replaced)
						want := append(append([]string(nil), backups...), before[base])
						if depth >= 0 && len(want) > depth {
							want = want[len(want)-depth:]
						}
						var have []string
						for _, k := range bk {
							have = append(have, after[k])
						}
						if !reflect.DeepEqual(append([]string{}, want...), append([]string{}, have...)) {
							r.Violate("backups-not-newest", fmt.Sprintf("kept %d backups (limit %d, %d before), not the newest versions", len(bk), depth, len(backups)), wit())
							return
						}
					}
				}
				backups = backups[:0]
				for _, k := range bk {
					backups = append(backups, after[k])
				}
				dirty = false
				disk = mem.clone().norm()
			default: // reopen, losing what was not saved
				if !open(false) {
					return
				}
				dirty = false
			}
		}
		if err := db.Save(); err != nil {
			r.Violate("save-failed", err.Error(), wit())
			return
		}
		disk = mem.clone().norm()
		open(false)
	})
	_ = ok
	if compared {
		r.Case(strings.Join(log, "\n"))
	} else {
		r.Case("")
	}
	if c < 2 {
		r.Sample(map[string]any{"base": base, "operations": log[:min(len(log), 25)]})
	}
}

func p09concurrent(r *Report) {
	for round := 0; round < r.pick(4, 30); round++ {
		dir := tempDir("dbc")
		file := filepath.Join(dir, "db.ini")
		db, err := inidb.New(file, true, 3)
		if !errors.Is(err, inidb.ErrCreated) {
			r.Violate("create-not-reported", fmt.Sprint(err), nil)
			return
		}
		want := dbModel{"": {}}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rg := sub(r.Seed, "dbc", round, g)
				t := fmt.Sprintf("t%d", g%3)
				db.NewTable(t)
				mine := map[string]string{}
				for i := 0; i < 150; i++ {
					k := fmt.Sprintf("k%d-%d", g, rg.Intn(12))
					switch rg.Intn(6) {
					case 0, 1, 2:
						v := strconv.Itoa(i)
						if err := db.Set(t, k, v); err != nil {
							r.Violate("set-failed", err.Error(), nil)
						}
						mine[k] = v
					case 3:
						if err := db.Del(t, k); err != nil && !errors.Is(err, inidb.ErrNotFound) {
							r.Violate("del-failed", err.Error(), nil)
						}
						delete(mine, k)
					case 4:
						v, err := db.Get(t, k)
						if mv, ok := mine[k]; ok != (err == nil) || v != mv {
							r.Violate("get-differs", fmt.Sprintf("concurrent: got %q %v, stored %q", v, err, mv), nil)
						}
						db.Records(t)
						db.Tables()
					case 5:
						if i%10 == 0 {
							if err := db.Save(); err != nil {
								r.Violate("save-failed", err.Error(), nil)
							}
						}
					}
				}
				mu.Lock()
				if want[t] == nil {
					want[t] = map[string]string{}
				}
				for k, v := range mine {
					want[t][k] = v
				}
				mu.Unlock()
			}(g)
		}
		wg.Wait()
		if err := db.Save(); err != nil {
			r.Violate("save-failed", err.Error(), nil)
		}
		db2, err := inidb.New(file, false, 3)
		if err != nil {
			r.Violate("reopen-failed", err.Error(), nil)
			return
		}
		if d := diffDB(want.norm(), readDB(db2)); d != "" {
			r.Violate("concurrent-differs", d, nil)
		}
		r.Case(fmt.Sprintf("concurrent-%d", round))
		r.Count("concurrent_rounds", 1)
		os.RemoveAll(dir)
	}
}

// ---- P10

type dbJob struct {
	File   string
	Create bool
	Depth  int
	Limit  int  // bytes a file may have, 0 unlimited
	Again  bool // save a second time after a failure, with space again
	Ops    [][4]string
}

// inidbChild opens the database, applies the operations and saves.
// exit codes: 0 saved, 10 open failed, 11 an operation failed, 12 save failed
func inidbChild(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		return 90
	}
	var j dbJob
	if json.Unmarshal(b, &j) != nil {
		return 91
	}
	if j.Limit > 0 {
		limitFile(j.Limit, j.Again)
	}
	marker()
	db, err := inidb.New(j.File, j.Create, j.Depth)
	if err != nil && !errors.Is(err, inidb.ErrCreated) {
		return 10
	}
	for _, o := range j.Ops {
		switch o[0] {
		case "table":
			db.NewTable(o[1])
		case "set":
			if db.Set(o[1], o[2], o[3]) != nil {
				return 11
			}
		case "del":
			if db.Del(o[1], o[2]) != nil {
				return 11
			}
		}
	}
	err = db.Save()
	if err != nil && j.Again {
		if j.Limit > 0 {
			l := syscall.Rlimit{Cur: 1 << 62, Max: 1 << 62}
			if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l) != nil {
				return 92
			}
		}
		err = db.Save()
	}
	if err != nil {
		return 12
	}
	return 0
}

func (j *dbJob) apply(m dbModel) dbModel {
	c := m.clone().norm()
	for _, o := range j.Ops {
		switch o[0] {
		case "table":
			if c[o[1]] == nil {
				c[o[1]] = map[string]string{}
			}
		case "set":
			c[o[1]][o[2]] = o[3]
		case "del":
			delete(c[o[1]], o[2])
		}
	}
	return c
}

func genJob(rg *rand.Rand, m dbModel, file string) *dbJob {
	j := &dbJob{File: file, Create: rg.Intn(2) == 0, Depth: []int{-1, 0, 1, 3, 10}[rg.Intn(5)]}
	c := m.clone().norm()
	// always change something that shows
	j.Ops = append(j.Ops, [4]string{"set", "", "serial", strconv.Itoa(rg.Int())})
	c[""]["serial"] = ""
	for i := 0; i < rg.Intn(12); i++ {
		t := []string{"", "t1", "t2"}[rg.Intn(3)]
		if c[t] == nil {
			j.Ops = append(j.Ops, [4]string{"table", t})
			c[t] = map[string]string{}
		}
		k := fmt.Sprintf("k%d", rg.Intn(20))
		if rg.Intn(4) == 0 {
			j.Ops = append(j.Ops, [4]string{"del", t, k})
		} else {
			v := strings.Repeat(string(rune('a'+rg.Intn(26))), []int{1, 50, 3000, 9000}[rg.Intn(4)])
			j.Ops = append(j.Ops, [4]string{"set", t, k, v})
		}
	}
	return j
}

func (j *dbJob) argv(dir string) []string {
	f := filepath.Join(dir, "job.json")
	b, err := json.Marshal(j)
	must(err)
	must(os.WriteFile(f, b, 0600))
	return []string{"-child", "inidb", f}
}

func copyDir(src, dst string) {
	must(os.MkdirAll(dst, 0700))
	es, err := os.ReadDir(src)
	must(err)
	for _, e := range es {
		if e.IsDir() {
			copyDir(filepath.Join(src, e.Name()), filepath.Join(dst, e.Name()))
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		must(err)
		must(os.WriteFile(filepath.Join(dst, e.Name()), b, 0600))
	}
}

func p10(r *Report) {
	r.Level = "fault_enumeration"
	r.Rule = "a case is one (database state, update, system call, kill or error) combination; distinct by all four; non-trivial when the fault was really injected after the save had begun"
	r.Assume = []string{"process crashes and failing system calls; not loss of the page cache"}
	r.Need("killed", 60)
	r.Need("failed_calls", 60)
	n := r.pick(10, 90)
	parallel(n, 8, func(c int) {
		rg := sub(r.Seed, "crash", c)
		root := tempDir("cr")
		defer os.RemoveAll(root)
		ctl := filepath.Join(root, "ctl")
		must(os.MkdirAll(ctl, 0700))
		seed := filepath.Join(root, "seed")
		must(os.MkdirAll(seed, 0700))
		// build an initial database with a history
		m := dbModel{"": {}}.norm()
		fresh := c%5 == 0 // start from no database at all
		if !fresh {
			db, err := inidb.New(filepath.Join(seed, "db.ini"), true, 3)
			if !errors.Is(err, inidb.ErrCreated) {
				r.Violate("create-failed", fmt.Sprint(err), nil)
				return
			}
			_ = db
			for i := 0; i < 1+rg.Intn(4); i++ {
				db, err := inidb.New(filepath.Join(seed, "db.ini"), false, 3)
				if err != nil {
					r.Violate("reopen-failed", err.Error(), nil)
					return
				}
				j := genJob(rg, m, "")
				for _, o := range j.Ops {
					switch o[0] {
					case "table":
						db.NewTable(o[1])
					case "set":
						db.Set(o[1], o[2], o[3])
					case "del":
						db.Del(o[1], o[2])
					}
				}
				if err := db.Save(); err != nil {
					r.Violate("save-failed", err.Error(), nil)
					return
				}
				m = j.apply(m)
			}
		}
		work := filepath.Join(root, "work")
		job := genJob(rg, m, filepath.Join(work, "db.ini"))
		if fresh {
			job.Create = true
		}
		after := job.apply(m)
		reset := func() {
			os.RemoveAll(work)
			copyDir(seed, work)
		}
		argv := job.argv(ctl)
		reset()
		pts, code := crashPoints(argv)
		if code != 0 {
			r.Violate("save-failed", fmt.Sprintf("undisturbed save exits %d", code), job)
			return
		}
		check := func(what string, cp crashPoint, claimed, mayBefore bool) {
			w := map[string]any{"fault": what, "at": cp, "job": job, "files": fileNames(work)}
			r.Case(fmt.Sprintf("%d-%s-%s-%d", c, what, cp.Call, cp.N))
			db, err := inidb.New(job.File, job.Create, job.Depth)
			if err != nil && !(fresh && errors.Is(err, inidb.ErrCreated)) && !(fresh && os.IsNotExist(errors.Unwrap(err))) {
				r.Violate("lost-after-"+what, fmt.Sprintf("at %s #%d: reopening: %v", cp.Call, cp.N, err), w)
				return
			}
			got := readDB(db)
			dBefore, dAfter := diffDB(m.norm(), got), diffDB(after.norm(), got)
			if dAfter == "" {
				r.Count("state_after", 1)
				return
			}
			if dBefore == "" {
				r.Count("state_before", 1)
				if claimed {
					r.Violate("success-not-saved", fmt.Sprintf("%s at %s #%d: save reported success but the database is unchanged", what, cp.Call, cp.N), w)
				}
				return
			}
			if fresh && len(got) == 1 && len(got[""]) == 0 {
				return
			}
			r.Violate("mixed-after-"+what, fmt.Sprintf("at %s #%d: neither old (%s) nor new (%s)", cp.Call, cp.N, dBefore, dAfter), w)
			_ = mayBefore
		}
		for _, cp := range pts {
			reset()
			killed, code := crashAt(cp, argv)
			if killed {
				r.Count("killed", 1)
				r.Count("killed_"+cp.Call, 1)
			}
			check("kill", cp, !killed && code == 0, true)
			// a second process crash on top: the next save must still work
			if killed && rg.Intn(3) == 0 {
				if _, code, _ := straceRun("", argv); code == 0 {
					db, err := inidb.New(job.File, false, job.Depth)
					if err != nil {
						r.Violate("save-after-crash", err.Error(), job)
					} else if d := diffDB(after.norm(), readDB(db)); d != "" {
						r.Violate("save-after-crash", d, job)
					}
					r.Count("saves_after_crash", 1)
				} else {
					r.Violate("save-after-crash", fmt.Sprintf("exit %d", code), map[string]any{"at": cp, "job": job})
				}
			}
			errnos := []string{"ENOSPC"}
			switch cp.Call {
			case "close", "fsync", "fdatasync":
				errnos = []string{"EIO"}
			case "openat", "rename", "renameat", "link", "linkat", "unlinkat", "mkdirat":
				errnos = []string{"ENOSPC", "EACCES"}
			}
			for _, e := range errnos {
				for _, sticky := range []bool{false, true} {
					reset()
					code := failAt(cp, e, sticky, argv)
					r.Count("failed_calls", 1)
					if code == 0 {
						r.Count("survived_"+cp.Call, 1)
					} else if code != 10 && code != 12 {
						r.Violate("fault-crashes", fmt.Sprintf("%s at %s #%d: exit %d", e, cp.Call, cp.N, code), job)
					}
					check("error", cp, code == 0, true)
				}
				// the caller tries again: what a save reports as done is done
				reset()
				aj := *job
				aj.Again = true
				code := failAt(cp, e, false, aj.argv(ctl))
				r.Count("retried_saves", 1)
				if code == 0 {
					r.Count("retried_saves_ok", 1)
				} else if code != 10 && code != 12 {
					r.Violate("fault-crashes", fmt.Sprintf("%s at %s #%d, saved again: exit %d", e, cp.Call, cp.N, code), job)
				}
				check("error-again", cp, code == 0, true)
			}
		}
		// a file system without hard links
		if c%2 == 1 || r.Tier != "quick" {
			straceMore.Store(ctl, "linkat,link:error=EPERM")
			nargv := job.argv(ctl)
			reset()
			npts, code := crashPoints(nargv)
			if code != 0 {
				r.Violate("save-failed", fmt.Sprintf("a save where no hard links are possible exits %d", code), job)
			}
			check("nolink", crashPoint{}, code == 0, true)
			for _, cp := range npts {
				if cp.Call == "link" || cp.Call == "linkat" {
					continue
				}
				reset()
				killed, code := crashAt(cp, nargv)
				if killed {
					r.Count("killed_without_links", 1)
				}
				check("nolink-kill", cp, !killed && code == 0, true)
				reset()
				code = failAt(cp, "ENOSPC", false, nargv)
				r.Count("failed_without_links", 1)
				check("nolink-error", cp, code == 0, true)
			}
			straceMore.Delete(ctl)
		}
		// the disk fills up at every (sampled) size
		reset()
		_, _, _ = straceRun("", argv)
		st, err := os.Stat(job.File)
		if err != nil {
			r.Violate("save-failed", err.Error(), job)
			return
		}
		size := int(st.Size())
		for k := 0; k < r.pick(8, 30); k++ {
			lim := 1 + rg.Intn(size)
			if k == 0 {
				lim = size - 1
			} else if k == 1 {
				lim = 1
			}
			if lim < 1 {
				continue
			}
			reset()
			lj := *job
			lj.Limit = lim
			lj.Again = k%3 == 2
			largv := lj.argv(ctl)
			_, code, _ := straceRun("", largv)
			if code != 12 && code != 10 && code != 0 {
				r.Violate("fault-crashes", fmt.Sprintf("disk full at %d of %d: exit %d", lim, size, code), job)
			}
			r.Count("disk_full", 1)
			check("disk-full", crashPoint{"bytes", lim}, code == 0, true)
		}
		if c < 2 {
			r.Sample(map[string]any{"crash_points": pts, "records": len(after[""]), "fresh": fresh})
		}
	})
}

func fileNames(dir string) []string {
	var o []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		o = append(o, e.Name())
	}
	return o
}
