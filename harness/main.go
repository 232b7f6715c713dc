// vh runs one property monitor against the code under test.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
)

type checkFn func(r *Report)

var checks = map[string]checkFn{}

func register(id string, f checkFn) { checks[id] = f }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verif directory")
	list := flag.Bool("list", false, "list properties")
	super := flag.Bool("super", false, "supervise the monitor")
	child := flag.String("child", "", "run as a helper child")
	flag.Parse()
	if *child != "" {
		os.Exit(runChild(*child, flag.Args()))
	}
	if *list {
		var ks []string
		for k := range checks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
		return
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	if *super {
		os.Exit(supervise(*prop, *tier, seed, *verif))
	}
	f, ok := checks[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	r := newReport(*prop, *tier, seed, *verif)
	func() {
		defer func() {
			if p := recover(); p != nil {
				// a harness failure, or the code under test panicking
				// outside of a guard: show it, and call it inconclusive
				// unless the code under test is on top of the stack
				st := string(debug.Stack())
				if panicInRepo(st) {
					r.Violate("panic", fmt.Sprintf("panic: %v\n%s", p, trimStack(st)), nil)
				} else {
					r.Inconclusive("harness panic: %v\n%s", p, st)
				}
			}
		}()
		f(r)
	}()
	cleanupAll()
	os.Exit(r.Finish())
}
