package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Report collects what a monitor observed and decides the verdict.
type Report struct {
	Prop, Tier string
	Seed       int64
	Level      string
	Rule       string
	Assume     []string

	verif string
	start time.Time

	mu        sync.Mutex
	evals     int
	distinct  map[string]struct{}
	samples   []any
	counters  map[string]int
	viol      []violation
	violSig   map[string]int
	known     map[string]string // signature -> description
	knownHit  map[string]int
	inconc    []string
	minCounts map[string]int
}

type violation struct {
	Property string `json:"property"`
	Sig      string `json:"signature"`
	Detail   string `json:"detail"`
	Witness  any    `json:"witness,omitempty"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
}

func newReport(prop, tier string, seed int64, verif string) *Report {
	r := &Report{Prop: prop, Tier: tier, Seed: seed, Level: "exploration",
		verif: verif, start: time.Now(),
		distinct: map[string]struct{}{}, counters: map[string]int{},
		violSig: map[string]int{}, known: map[string]string{},
		knownHit: map[string]int{}, minCounts: map[string]int{}}
	// known findings: lines "finding: property=<id> sig=<signature> <text>"
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			l := strings.TrimSpace(sc.Text())
			if !strings.HasPrefix(l, "finding:") {
				continue
			}
			var id, sig, text string
			fl := strings.Fields(strings.TrimPrefix(l, "finding:"))
			for i, w := range fl {
				if strings.HasPrefix(w, "property=") {
					id = w[len("property="):]
				} else if strings.HasPrefix(w, "sig=") {
					sig = w[len("sig="):]
				} else {
					text = strings.Join(fl[i:], " ")
					break
				}
			}
			if id == prop && sig != "" {
				r.known[sig] = text
			}
		}
		f.Close()
	}
	return r
}

func (r *Report) thorough() bool { return r.Tier == "thorough" }

// pick returns q in the quick tier, t in the thorough tier.
func (r *Report) pick(q, t int) int {
	if r.thorough() {
		return t
	}
	return q
}

// Case records one evaluated case; key identifies it for distinctness, an
// empty key means it was trivial.
func (r *Report) Case(key string) {
	r.mu.Lock()
	r.evals++
	if key != "" {
		if len(key) > 64 {
			s := sha256.Sum256([]byte(key))
			key = hex.EncodeToString(s[:16])
		}
		r.distinct[key] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Report) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Need declares that the run is only meaningful if counter reached min.
func (r *Report) Need(name string, min int) {
	r.mu.Lock()
	r.minCounts[name] = min
	r.mu.Unlock()
}

func (r *Report) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

func (r *Report) Violate(sig, detail string, witness any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[sig]; ok {
		r.knownHit[sig]++
		return
	}
	r.violSig[sig]++
	if r.violSig[sig] > 3 {
		return
	}
	r.viol = append(r.viol, violation{r.Prop, sig, detail, witness, r.Seed, r.Tier})
	if len(detail) > 1500 {
		detail = detail[:1500] + "..."
	}
	fmt.Fprintf(os.Stderr, "[%s] violated: %s: %s\n", r.Prop, sig, detail)
}

// Failed tells whether a violation has been recorded already.
func (r *Report) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) > 0
}

func (r *Report) Inconclusive(f string, a ...any) {
	r.mu.Lock()
	r.inconc = append(r.inconc, fmt.Sprintf(f, a...))
	r.mu.Unlock()
	fmt.Fprintf(os.Stderr, "[%s] inconclusive: %s\n", r.Prop, fmt.Sprintf(f, a...))
}

// Guard runs f and turns a panic of the code under test into a violation.
func (r *Report) Guard(sig string, witness any, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			ok = false
			r.Violate(sig, fmt.Sprintf("panic: %v\n%s", p, trimStack(string(debug.Stack()))), witness)
		}
	}()
	f()
	return true
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 30 {
		l = l[:30]
	}
	return strings.Join(l, "\n")
}

// raceReports returns the race detector reports written to path.*.
func raceReports(path string) []string {
	var out []string
	m, _ := filepath.Glob(path + ".*")
	for _, f := range m {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "WARNING: DATA RACE") {
				out = append(out, strings.TrimSpace(blk))
			}
		}
	}
	return out
}

// raceSig reduces a race report to the functions of the code under test it
// names, in order.
func raceSig(rep string) (sig string, inRepo bool) {
	var fn []string
	seen := map[string]bool{}
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "github.com/companyzero/zkc/") || strings.HasPrefix(t, "main.(*ZK") {
			inRepo = true
			if i := strings.LastIndex(t, "("); i > 0 {
				t = t[:i]
			}
			t = strings.TrimPrefix(t, "github.com/companyzero/zkc/")
			if !seen[t] {
				seen[t] = true
				fn = append(fn, t)
			}
		}
		if strings.HasPrefix(t, "Goroutine") {
			break
		}
	}
	sort.Strings(fn)
	return "race:" + strings.Join(fn, "+"), inRepo
}

// Races adds the race reports below path as violations.
func (r *Report) Races(path string) {
	reps := raceReports(path)
	r.Count("race_reports", len(reps))
	for _, rep := range reps {
		sig, _ := raceSig(rep)
		r.Violate(sig, rep, nil)
	}
}

func (r *Report) Finish() int {
	if p := os.Getenv("VERIF_RACELOG"); p != "" {
		r.Races(p)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, min := range r.minCounts {
		if r.counters[k] < min && len(r.viol) == 0 {
			r.inconc = append(r.inconc, fmt.Sprintf("observed %s=%d, need at least %d", k, r.counters[k], min))
		}
	}
	rule := r.Rule
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                rule,
		"samples":             r.samples,
		"observed":            r.counters,
	}
	if len(r.inconc) > 0 {
		cov["inconclusive"] = r.inconc
	}
	if len(r.knownHit) > 0 {
		cov["known_findings_seen"] = r.knownHit
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
		"violations": len(r.viol),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	if r.samples == nil {
		cov["samples"] = []any{"none"}
	}
	evdir := filepath.Join(r.verif, "evidence")
	os.MkdirAll(evdir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(evdir, r.Prop+".json"), b, 0644)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "evidence: %v\n", err)
		return 2
	}
	for sig, text := range r.known {
		if r.knownHit[sig] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, text)
		}
	}
	fmt.Printf("[%s] %s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs\n",
		r.Prop, r.Tier, r.Seed, r.evals, len(r.distinct), len(r.viol), time.Since(r.start).Seconds())
	var ks []string
	for k := range r.counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("[%s]   %s = %d\n", r.Prop, k, r.counters[k])
	}
	if len(r.viol) > 0 {
		rp := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.json", r.Prop, r.Seed))
		b, err := json.MarshalIndent(r.viol, "", " ")
		if err != nil {
			b = []byte(fmt.Sprintf("%+v", r.viol))
		}
		os.WriteFile(rp, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
		return 1
	}
	if len(r.inconc) > 0 || r.evals == 0 {
		fmt.Printf("INCONCLUSIVE property=%s: %v\n", r.Prop, r.inconc)
		return 2
	}
	return 0
}
