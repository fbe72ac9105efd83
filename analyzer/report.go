package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Report collects the obligations of one property.
type Report struct {
	Prop        string
	Level       string
	Rule        string
	Obligations int
	Discharged  int
	Violations  []Violation
	Samples     []string
	Funcs       map[string]bool
	Sites       map[string]bool
	Counters    map[string]int
	Runs        int            // of the engine
	Crashes     map[string]int // where they panic
	Assume      []string
	Trusted     []string
}

type Violation struct {
	ID   string // rule + construct, stable across unrelated edits
	Text string
	Pos  string
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Level: "other", Funcs: map[string]bool{}, Sites: map[string]bool{}, Counters: map[string]int{}}
}

func (r *Report) ok(id string) {
	r.Obligations++
	r.Discharged++
	if len(r.Samples) < 6 || (r.Obligations%97 == 0 && len(r.Samples) < 14) {
		r.Samples = append(r.Samples, id)
	}
}

func (r *Report) bad(id, pos, text string, args ...interface{}) {
	r.Obligations++
	r.Violations = append(r.Violations, Violation{ID: id, Pos: pos, Text: fmt.Sprintf(text, args...)})
}

func (r *Report) check(cond bool, id, pos, text string, args ...interface{}) bool {
	if cond {
		r.ok(id)
	} else {
		r.bad(id, pos, text, args...)
	}
	return cond
}

// need fails the property when an anchor it is stated over is gone.
func (r *Report) need(cond bool, what string) bool {
	if !cond {
		r.bad("anchor:"+what, "", "the analysis cannot find %s, which the property is stated over", what)
	}
	return cond
}

// atLeast guards against a rule that silently matches nothing.
func (r *Report) atLeast(n, min int, what string) {
	r.Counters[what] = n
	if n < min {
		r.bad("coverage:"+what, "", "only %d %s analysed, at least %d expected", n, what, min)
	}
}

func (r *Report) engine(e *Engine) {
	for f := range e.inlined {
		r.Funcs[f] = true
	}
	r.Runs++
	for c := range e.crashes {
		if r.Crashes == nil {
			r.Crashes = map[string]int{}
		}
		r.Crashes[c]++
	}
}

type knownFinding struct {
	prop, id, text string
}

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "known: ") {
			continue
		}
		// known: property=C21 id=<rule+construct> :: what fails
		rest := strings.TrimPrefix(ln, "known: ")
		parts := strings.SplitN(rest, " :: ", 2)
		var k knownFinding
		if len(parts) == 2 {
			k.text = parts[1]
		}
		f := strings.SplitN(parts[0], " id=", 2)
		if len(f) != 2 {
			continue
		}
		k.prop = strings.TrimPrefix(f[0], "property=")
		k.id = f[1]
		out = append(out, k)
	}
	return out
}

func (r *Report) finish(verif string, start time.Time, tier string, seed int) int {
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var fresh []Violation
	nKnown := 0
	seen := map[string]bool{}
	for _, v := range r.Violations {
		k := false
		for _, kf := range known {
			if kf.prop == r.Prop && kf.id == v.ID {
				k = true
				if !seen[v.ID] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, kf.text)
					seen[v.ID] = true
				}
			}
		}
		if k {
			nKnown++
		} else {
			fresh = append(fresh, v)
		}
	}
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].ID < fresh[j].ID })
	cov := map[string]interface{}{
		"explanation":           r.Rule,
		"obligations":           r.Obligations,
		"discharged":            r.Discharged,
		"known_findings":        nKnown,
		"functions_interpreted": sortedKeys(r.Funcs),
		"sites":                 len(r.Sites),
		"counters":              r.Counters,
		"samples":               r.Samples,
	}
	if len(r.Sites) > 0 {
		sk := sortedKeys(r.Sites)
		if len(sk) > 60 {
			sk = sk[:60]
		}
		cov["site_samples"] = sk
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(fresh), "assumptions": r.Assume,
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644)
	replay := filepath.Join(dir, r.Prop+".violations.txt")
	os.Remove(replay)
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d known=%d functions=%d (%.2fs)\n", r.Prop, r.Obligations, r.Discharged, nKnown, len(r.Funcs), time.Since(start).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&sb, "[%s] %s %s: %s\n", r.Prop, v.ID, v.Pos, v.Text)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	lines := strings.Split(strings.TrimSpace(sb.String()), "\n")
	for i, l := range lines {
		if i >= 25 {
			fmt.Printf("... %d more\n", len(lines)-i)
			break
		}
		fmt.Println(l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}

func sortedKeys(m map[string]bool) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// run executes jobs in parallel, each with its own report, and merges them in order.
func (r *Report) run(jobs []func(r *Report)) {
	subs := make([]*Report, len(jobs))
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				s := newReport(r.Prop)
				func() {
					defer func() {
						if x := recover(); x != nil {
							s.bad("analysis", "", "the analysis itself failed: %v\n%s", x, debug.Stack())
						}
					}()
					jobs[i](s)
				}()
				subs[i] = s
			}
		}()
	}
	for i := range jobs {
		next <- i
	}
	close(next)
	wg.Wait()
	for _, s := range subs {
		r.Obligations += s.Obligations
		r.Discharged += s.Discharged
		r.Violations = append(r.Violations, s.Violations...)
		if len(r.Samples) < 14 {
			r.Samples = append(r.Samples, s.Samples...)
		}
		for k := range s.Funcs {
			r.Funcs[k] = true
		}
		r.Runs += s.Runs
		for k, n := range s.Crashes {
			if r.Crashes == nil {
				r.Crashes = map[string]int{}
			}
			r.Crashes[k] += n
		}
		for k := range s.Sites {
			r.Sites[k] = true
		}
		for k, v := range s.Counters {
			r.Counters[k] += v
		}
	}
	if len(r.Samples) > 14 {
		r.Samples = r.Samples[:14]
	}
}
