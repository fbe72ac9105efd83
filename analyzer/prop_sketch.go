package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C41: histogram sketches count exactly -------------------------------------------------------

type sketchOp struct {
	v float64
	n int64
}

type sketchRun struct {
	p   *Program
	e   *Engine
	fns map[string]*ssa.Function
	n   int
}

func fAV(f float64) AV { return mk(&Atom{K: KConst, C: constant.MakeFloat64(f)}) }

func fOf(st *State, v AV) (float64, bool) {
	a := st.norm(v).single()
	if a != nil && a.K == KZero {
		return 0, true
	}
	if a == nil || a.K != KConst || a.C.Kind() != constant.Int && a.C.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(a.C))
	return f, true
}

func (s *sketchRun) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	switch name {
	case "fmt.Fprintln", "fmt.Fprint", "fmt.Fprintf":
		rest, f := a[1], ""
		if name == "fmt.Fprintf" {
			rest = a[2]
			x, ok := strConst(a[1])
			if f = x; !ok {
				return nil, false
			}
		}
		q := e.asSeq(st, rest)
		if q == nil || !closedSeq(q) {
			return nil, false
		}
		var l []interface{}
		for _, x := range q.Args {
			y := x.single()
			if y == nil || y.K != KIface {
				return nil, false
			}
			if t, ok := strConst(y.Args[0]); ok {
				l = append(l, t)
				continue
			}
			f, ok := fOf(st, y.Args[0])
			if !ok {
				return nil, false
			}
			if b, is := y.T.Underlying().(*types.Basic); is && b.Info()&types.IsInteger != 0 {
				l = append(l, int64(f))
			} else {
				l = append(l, f)
			}
		}
		switch name {
		case "fmt.Fprintln":
			st.tags["text"] += fmt.Sprintln(l...)
		case "fmt.Fprint":
			st.tags["text"] += fmt.Sprint(l...)
		default:
			st.tags["text"] += fmt.Sprintf(f, l...)
		}
		return ret(st, Top, vNil())
	case "(*bytes.Buffer).WriteString", "io.WriteString":
		if t, ok := strConst(a[1]); ok {
			st.tags["text"] += t
			return ret(st, cInt(int64(len(t))), vNil())
		}
	case "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		if n, ok := intConst(a[1]); ok {
			st.tags["text"] += string(rune(n))
			if len(resultTypes(c)) == 2 {
				return ret(st, cInt(1), vNil())
			}
			return ret(st, vNil())
		}
	case "(*bytes.Buffer).Bytes":
		return ret(st, symNN("encoded", resultTypes(c)[0]))
	case "bytes.NewBuffer", "bytes.NewReader":
		if sameAV(a[0], symNN("encoded", types.NewSlice(types.Typ[types.Byte]))) {
			return ret(st, symNN("decoding", resultTypes(c)[0]))
		}
	case "fmt.Fscanln", "fmt.Fscan":
		q := e.asSeq(st, a[1])
		if x := stripIface(a[0]).single(); x == nil || x.K != KSym || x.Name != "decoding" || q == nil || !closedSeq(q) {
			return nil, false
		}
		line, rest, _ := strings.Cut(st.tags["text"], "\n")
		if name == "fmt.Fscan" {
			for line = ""; len(strings.Fields(line)) < len(q.Args) && st.tags["text"] != line; {
				line = st.tags["text"][:len(line)+1]
				for len(line) < len(st.tags["text"]) && !strings.ContainsAny(line[len(line)-1:], " \n") {
					line = st.tags["text"][:len(line)+1]
				}
			}
			rest = strings.TrimPrefix(st.tags["text"], line)
			line = strings.ReplaceAll(line, "\n", " ")
		}
		st.tags["text"] = rest
		var l []interface{}
		for _, x := range q.Args {
			y := x.single()
			if y == nil || y.K != KIface {
				return nil, false
			}
			if el, ok := ptrElem(y.T); ok && types.Identical(el.Underlying(), types.Typ[types.Float64]) {
				l = append(l, new(float64))
			} else {
				l = append(l, new(int64))
			}
		}
		if _, err := fmt.Sscanln(line, l...); err != nil {
			return ret(st, cInt(0), symNN("bad line", errT()))
		}
		for i, x := range q.Args {
			t := x.single().Args[0].single()
			o, path, ty := st.target(t)
			if o == nil {
				return nil, false
			}
			v := AV{}
			switch y := l[i].(type) {
			case *float64:
				v = fAV(*y)
			case *int64:
				v = cInt(*y)
			}
			st.write(o.ID, path, ty, v, false)
		}
		return ret(st, cInt(int64(len(l))), vNil())
	case "sort.Float64s":
		b, lo, hi, ok := sliceParts(a[0])
		q := e.asSeq(st, a[0])
		if !ok || q == nil {
			return nil, false
		}
		var l []float64
		for _, x := range q.Args {
			f, ok := fOf(st, x)
			if !ok {
				return nil, false
			}
			l = append(l, f)
		}
		sort.Float64s(l)
		for i := lo; i < hi; i++ {
			st.write(b.Obj, b.Path+"["+itoa(int(i))+"]", types.Typ[types.Float64], fAV(l[i-lo]), false)
		}
		return ret(st)
	}
	return nil, false
}

// call: the only outcome of a call.
func (s *sketchRun) call(st *State, name string, recv AV, args ...AV) (*State, []AV, string) {
	fn := s.fns[name]
	if fn.Signature.Recv() != nil {
		args = append([]AV{}, args...)
		if _, isP := ptrElem(fn.Signature.Recv().Type()); !isP {
			o, path, t := st.target(recv.single())
			if o == nil {
				return st, nil, name + ": the sketch is not known"
			}
			recv = st.read(o, path, t)
		}
		args = append([]AV{recv}, args...)
	}
	s.n++
	xs := normalExits(s.e.run(fn, args, nil, st, "k"+itoa(s.n)))
	switch {
	case s.e.crashed() != "":
		return st, nil, "there is a panic at " + s.e.crashed()
	case len(s.e.undecided) > 0 || len(xs) != 1:
		return st, nil, fmt.Sprintf("%s has %d outcomes", name, len(xs))
	}
	return xs[0].st, xs[0].res, ""
}

// inspect compares what a sketch says with the values it was given.
// With loose, values that are equal may be in several bins, as in what is made
// from a sample.
func (s *sketchRun) inspect(st *State, h AV, ops []sketchOp, n int, loose bool) (string, string) {
	total, sum, lo, hi := 0.0, 0.0, math.Inf(1), math.Inf(-1)
	counts := map[float64]float64{}
	for _, o := range ops {
		total, sum = total+float64(o.n), sum+o.v*float64(o.n)
		lo, hi = math.Min(lo, o.v), math.Max(hi, o.v)
		counts[o.v] += float64(o.n)
	}
	say := ""
	for name, want := range map[string]float64{"Count": total, "Min": lo, "Max": hi} {
		if len(ops) == 0 && name != "Count" {
			continue
		}
		_, res, w := s.call(st.clone(), name, h)
		if w != "" {
			return w, ""
		}
		if got, ok := fOf(st, res[0]); !ok || got != want {
			return fmt.Sprintf("%s is %s, expected %v", name, clip(res[0].Key()), want), ""
		}
	}
	if len(ops) == 0 {
		return "", ""
	}
	s2, res, w := s.call(st.clone(), "Read", h)
	if w != "" {
		return w, ""
	}
	var l [2][]float64
	for i := range l {
		q := s.e.asSeq(s2, s2.norm(res[i]))
		if q == nil || !closedSeq(q) {
			return "what is read is " + clip(res[i].Key()), ""
		}
		for _, x := range q.Args {
			f, ok := fOf(s2, x)
			if !ok {
				return "what is read holds " + clip(x.Key()), ""
			}
			l[i] = append(l[i], f)
		}
	}
	bins, freq := l[0], l[1]
	say = fmt.Sprint(bins, freq)
	if len(freq) > n || len(freq) == 0 || len(bins) != len(freq)+1 {
		return fmt.Sprintf("%d bins and %d frequencies of at most %d are read", len(bins), len(freq), n), ""
	}
	t, m := 0.0, 0.0
	for i, f := range freq {
		t, m = t+f, m+f*bins[i]
		if f <= 0 {
			return fmt.Sprintf("the frequency of bin %d is %v", i, f), ""
		}
		if bins[i] > bins[i+1] || bins[i] == bins[i+1] && !loose {
			return fmt.Sprintf("the bins are not in order: %v", bins), ""
		}
		if !loose && len(counts) <= n && counts[bins[i]] != f {
			return fmt.Sprintf("the frequency of %v is %v, expected %v", bins[i], f, counts[bins[i]]), ""
		}
	}
	if t != total || math.Abs(m-sum) > 1e-9*(1+math.Abs(sum)) {
		return fmt.Sprintf("the frequencies %v of the bins %v are those of %v values with the sum %v, expected %v and %v", freq, bins, t, m, total, sum), ""
	}
	for _, p := range []float64{lo - 1, lo, (lo + hi) / 2, hi, hi + 1} {
		want := 0.0
		for v, c := range counts {
			if v <= p {
				want += c
			}
		}
		if (loose || len(counts) > n) && p >= lo && p < hi {
			continue
		}
		_, res, w := s.call(st.clone(), "Sum", h, fAV(p))
		if w != "" {
			return w, ""
		}
		if got, ok := fOf(st, res[0]); !ok || got != want {
			return fmt.Sprintf("the number of values up to %v is %s, expected %v", p, clip(res[0].Key()), want), ""
		}
	}
	last := math.Inf(-1)
	for _, p := range []float64{0, .1, .25, .4999999, .5, .75, .99, 1, -1} {
		name, args := "Quantile", []AV{fAV(p)}
		if p < 0 {
			name, args, last = "Median", nil, math.Inf(-1)
		}
		_, res, w := s.call(st.clone(), name, h, args...)
		if w != "" {
			return w, ""
		}
		got, ok := fOf(st, res[0])
		if eps := 1e-9 * (1 + hi - lo); !ok || !(got >= lo-eps && got <= hi+eps) || got < last-eps {
			return fmt.Sprintf("quantile %v (-1: the median) is %s (the one before is %v), the values are between %v and %v", p, clip(res[0].Key()), last, lo, hi), ""
		}
		last = got
	}
	return "", say
}

func checkSketch(p *Program) *Report {
	r := newReport("C41")
	r.Rule = "Abstract interpretation of histogram sketches on known values, with slices that have capacities and share their arrays: after every sequence of additions, merges and an encoding and decoding, the count, the extremes and the sum of all values are exact, bins are in order, at most as many as configured, with positive frequencies that add up, and exact as long as there are enough bins."
	pkg := modPath + "/dsstats/histosketch"
	t := p.typ(pkg, "Sketch")
	fns := map[string]*ssa.Function{"New": p.fn("dsstats/histosketch.New"), "NewFromSample": p.fn("dsstats/histosketch.NewFromSample")}
	for _, m := range []string{"Count", "Min", "Max", "Add", "AddMany", "Merge", "Sum", "Quantile", "Median", "Read", "MarshalBinary", "UnmarshalBinary"} {
		if t != nil {
			fns[m] = p.method(pkg, "Sketch", m)
		}
	}
	for n, f := range fns {
		if !r.need(f != nil, n+" of sketches") {
			return r
		}
	}
	pos := p.fpos(fns["AddMany"])
	var jobs []func(r *Report)
	job := func(id string, f func(s *sketchRun, st *State) string) {
		jobs = append(jobs, func(r *Report) {
			s := &sketchRun{p: p, fns: fns, e: newEngine(p)}
			st := baseState(p)
			s.e.arrays, s.e.apart = true, true
			s.e.streams = &streamCfg{bytes: &byteCfg{follow: true, rounds: 80}}
			s.e.preHook, s.e.extHook = s.hook, s.hook
			st.maxFresh = 3000
			w := f(s, st)
			r.engine(s.e)
			r.Counters["histories of sketches"]++
			r.check(w == "", id, pos, "%s", w)
		})
	}
	build := func(s *sketchRun, st *State, ops []sketchOp, n int) (*State, AV, string) {
		st, res, w := s.call(st, "New", AV{}, cInt(int64(n)))
		if w != "" {
			return st, Top, w
		}
		h := res[0]
		for _, o := range ops {
			if o.n == 1 {
				st, _, w = s.call(st, "Add", h, fAV(o.v))
			} else {
				st, _, w = s.call(st, "AddMany", h, fAV(o.v), cInt(o.n))
			}
			if w != "" {
				return st, Top, w
			}
		}
		return st, h, ""
	}
	vals := []sketchOp{{1, 1}, {2, 1}, {2.5, 1}, {-3, 1}, {7, 3}}
	var seqs [][]sketchOp
	var gen func(l []sketchOp)
	gen = func(l []sketchOp) {
		seqs = append(seqs, append([]sketchOp{}, l...))
		if len(l) < 3 || len(l) < 4 && l[0].v == 1 {
			for _, v := range vals {
				gen(append(l, v))
			}
		}
	}
	gen(nil)
	long := []sketchOp{{5, 1}, {1, 2}, {9, 1}, {4, 1}, {4.5, 2}, {-1, 1}, {9, 4}, {3, 1}, {20, 1}, {19, 1}, {-8, 1}}
	for i := 5; i <= len(long); i++ {
		seqs = append(seqs, long[:i])
	}
	for _, n := range []int{1, 2, 3, 8} {
		for _, ops := range seqs {
			job(fmt.Sprintf("add %d %v", n, ops), func(s *sketchRun, st *State) string {
				st, h, w := build(s, st, ops, n)
				if w == "" {
					w, _ = s.inspect(st, h, ops, n, false)
				}
				return w
			})
			if len(ops) < 2 && n > 1 || len(ops) == 4 && n != 2 {
				continue
			}
			job(fmt.Sprintf("encode %d %v", n, ops), func(s *sketchRun, st *State) string {
				st, h, w := build(s, st, ops, n)
				if w != "" {
					return w
				}
				_, was := s.inspect(st, h, ops, n, false)
				st, res, w := s.call(st, "MarshalBinary", h)
				if w != "" || st.isZero(res[1]) != T {
					return "encoding fails: " + w
				}
				enc := res[0]
				st, res, w = s.call(st, "New", AV{}, cInt(1))
				if w != "" {
					return w
				}
				h = res[0]
				if st, _, w = s.call(st, "Add", h, fAV(100)); w != "" {
					return w
				}
				st, res, w = s.call(st, "UnmarshalBinary", h, enc)
				if w != "" || st.isZero(res[0]) != T {
					return "decoding what was encoded fails: " + w
				}
				w, is := s.inspect(st, h, ops, n, false)
				if w == "" && was != is {
					w = fmt.Sprintf("%s was encoded, %s is decoded", was, is)
				}
				return w
			})
			for _, more := range [][]sketchOp{nil, {{2, 1}}, {{1, 2}, {8, 1}}, {{-9, 1}, {-8, 1}, {30, 1}, {31, 2}}} {
				if len(ops) == 4 && n != 2 {
					continue
				}
				job(fmt.Sprintf("merge %d %v and %v", n, ops, more), func(s *sketchRun, st *State) string {
					st, h, w := build(s, st, ops, n)
					if w != "" {
						return w
					}
					st, x, w := build(s, st, more, 2)
					if w != "" {
						return w
					}
					o, path, ty := st.target(x.single())
					if o == nil {
						return "the sketch is not known"
					}
					xv := st.read(o, path, ty)
					st, _, w = s.call(st, "Merge", h, xv)
					if w != "" {
						return w
					}
					all := append(append([]sketchOp{}, ops...), more...)
					w, _ = s.inspect(st, h, all, n, len(more) > 2)
					return w
				})
			}
		}
	}
	for _, ops := range seqs {
		if len(ops) == 0 {
			continue
		}
		for _, n := range []int{1, 2, 3, 5, 12} {
			if len(ops) == 4 && n > 2 || len(ops) > 8 && n == 5 {
				continue
			}
			job(fmt.Sprintf("sample %d %v", n, ops), func(s *sketchRun, st *State) string {
				f64 := types.Typ[types.Float64]
				l := s.e.newArray(st, "sample", f64, int64(len(ops)), int64(len(ops)))
				b, _, _, _ := sliceParts(l)
				var once []sketchOp
				for i, o := range ops {
					st.write(b.Obj, "["+itoa(i)+"]", f64, fAV(o.v), false)
					once = append(once, sketchOp{o.v, 1})
				}
				st, res, w := s.call(st, "NewFromSample", AV{}, l, cInt(int64(n)))
				if w != "" {
					return w
				}
				w, _ = s.inspect(st, res[0], once, n, n <= len(ops))
				return w
			})
		}
	}
	r.run(jobs)
	return r
}
