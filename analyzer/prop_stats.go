package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C40: statistics describe the columns ---------------------------------------------------------
//
// Entries are trees of known values, chosen so that every order of magnitudes, every
// mixture of types and every shape of rows appears; constants are folded through the
// accumulators. The sketch libraries are opaque: what is put into one is remembered,
// and what is read from it is a term over it.

type val struct {
	kind string // float64, float32, int, int32, int64, string, bool, null, list, map, other
	f    float64
	i    int64
	s    string
	b    bool
	list []val
	keys []string
}

func vF(f float64) val             { return val{kind: "float64", f: f} }
func vI(kind string, i int64) val  { return val{kind: kind, i: i} }
func vS(s string) val              { return val{kind: "string", s: s} }
func vB(b bool) val                { return val{kind: "bool", b: b} }
func vL(l ...val) val              { return val{kind: "list", list: l} }
func vM(keys string, l ...val) val { return val{kind: "map", keys: strings.Fields(keys), list: l} }
func (v val) is(kinds string) bool { return strings.Contains(" "+kinds+" ", " "+v.kind+" ") }
func (v val) number() (float64, bool) {
	switch v.kind {
	case "float64", "float32":
		return v.f, true
	case "int", "int32", "int64":
		return float64(v.i), true
	}
	return 0, false
}

func (v val) String() string {
	switch v.kind {
	case "float64", "float32":
		return fmt.Sprint(v.f)
	case "int", "int32", "int64":
		return fmt.Sprint(v.i)
	case "string":
		return fmt.Sprintf("%.12q", v.s)
	case "bool":
		return fmt.Sprint(v.b)
	case "list", "map":
		var p []string
		for i, x := range v.list {
			k := ""
			if v.kind == "map" {
				k = v.keys[i] + ":"
			}
			p = append(p, k+x.String())
		}
		return v.kind + "[" + strings.Join(p, " ") + "]"
	}
	return v.kind
}

var vNull = val{kind: "null"}

// av: the value as an interface.
func (v val) av(st *State, id string) AV {
	b := map[string]types.Type{"float64": f64T, "float32": types.Typ[types.Float32], "int": intT, "int32": types.Typ[types.Int32], "int64": types.Typ[types.Int64]}
	switch v.kind {
	case "float64", "float32":
		return iface(b[v.kind], mk(&Atom{K: KConst, C: constant.MakeFloat64(v.f)}))
	case "int", "int32", "int64":
		return iface(b[v.kind], cInt(v.i))
	case "string":
		return iface(strT, cStr(v.s))
	case "bool":
		return iface(boolTy, cBool(v.b))
	case "list":
		var items []AV
		for i, x := range v.list {
			items = append(items, x.av(st, id+"."+itoa(i)))
		}
		return iface(anySeq, seqOf(anySeq, items...))
	case "map":
		var kv []AV
		for i, x := range v.list {
			kv = append(kv, cStr(v.keys[i]), x.av(st, id+"."+v.keys[i]))
		}
		return iface(anyMap, newMap(st, "VAL:"+id, anyMap, kv...))
	case "other":
		t := types.NewPointer(strT)
		return iface(t, symNN("other", t))
	}
	return vNil()
}

// column is what the statistics of a column of values must be.
type column struct {
	typ  string
	key  *string
	vals []val // of the type of the column
	mem  []*column
	keys []string
}

func newColumn(v val) *column {
	switch v.kind {
	case "float64", "float32", "int", "int32", "int64":
		return &column{typ: "numeric"}
	case "string":
		return &column{typ: "string"}
	case "bool":
		return &column{typ: "boolean"}
	case "list":
		return &column{typ: "array"}
	case "map":
		return &column{typ: "object"}
	}
	return &column{typ: "null"}
}

func (c *column) add(v val) {
	switch c.typ {
	case "numeric":
		if _, ok := v.number(); ok {
			c.vals = append(c.vals, v)
		}
	case "string", "null":
		if v.kind == c.typ {
			c.vals = append(c.vals, v)
		}
	case "boolean":
		if v.kind == "bool" {
			c.vals = append(c.vals, v)
		}
	case "array":
		if v.kind == "list" {
			for i, x := range v.list {
				if i == len(c.mem) {
					c.mem = append(c.mem, newColumn(x))
				}
				c.mem[i].add(x)
			}
		}
	case "object":
		if v.kind == "map" {
			for i, k := range v.keys {
				j := sort.SearchStrings(c.keys, k)
				if j == len(c.keys) || c.keys[j] != k {
					c.keys = append(c.keys[:j], append([]string{k}, c.keys[j:]...)...)
					k := k
					m := newColumn(v.list[i])
					m.key = &k
					c.mem = append(c.mem[:j], append([]*column{m}, c.mem[j:]...)...)
				}
				c.mem[j].add(v.list[i])
			}
		}
	}
}

type statsRun struct {
	p   *Program
	e   *Engine
	log map[string][]string
}

func sketchPkg(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	n := shortName(fn)
	for _, p := range []string{"axiomhq/hyperloglog", "dgryski/go-topk", "histosketch"} {
		if strings.Contains(n, p+".") {
			return p[strings.LastIndex(p, "/")+1:]
		}
	}
	return ""
}

// sketch answers calls of the sketch libraries.
func (s *statsRun) sketch(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	kind := sketchPkg(c.StaticCallee())
	if kind == "" {
		return nil, false
	}
	res := resultTypes(c)
	meth := name[strings.LastIndex(name, ".")+1:]
	if c.Signature().Recv() == nil {
		if len(res) == 0 {
			return nil, false
		}
		id, _ := st.fresh("SK:" + kind)
		st.tags[id] = "|"
		return ret(st, symNN(id, res[0]))
	}
	id := ""
	if x := a[0].single(); x != nil && x.K == KSym && strings.HasPrefix(x.Name, "SK:") {
		id = x.Name
	}
	if id == "" {
		e.fail("a call of " + name + " on an unknown sketch")
		return nil, false
	}
	put := func(v AV) {
		v = e.bytesVal(st, st.norm(v))
		st.tags[id] += v.Key() + "|"
	}
	one := func(v AV) {
		if n, ok := intConst(v); !ok || n != 1 {
			st.tags[id] += "times " + v.Key() + "|"
		}
	}
	switch meth {
	case "Add":
		put(a[1])
		return ret(st)
	case "AddMany":
		put(a[1])
		one(a[2])
		return ret(st)
	case "Insert":
		put(a[1])
		if kind == "go-topk" {
			one(a[2])
		}
		var out []AV
		for _, t := range res {
			n, _ := st.fresh("sk.insert")
			out = append(out, sym(n, t))
		}
		return ret(st, out...)
	case "Quantile":
		if x := a[1].single(); x != nil && x.K == KConst {
			if f, _ := constant.Float64Val(x.C); f == 0.5 {
				meth = "Median"
			}
		}
	case "Keys":
		return s.topKeys(e, st, id, res[0])
	}
	var out []AV
	for i, t := range res {
		out = append(out, mk(&Atom{K: KApp, Name: "sk." + meth + itoa(i), Args: []AV{cStr(id), cStr(st.tags[id])}, T: t, NonNil: st.tags[id] != "|"}))
	}
	return ret(st, out...)
}

// topKeys: the distinct texts with their numbers, most frequent first.
func (s *statsRun) topKeys(e *Engine, st *State, id string, t types.Type) ([]Outcome, bool) {
	el := t.Underlying().(*types.Slice).Elem()
	var order []string
	n := map[string]int{}
	for _, k := range strings.Split(strings.Trim(st.tags[id], "|"), "|") {
		if k == "" {
			continue
		}
		if n[k] == 0 {
			order = append(order, k)
		}
		n[k]++
	}
	sort.SliceStable(order, func(i, j int) bool { return n[order[i]] > n[order[j]] })
	var items []AV
	for _, k := range order {
		x := &Atom{K: KStruct, T: el}
		for _, f := range fieldsOf(el) {
			x.Names = append(x.Names, f.name)
			switch f.name {
			case "Key":
				x.Args = append(x.Args, cStr(s.text(k)))
			case "Count":
				x.Args = append(x.Args, cInt(int64(n[k])))
			default:
				x.Args = append(x.Args, sym("sk."+f.name, f.t))
			}
		}
		items = append(items, mk(x))
	}
	return ret(st, seqOf(t, items...))
}

var textPool = []string{"", "a", "bb", "ccc", "é", strings.Repeat("x", 40), strings.Repeat("y", 41), strings.Repeat("z", 40) + "1234", strings.Repeat("z", 40) + "5678"}

func (s *statsRun) text(key string) string {
	for _, t := range textPool {
		if cStr(t).Key() == key {
			return t
		}
	}
	s.e.fail("the text " + clip(key) + " in a sketch is none of the values")
	return ""
}

func (s *statsRun) start() *State {
	s.e = newEngine(s.p)
	s.e.streams = &streamCfg{bytes: &byteCfg{tail: "eof", any: Top, follow: true, rec: map[string]map[string]bool{}, mods: map[*ssa.Function]map[string]bool{}, recs: map[*ssa.Function]bool{}, done: map[string]bool{}}}
	s.e.inlineHook = func(fn *ssa.Function) bool { return sketchPkg(fn) == "" }
	s.e.preHook = s.sketch
	s.e.backwards = true
	s.e.apart, s.e.maxSteps = true, 20000
	st := baseState(s.p)
	st.maxFresh = 400
	return st
}

func (s *statsRun) call(st *State, fn *ssa.Function, ctx string, args ...AV) []Exit {
	n := st.clone()
	n.env = map[ssa.Value]AV{}
	return normalExits(s.e.run(fn, args, nil, n, ctx))
}

// numOf: v is a number.
func numOf(v AV) (float64, bool) {
	a := stripIface(v).single()
	if a == nil {
		return 0, false
	}
	if a.K == KZero {
		return 0, true
	}
	if a.K != KConst || a.C.Kind() != constant.Int && a.C.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(a.C)
	return f, true
}

func (s *statsRun) entry(st *State, m AV, key string) (AV, bool) {
	a := st.norm(stripIface(m)).single()
	if a == nil || a.K != KMap || st.get(a.Obj) == nil {
		return Top, false
	}
	for _, en := range st.get(a.Obj).Ents {
		if k, ok := strConst(en.Key); ok && k == key {
			return st.norm(en.Val), en.P == PMust
		}
	}
	return Top, false
}

func (s *statsRun) keysOf(st *State, m AV) ([]string, bool) {
	a := st.norm(stripIface(m)).single()
	if a == nil || a.K != KMap || st.get(a.Obj) == nil || st.get(a.Obj).Rest != RNone {
		return nil, false
	}
	var out []string
	for _, en := range st.get(a.Obj).Ents {
		switch {
		case en.P == PMust || sameAV(en.Key, cStr("median")):
			// an unknown median may be compared with the default
			k, ok := strConst(en.Key)
			if !ok {
				return nil, false
			}
			out = append(out, k)
		case en.P != PAbsent:
			return nil, false
		}
	}
	sort.Strings(out)
	return out, true
}

// matches: the map m is what the column's statistics must be.
func (s *statsRun) matches(st *State, m AV, c *column, top bool) string {
	var want []string
	num := func(key string, f float64, t types.Type) string {
		want = append(want, key)
		v, ok := s.entry(st, m, key)
		if !ok {
			return fmt.Sprintf("%q is missing", key)
		}
		g, isC := numOf(v)
		if a := v.single(); a != nil && a.K == KIface && typeKey(a.T) != typeKey(t) {
			return fmt.Sprintf("%q has the type %s", key, typeKey(a.T))
		}
		if !isC || math.Abs(g-f) > 1e-9*math.Max(1, math.Abs(f)) {
			return fmt.Sprintf("%q is %s, expected %v", key, clip(v.Key()), f)
		}
		return ""
	}
	text := func(key, t string) string {
		want = append(want, key)
		v, ok := s.entry(st, m, key)
		if g, isC := strConst(stripIface(v)); !ok || !isC || g != t {
			return fmt.Sprintf("%q is %s, expected %q", key, clip(v.Key()), t)
		}
		return ""
	}
	var whys []string
	is := func(w string) {
		if w != "" {
			whys = append(whys, w)
		}
	}
	if top {
		is(text("type", c.typ))
		if c.key != nil {
			is(text("key", *c.key))
		}
	}
	switch c.typ {
	case "numeric":
		is(num("count", float64(len(c.vals)), intT))
		if len(c.vals) == 0 {
			break
		}
		lo, hi, sum := math.Inf(1), math.Inf(-1), 0.0
		log := "|"
		for _, v := range c.vals {
			f, _ := v.number()
			lo, hi, sum = math.Min(lo, f), math.Max(hi, f), sum+f
			log += mk(&Atom{K: KConst, C: constant.MakeFloat64(f)}).Key() + "|"
		}
		is(num("min", lo, f64T))
		is(num("max", hi, f64T))
		is(num("mean", sum/float64(len(c.vals)), f64T))
		med, _ := s.entry(st, m, "median")
		want = append(want, "median", "histogram")
		if !s.fromSketch(med, "sk.Median0", log) {
			is("the median is not that of the numbers: " + clip(med.Key()))
		}
		h, _ := s.entry(st, m, "histogram")
		b, ok1 := s.entry(st, h, "bins")
		f, ok2 := s.entry(st, h, "frequencies")
		if !ok1 || !ok2 || !s.fromSketch(b, "sk.Read0", log) || !s.fromSketch(f, "sk.Read1", log) {
			is("the histogram is not that of the numbers: " + clip(b.Key()) + ", " + clip(f.Key()))
		}
	case "string":
		is(num("count", float64(len(c.vals)), intT))
		if len(c.vals) == 0 {
			break
		}
		lo, hi := math.MaxInt32, -1
		log := "|"
		freq := map[string]int{}
		for _, v := range c.vals {
			lo, hi = min(lo, len(v.s)), max(hi, len(v.s))
			log += cStr(v.s).Key() + "|"
			freq[v.s]++
		}
		is(num("minLength", float64(lo), intT))
		is(num("maxLength", float64(hi), intT))
		u, _ := s.entry(st, m, "unique")
		want = append(want, "unique", "frequencies")
		if !s.fromSketch(u, "sk.Estimate0", log) {
			is("the number of distinct texts is not that of the texts: " + clip(u.Key()))
		}
		fm, _ := s.entry(st, m, "frequencies")
		is(s.frequencies(st, fm, freq))
	case "boolean":
		n := 0
		for _, v := range c.vals {
			if v.b {
				n++
			}
		}
		is(num("count", float64(len(c.vals)), intT))
		is(num("trueCount", float64(n), intT))
		is(num("falseCount", float64(len(c.vals)-n), intT))
	case "null":
		is(num("count", float64(len(c.vals)), intT))
	case "array":
		want = append(want, "values")
		v, _ := s.entry(st, m, "values")
		q := s.e.asSeq(st, stripIface(v))
		if q == nil || q.Open || len(q.Args) != len(c.mem) {
			is("the values are " + clip(v.Key()))
			break
		}
		for i, x := range c.mem {
			if w := s.matches(st, st.norm(q.Args[i]), x, false); w != "" {
				is(fmt.Sprintf("value %d: %s", i, w))
			}
		}
	case "object":
		for i, k := range c.keys {
			want = append(want, k)
			v, _ := s.entry(st, m, k)
			if w := s.matches(st, v, c.mem[i], false); w != "" {
				is(fmt.Sprintf("value %q: %s", k, w))
			}
		}
	}
	if len(whys) > 0 {
		return whys[0]
	}
	got, ok := s.keysOf(st, m)
	sort.Strings(want)
	if !ok || strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("the statistics hold %v, expected %v", got, want)
	}
	return ""
}

// fromSketch: v was read from a sketch that holds exactly the logged values.
func (s *statsRun) fromSketch(v AV, op, log string) bool {
	a := stripIface(v).single()
	for a != nil && a.K == KApp && strings.HasPrefix(a.Name, "conv") {
		a = a.Args[0].single()
	}
	if a == nil || a.K != KApp || a.Name != op || len(a.Args) != 2 {
		return false
	}
	l, _ := strConst(a.Args[1])
	return sortLog(l) == sortLog(log)
}

// sortLog: sketches do not depend on the order of what is put in.
func sortLog(l string) string {
	p := strings.Split(strings.Trim(l, "|"), "|")
	sort.Strings(p)
	return strings.Join(p, "|")
}

// frequencies: every text with its number, long ones shortened.
func (s *statsRun) frequencies(st *State, m AV, want map[string]int) string {
	keys, ok := s.keysOf(st, m)
	if !ok {
		return "the frequencies are " + clip(m.Key())
	}
	if len(keys) != len(want) {
		return fmt.Sprintf("there are frequencies of %d texts, expected %d", len(keys), len(want))
	}
	used := map[string]bool{}
	for t, n := range want {
		hit, found := "", false
		for _, k := range keys {
			if !used[k] && (k == t || len(t) > 40 && len(k) < len(t)+40 && strings.HasPrefix(k, t[:40]) && k != t) {
				v, _ := s.entry(st, m, k)
				if g, isC := numOf(v); isC && int(g) == n {
					hit, found = k, true
					break
				}
			}
		}
		if !found {
			return fmt.Sprintf("the frequency of %.20q is missing or wrong: %q", t, keys)
		}
		used[hit] = true
	}
	return ""
}

// result: the list of statistics is that of the entries.
func (s *statsRun) result(st *State, v AV, entries []val) string {
	if len(entries) == 0 {
		if q := s.e.asSeq(st, st.norm(v)); st.isZero(v) == T || q != nil && !q.Open && len(q.Args) == 0 {
			return ""
		}
		return "there are statistics without entries: " + clip(v.Key())
	}
	c := newColumn(entries[0])
	for _, x := range entries {
		c.add(x)
	}
	cols := []*column{c}
	if c.typ == "array" || c.typ == "object" {
		cols = c.mem
	}
	q := s.e.asSeq(st, st.norm(v))
	if q == nil || q.Open || len(q.Args) != len(cols) {
		return fmt.Sprintf("the statistics are %s, expected those of %d columns", clip(v.Key()), len(cols))
	}
	for i, x := range cols {
		if w := s.matches(st, st.norm(q.Args[i]), x, true); w != "" {
			return fmt.Sprintf("column %d: %s", i, w)
		}
	}
	return ""
}

func checkStats(p *Program) *Report {
	r := newReport("C40")
	r.Rule = "Abstract interpretation of the statistics accumulators over sequences of entries partitioned by type, order of magnitude, shape and mixture, with constants folded through the code and the sketch libraries as opaque containers: the reported map of every column must hold exactly the counts, extremes, mean and lengths of the column's values, every value must have been put exactly once into each sketch of its column, and what is reported from a sketch must be read from that one after the last value."
	newAcc, toMap := p.fn("dsstats.NewAccumulator"), p.fn("dsstats.ToMap")
	if !r.need(newAcc != nil && toMap != nil, "dsstats.NewAccumulator and ToMap") {
		return r
	}
	accT := newAcc.Signature.Results().At(0).Type()
	var jobs []func(r *Report)
	add := func(entries ...val) {
		jobs = append(jobs, func(r *Report) {
			id := fmt.Sprint(entries)
			s := &statsRun{p: p}
			st := s.start()
			bad := func(why string) { r.bad("stats:"+id, p.fpos(newAcc), "%s", why) }
			xs := s.call(st, newAcc, "new", symNN("st", newAcc.Signature.Params().At(0).Type()))
			if len(xs) != 1 {
				bad("the accumulator is made in several ways")
				return
			}
			st, acc := xs[0].st, iface(accT, xs[0].res[0])
			step := func(name, ctx string, args ...AV) bool {
				xs, fn := s.e.method(st, acc, name, ctx, args...)
				if fn == nil || len(xs) == 0 {
					bad("there is no way through " + name)
					return false
				}
				if len(xs) != 1 {
					bad(fmt.Sprintf("there are %d ways through %s", len(xs), name))
					return false
				}
				if len(xs[0].res) == 1 && xs[0].st.isZero(xs[0].res[0]) != T {
					bad(name + " returns " + clip(xs[0].res[0].Key()))
					return false
				}
				st = xs[0].st
				return true
			}
			for i, v := range entries {
				if !step("WriteEntry", "w"+itoa(i), p.entry(cInt(int64(i)), cStr("k"+itoa(i)), v.av(st, itoa(i)))) {
					return
				}
			}
			if !step("Close", "c") {
				return
			}
			xs = s.call(st, toMap, "map", acc)
			r.engine(s.e)
			if len(s.e.undecided) > 0 {
				bad("undecided: " + s.e.undecided[0])
				return
			}
			if len(xs) != 1 {
				bad(fmt.Sprintf("there are %d ways through ToMap", len(xs)))
				return
			}
			if why := s.result(xs[0].st, xs[0].res[0], entries); why != "" {
				bad(why)
				return
			}
			r.ok("stats:" + id)
		})
	}
	add()
	fl := []float64{-1e300, -2.5, 0, 3, 7.25, 1e300}
	for _, a := range fl {
		add(vF(a))
		for _, b := range fl {
			add(vF(a), vF(b))
			for _, c := range fl {
				add(vF(a), vF(b), vF(c))
			}
		}
	}
	for _, k := range []string{"int", "int32", "int64"} {
		for _, a := range []int64{-5, 0, 4} {
			for _, b := range []int64{-5, 0, 4} {
				add(vI(k, a), vI(k, b), vF(1.5), vI("int", 2), vI("int64", -1), val{kind: "float32", f: 0.5})
			}
		}
	}
	add(vI("int64", math.MinInt64), vI("int64", math.MaxInt64))
	add(val{kind: "float32", f: -0.5}, val{kind: "float32", f: 8})
	for i, a := range textPool {
		add(vS(a))
		for j, b := range textPool {
			add(vS(a), vS(b), vS(textPool[(i+j)%3]))
		}
	}
	var every []val
	for _, a := range textPool {
		every = append(every, vS(a))
	}
	add(every...)
	add(vS(textPool[7]), vS(textPool[8]), vS(textPool[8]), vS(textPool[6]), vS("a"))
	for m := 0; m < 16; m++ {
		add(vB(m&1 != 0), vB(m&2 != 0), vB(m&4 != 0), vB(m&8 != 0))
	}
	// mixtures: the first value decides
	kinds := []val{vF(1.5), vI("int64", 3), vS("a"), vB(true), vB(false), vNull, {kind: "other"}, vL(vF(1)), vM("a", vF(1)), vL(), vM("")}
	for _, a := range kinds {
		for _, b := range kinds {
			add(a, b)
			add(a, b, a, b, b)
			add(vL(vS("a"), a), vL(vS("bb"), b), vL(a, b))
			add(vM("a b", a, vF(2)), vM("b a", vF(3), b))
		}
	}
	// shapes of rows
	rows := []val{vL(), vL(vF(1)), vL(vF(2), vS("a")), vL(vF(3), vS("bb"), vB(true)), vL(vS("a"), vF(5), vNull, vI("int", 1)), vNull}
	for _, a := range rows {
		for _, b := range rows {
			for _, c := range rows {
				add(a, b, c)
			}
		}
	}
	objs := []val{vM(""), vM("a", vF(1)), vM("b", vF(2)), vM("b a", vF(3), vS("a")), vM("c a b", vB(true), vF(1), vNull), vM("B", vF(1))}
	for _, a := range objs {
		for _, b := range objs {
			for _, c := range objs {
				add(a, b, c)
			}
		}
	}
	for _, a := range rows[:5] {
		for _, b := range rows[:5] {
			add(vL(a, vF(1)), vL(b, vF(2)))
			add(vM("l", a), vM("l", b))
		}
	}
	for _, a := range objs {
		for _, b := range objs {
			add(vL(a, vF(1)), vL(b, vF(2)))
			add(vM("m", a), vM("m", b))
		}
	}
	p.statsConsumers(r, &jobs)
	r.run(jobs)
	r.atLeast(len(jobs), 900, "sequences of entries")
	return r
}

// statsConsumers: every entry of a reader counts once, failures are reported.
func (p *Program) statsConsumers(r *Report, jobs *[]func(r *Report)) {
	from, calc := p.fn("dsstats.CalculateFromEntryReader"), p.fn("dsstats.Calculate")
	if !r.need(from != nil && calc != nil, "dsstats.CalculateFromEntryReader and Calculate") {
		return
	}
	statsT := from.Signature.Results().At(0).Type()
	rd := symNN("rd", from.Signature.Params().At(0).Type())
	source := func(s *statsRun, entries []val, failAt int) {
		s.e.extHook = func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
			if len(a) == 0 || a[0].single() == nil || a[0].single().Name != "rd" {
				return nil, false
			}
			switch {
			case strings.HasSuffix(name, ".ReadEntry"):
				n := len(st.tags["read"])
				st.tags["read"] += "."
				if n == failAt {
					st.tags["fault"] = "reading"
					return ret(st, p.entry(cInt(0), cStr(""), vNil()), symNN("fault@read", errT()))
				}
				if n >= len(entries) {
					return ret(st, p.entry(cInt(0), cStr(""), vNil()), eofAV())
				}
				return ret(st, p.entry(cInt(int64(n)), cStr("k"+itoa(n)), entries[n].av(st, itoa(n))), vNil())
			case strings.HasSuffix(name, ".Structure"):
				return ret(st, symNN("st", resultTypes(c)[0]))
			case strings.HasSuffix(name, ".Close"):
				return ret(st, vNil())
			}
			return nil, false
		}
	}
	judge := func(s *statsRun, x Exit, entries []val, mustFail bool) string {
		st := x.st
		if mustFail {
			if st.isZero(x.res[1]) != F {
				return "a failure is not reported"
			}
			if a := x.res[1].single(); a != nil && a.Name == eofName {
				return "a failure is reported as the end of data"
			}
			if st.isZero(x.res[0]) != T {
				return "there are statistics although reading failed"
			}
			return ""
		}
		if st.isZero(x.res[1]) != T || st.isZero(x.res[0]) != F {
			return "it fails: " + clip(x.res[1].Key())
		}
		k, _, _ := readPath(st, x.res[0], statsT, []string{"Qri"})
		if t, ok := strConst(k); !ok || t != "sa:0" {
			return "the kind is " + clip(k.Key())
		}
		v, _, _ := readPath(st, x.res[0], statsT, []string{"Stats"})
		pth, _, _ := readPath(st, x.res[0], statsT, []string{"Path"})
		if st.isZero(pth) != T {
			return "the statistics have a path"
		}
		return s.result(st, st.norm(stripIface(v)), entries)
	}
	seqs := [][]val{{}, {vF(1)}, {vF(2), vF(1), vF(3)}, {vL(vF(1), vS("a")), vL(vF(4), vS("bb"))}, {vM("b a", vF(1), vB(true)), vM("a", vB(false))}}
	for _, q := range seqs {
		for fail := -1; fail <= len(q); fail++ {
			*jobs = append(*jobs, func(r *Report) {
				s := &statsRun{p: p}
				st := s.start()
				source(s, q, fail)
				xs := s.call(st, from, "m", rd)
				r.engine(s.e)
				expect(r, s.e, xs, fmt.Sprintf("reader:%v fail=%d", q, fail), p.fpos(from), func(x Exit) (bool, string) {
					w := judge(s, x, q, fail >= 0)
					return w == "", w
				})
			})
			for mask := 0; mask < 8; mask++ {
				*jobs = append(*jobs, func(r *Report) {
					body, hasSt, opens := mask&1 != 0, mask&2 != 0, mask&4 != 0
					s := &statsRun{p: p}
					st := s.start()
					st.assumeZero("doc", false)
					st.assumeZero("doc*.bodyFile", !body)
					st.assumeZero("doc*.Structure", !hasSt)
					source(s, q, fail)
					isOpen := func(f *ssa.Function) bool {
						res := f.Signature.Results()
						return f.Pkg != nil && f.Pkg.Pkg.Path() == dsioPkg && res.Len() == 2 && types.Identical(res.At(0).Type(), from.Signature.Params().At(0).Type())
					}
					s.e.inlineHook = func(fn *ssa.Function) bool { return sketchPkg(fn) == "" && !isOpen(fn) }
					s.e.preHook = func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
						if g := c.StaticCallee(); g != nil && isOpen(g) {
							if x := stripIface(a[1]).single(); x == nil || x.Name != "doc*.bodyFile" {
								st.tags["wrong"] = "what is read is " + clip(a[1].Key())
							}
							if x := a[0].single(); x == nil || x.Name != "doc*.Structure" {
								st.tags["wrong"] = "the structure it is read with is " + clip(a[0].Key())
							}
							if !opens {
								return ret(st, vNil(), symNN("fault@open", errT()))
							}
							return ret(st, rd, vNil())
						}
						return s.sketch(e, st, c, site, name, a)
					}
					xs := s.call(st, calc, "m", symNN("doc", calc.Signature.Params().At(0).Type()))
					r.engine(s.e)
					expect(r, s.e, xs, fmt.Sprintf("dataset:%v fail=%d body=%v structure=%v opens=%v", q, fail, body, hasSt, opens), p.fpos(calc), func(x Exit) (bool, string) {
						if w := x.st.tags["wrong"]; w != "" {
							return false, w
						}
						w := judge(s, x, q, fail >= 0 || !body || !hasSt || !opens)
						return w == "", w
					})
				})
			}
		}
	}
}
