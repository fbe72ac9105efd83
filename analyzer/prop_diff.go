package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C44: diffs are of the right things ----------------------------------------------------------
//
// An encoded component is a term over its fields at that time, a comparison a term over
// what is compared. Each may fail.

type diffRun struct {
	p      *Program
	deltas int    // of the diff that is summarized
	mod    bool   // whether it is a modification
	broken string // what fails in summarizing
	sums   map[string]string
}

const diffPkg = modPath + "/dsdiff"

var diffComps = []struct{ field, kind string }{{"Structure", "structure"}, {"Meta", "meta"}, {"Transform", "transform"}, {"Viz", "viz"}}

func (d *diffRun) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	t := resultTypes(c)
	mayFail := func(what string, v AV) ([]Outcome, bool) {
		bad := st.clone()
		bad.tags["fault"] = what
		n, _ := bad.fresh("failed@" + what)
		return []Outcome{{st: st, res: []AV{v, vNil()}}, {st: bad, res: []AV{zeroOf(t[0]), symNN(n, t[1])}}}, true
	}
	fails := func(what string, v AV) ([]Outcome, bool) {
		if d.broken == what {
			st.tags["fault"] = what
			return ret(st, zeroOf(t[0]), symNN("failed@"+what, t[1]))
		}
		return ret(st, v, vNil())
	}
	switch {
	case strings.HasSuffix(name, ").MarshalJSONObject") && len(a) == 1:
		tn := strings.TrimSuffix(name[strings.LastIndex(name[:strings.LastIndex(name, ")")], ".")+1:], ").MarshalJSONObject")
		ct := d.p.typ(dsPkg, tn)
		if ct == nil {
			return nil, false
		}
		root, rt := stripIface(a[0]), types.Type(ct)
		if x := root.single(); x == nil || x.K != KStruct && x.K != KZero {
			rt = types.NewPointer(ct)
		}
		enc := &Atom{K: KApp, Name: "enc." + tn, T: t[0], NonNil: true}
		for _, f := range fieldsOf(ct) {
			v, _, ok := readPath(st, root, rt, []string{f.name})
			if !ok {
				return nil, false
			}
			enc.Args = append(enc.Args, st.norm(v))
		}
		return mayFail(name, mk(enc))
	case strings.HasSuffix(name, "gojsondiff.New"):
		return ret(st, symNN("DIFFER", t[0]))
	case strings.HasSuffix(name, "gojsondiff.Differ).Compare"):
		return mayFail(name, mk(&Atom{K: KApp, Name: "cmp", Args: []AV{a[1], a[2]}, T: t[0], NonNil: true}))
	}
	if strings.HasSuffix(name, "formatter.NewDeltaFormatter") {
		return ret(st, appNN("delta"))
	}
	if len(a) == 0 {
		return nil, false
	}
	ours := stripIface(a[0]).single() != nil && stripIface(a[0]).single().Name == "DIFF"
	switch {
	case strings.HasSuffix(name, ".Deltas") && ours:
		var l []AV
		for i := 0; i < d.deltas; i++ {
			l = append(l, iface(strT, cStr(fmt.Sprintf("d%d", i))))
		}
		return ret(st, seqOf(t[0], l...))
	case strings.HasSuffix(name, ".Modified") && ours:
		return ret(st, cBool(d.mod))
	case name == "encoding/json.Unmarshal" && a[0].Key() == sym("LEFT", anySeq).Key():
		x := a[1].single()
		if x == nil || x.K != KIface {
			return nil, false
		}
		el, isP := ptrElem(x.T)
		o, path, _ := st.target(x.Args[0].single())
		if !isP || o == nil {
			return nil, false
		}
		if d.broken == "decoding" {
			st.tags["fault"] = "decoding"
			return ret(st, symNN("failed@decoding", errT()))
		}
		v := mk(&Atom{K: KSym, Name: "DECODED", T: anyMap, NonNil: true})
		if types.IsInterface(el) {
			v = iface(anyMap, v)
		}
		st.write(o.ID, path, el, v, false)
		return ret(st, vNil())
	case strings.HasSuffix(name, "formatter.NewAsciiFormatter"):
		col := AV{}
		if x := st.norm(a[1]).single(); x != nil {
			for i, f := range fieldsOf(c.Args[1].Type()) {
				if f.name == "Coloring" {
					col = project(mk(x), f.name, f.t)
					_ = i
				}
			}
		}
		return ret(st, appNN("ascii", stripIface(a[0]), col))
	case strings.HasSuffix(name, "Formatter).Format"):
		st.tags["formatted"] = a[0].Key()
		st.tags["of"] = d.diffOf(st, a[1]).Key()
		return fails("formatting", cStr("TEXT"))
	case name == "encoding/json.Marshal":
		v := stripIface(a[0])
		q := e.asSeq(st, v)
		s := ""
		if q != nil && !q.Open && closedSeq(q) {
			for _, i := range q.Args {
				k, _ := strConst(stripIface(i))
				s += k
			}
			s = "[" + s + "]"
		}
		return fails("encoding", peeked(str2bs(s), false))
	case name == "(*dsdiff.SubDiff).SummarizeToString" && d.sums != nil:
		x := st.norm(a[0]).single()
		if x == nil || x.K != KSym {
			return nil, false
		}
		if a[1].Key() != sym("how", strT).Key() {
			st.tags["wrong"] = "the kind of summary is " + clip(a[1].Key())
		}
		switch k := d.sums[x.Name]; k {
		case "fail":
			st.tags["fault"] = x.Name
			return ret(st, cStr(""), symNN("failed@"+x.Name, t[1]))
		case "text":
			return ret(st, cStr("of "+x.Name), vNil())
		}
		return ret(st, cStr(""), vNil())
	}
	return nil, false
}

// diffOf: the comparison inside of a SubDiff, or a comparison itself.
func (d *diffRun) diffOf(st *State, v AV) AV {
	v = stripIface(st.norm(v))
	if x := v.single(); x != nil && x.K == KPtr {
		sd := d.p.typ(diffPkg, "SubDiff")
		in, _, _ := readPath(st, v, types.NewPointer(sd), []string{"Diff"})
		return stripIface(in)
	}
	return v
}

func (d *diffRun) run(r *Report, fn *ssa.Function, prep func(st *State), args ...AV) (*Engine, []Exit) {
	e := newEngine(d.p)
	e.streams = &streamCfg{}
	e.preHook, e.extHook = d.hook, d.hook
	e.apart = true
	st := baseState(d.p)
	st.maxFresh = 60
	if prep != nil {
		prep(st)
	}
	xs := normalExits(e.run(fn, args, nil, st, "d"))
	r.engine(e)
	return e, xs
}

// diffSide: a component as one side of a comparison.
type diffSide struct {
	set    bool
	path   string // "" or a path
	script string // of transforms
	empty  bool   // of metadata: nothing but the path is set
	root   string
}

func (s diffSide) String() string {
	if !s.set {
		return "none"
	}
	return fmt.Sprintf("path=%q,script=%q,empty=%v", s.path, s.script, s.empty)
}

func (s diffSide) value(p *Program, tn string, st *State) AV {
	t := p.typ(dsPkg, tn)
	if !s.set {
		st.assumeZero(s.root, true)
		return vNil()
	}
	v := symNN(s.root, types.NewPointer(t))
	st.assumeZero(s.root, false)
	o := st.symObj(v.single(), t)
	put := func(f, x string) { st.write(o.ID, "."+f, strT, cStr(x), false) }
	for _, f := range fieldsOf(t) {
		switch {
		case f.name == "Path":
			put("Path", s.path)
		case tn == "Transform" && f.name == "ScriptPath":
			put("ScriptPath", s.script)
		case tn == "Meta" && s.empty:
			st.write(o.ID, "."+f.name, f.t, zeroOf(f.t), false)
		case tn == "Meta" && f.name == "Title":
			put("Title", "a title of "+s.root)
		}
	}
	return v
}

// want: the value of a field of a side.
func (s diffSide) want(tn string, f fld) AV {
	switch {
	case !s.set:
		return zeroOf(f.t)
	case f.name == "Path":
		return cStr(s.path)
	case tn == "Transform" && f.name == "ScriptPath":
		return cStr(s.script)
	case tn == "Meta" && s.empty:
		return zeroOf(f.t)
	case tn == "Meta" && f.name == "Title":
		return cStr("a title of " + s.root)
	}
	return sym(s.root+"*."+f.name, f.t)
}

// encodes: enc is the encoding of the side. Scripts that both sides have do not count.
func (d *diffRun) encodes(st *State, enc AV, tn string, s, other diffSide) string {
	x := stripIface(enc).single()
	if x == nil || x.K != KApp || x.Name != "enc."+tn {
		return "is " + clip(enc.Key())
	}
	for i, f := range fieldsOf(d.p.typ(dsPkg, tn)) {
		if f.name == "ScriptPath" && tn == "Transform" && s.script != "" && other.script != "" && s.set && other.set {
			continue
		}
		w := s.want(tn, f)
		if !same(st, x.Args[i], w) && !(st.isZero(x.Args[i]) == T && st.isZero(w) == T) {
			return fmt.Sprintf("has %s %s, expected %s", f.name, clip(x.Args[i].Key()), clip(w.Key()))
		}
	}
	return ""
}

// subDiff checks one result: the comparison of a with b under the kind.
func (d *diffRun) subDiff(st *State, v AV, tn, kind string, a, b diffSide) string {
	pt := types.NewPointer(d.p.typ(diffPkg, "SubDiff"))
	get := func(f string) AV {
		x, _, _ := readPath(st, v, pt, []string{f})
		return stripIface(st.norm(x))
	}
	samePath := a.set && b.set && len(a.path) > 1 && a.path == b.path
	if k, _ := strConst(get("kind")); k != kind {
		return "the kind is " + clip(get("kind").Key())
	}
	df := get("Diff")
	if st.isZero(df) == T {
		if samePath || tn == "Meta" && (!a.set || a.empty) && (!b.set || b.empty) {
			return ""
		}
		return "nothing is compared"
	}
	if samePath && tn != "Structure" {
		return "versions at the same path are compared"
	}
	x := df.single()
	if x == nil || x.K != KApp || x.Name != "cmp" {
		return "the diff is " + clip(df.Key())
	}
	for i, s := range []diffSide{a, b} {
		other := b
		if i == 1 {
			other = a
		}
		if why := d.encodes(st, x.Args[i], tn, s, other); why != "" {
			return fmt.Sprintf("side %d of what is compared %s", i+1, why)
		}
		if got := get(string("ab"[i])); !same(st, got, x.Args[i]) {
			return fmt.Sprintf("side %d of the summary is %s", i+1, clip(got.Key()))
		}
	}
	if l, r := x.Args[0].single(), x.Args[1].single(); tn == "Transform" && a.script != "" && b.script != "" {
		for i, f := range fieldsOf(d.p.typ(dsPkg, tn)) {
			if f.name == "ScriptPath" && !same(st, l.Args[i], r.Args[i]) {
				return "where the scripts are makes a difference"
			}
		}
	}
	return ""
}

// untouched: the sides are what they were.
func (d *diffRun) untouched(st *State, tn string, sides ...diffSide) string {
	t := d.p.typ(dsPkg, tn)
	for _, s := range sides {
		if !s.set {
			continue
		}
		for _, f := range fieldsOf(t) {
			got, _, _ := readPath(st, symNN(s.root, types.NewPointer(t)), types.NewPointer(t), []string{f.name})
			if w := s.want(tn, f); !same(st, got, w) && !(st.isZero(got) == T && st.isZero(w) == T) {
				return fmt.Sprintf("%s of what is compared becomes %s", f.name, clip(got.Key()))
			}
		}
	}
	return ""
}

func (p *Program) diffSides(tn, root string) (out []diffSide) {
	out = append(out, diffSide{root: root})
	for _, path := range []string{"", "/p/one", "/p/two"} {
		for _, script := range []string{"", "one.star", "two.star"} {
			for _, empty := range []bool{false, true} {
				if script != "" && tn != "Transform" || empty && tn != "Meta" {
					continue
				}
				out = append(out, diffSide{set: true, path: path, script: script, empty: empty, root: root})
			}
		}
	}
	return
}

func checkDiff(p *Program) *Report {
	r := newReport("C44")
	r.Rule = "Abstract interpretation of the comparison of documents with encodings and comparisons as terms over the fields they are made from: each component is compared with its counterpart, old side first, under its own name, or left out; failures are errors and what is compared stays as it is. Summaries are folded over known diffs and compared with a specification."
	var jobs []func(r *Report)
	for _, cp := range diffComps {
		fn := p.fn("dsdiff.Diff" + cp.field)
		if !r.need(fn != nil, "dsdiff.Diff"+cp.field) {
			continue
		}
		for _, a := range p.diffSides(cp.field, "a") {
			for _, b := range p.diffSides(cp.field, "b") {
				jobs = append(jobs, func(r *Report) {
					d := &diffRun{p: p}
					var va, vb AV
					args := []AV{vNil(), vNil()}
					e, xs := d.run(r, fn, func(st *State) {
						va, vb = a.value(p, cp.field, st), b.value(p, cp.field, st)
						args[0], args[1] = va, vb
					}, args...)
					expect(r, e, xs, fmt.Sprintf("Diff%s %s / %s", cp.field, a, b), p.fpos(fn), func(x Exit) (bool, string) {
						if why := d.untouched(x.st, cp.field, a, b); why != "" {
							return false, why
						}
						if failed := x.st.tags["fault"] != ""; failed || x.st.isZero(x.res[1]) != T {
							return failed && x.st.isZero(x.res[1]) == F, "the error is " + clip(x.res[1].Key())
						}
						why := d.subDiff(x.st, x.res[0], cp.field, cp.kind, a, b)
						return why == "", why
					})
				})
			}
		}
	}
	p.diffJSON(r, &jobs)
	p.diffDatasets(r, &jobs)
	p.diffSummaries(r, &jobs)
	r.run(jobs)
	r.atLeast(len(jobs), 1000, "scenarios")
	return r
}

func (p *Program) diffJSON(r *Report, jobs *[]func(r *Report)) {
	fn := p.fn("dsdiff.DiffJSON")
	if !r.need(fn != nil, "dsdiff.DiffJSON") {
		return
	}
	*jobs = append(*jobs, func(r *Report) {
		bs := types.NewSlice(types.Typ[types.Byte])
		d := &diffRun{p: p}
		la, lb := sym("LEFT", bs), sym("RIGHT", bs)
		e, xs := d.run(r, fn, nil, la, lb, sym("what", strT))
		expect(r, e, xs, "DiffJSON", p.fpos(fn), func(x Exit) (bool, string) {
			if failed := x.st.tags["fault"] != ""; failed || x.st.isZero(x.res[1]) != T {
				return failed && x.st.isZero(x.res[1]) == F, "the error is " + clip(x.res[1].Key())
			}
			pt := types.NewPointer(p.typ(diffPkg, "SubDiff"))
			for f, w := range map[string]AV{"Diff": app("cmp", la, lb), "kind": sym("what", strT), "a": la, "b": lb} {
				got, _, _ := readPath(x.st, x.res[0], pt, []string{f})
				if stripIface(x.st.norm(got)).Key() != w.Key() {
					return false, f + " is " + clip(got.Key())
				}
			}
			return true, ""
		})
	})
}

// diffDatasets: every component with its counterpart.
func (p *Program) diffDatasets(r *Report, jobs *[]func(r *Report)) {
	fn := p.fn("dsdiff.DiffDatasets")
	if !r.need(fn != nil, "dsdiff.DiffDatasets") {
		return
	}
	dsT := p.typ(dsPkg, "Dataset")
	tupT := p.typ(diffPkg, "StructuredDataTuple")
	bs := types.NewSlice(types.Typ[types.Byte])
	modes := 5
	for m := 0; m < modes*modes*modes*modes*2; m++ {
		deref := m%2 == 1
		sides := map[string][2]diffSide{}
		n := m / 2
		id := fmt.Sprintf("DiffDatasets data=%v", deref)
		for _, cp := range diffComps {
			a, b := diffSide{root: "a*." + cp.field}, diffSide{root: "b*." + cp.field}
			switch n % modes {
			case 1:
				a.set = true
			case 2:
				b.set = true
			case 3:
				a.set, b.set = true, true
			case 4:
				a.set, b.set, a.path, b.path = true, true, "/p/one", "/p/one"
			}
			n /= modes
			sides[cp.field] = [2]diffSide{a, b}
			id += fmt.Sprintf(" %s(%s/%s)", cp.kind, a, b)
		}
		*jobs = append(*jobs, func(r *Report) {
			d := &diffRun{p: p}
			data := vNil()
			if deref {
				data = ptr("TUPLE", "", tupT)
			}
			e, xs := d.run(r, fn, func(st *State) {
				for _, root := range []string{"a", "b"} {
					st.assumeZero(root, false)
				}
				for _, cp := range diffComps {
					for _, s := range sides[cp.field] {
						s.value(p, cp.field, st)
					}
				}
				st.heap["L"] = &Obj{ID: "L", T: bs, F: map[string]AV{"": sym("LEFT", bs)}}
				st.heap["R"] = &Obj{ID: "R", T: bs, F: map[string]AV{"": sym("RIGHT", bs)}}
				st.heap["TUPLE"] = &Obj{ID: "TUPLE", T: tupT, F: map[string]AV{".a": ptr("L", "", bs), ".b": ptr("R", "", bs)}}
			}, symNN("a", types.NewPointer(dsT)), symNN("b", types.NewPointer(dsT)), data)
			expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
				st := x.st
				for _, cp := range diffComps {
					for _, s := range sides[cp.field] {
						if why := d.untouched(st, cp.field, s); why != "" {
							return false, cp.kind + ": " + why
						}
					}
				}
				if failed := st.tags["fault"] != ""; failed || st.isZero(x.res[1]) != T {
					return failed && st.isZero(x.res[1]) == F, "the error is " + clip(x.res[1].Key())
				}
				m := st.norm(x.res[0]).single()
				var o *Obj
				if m != nil && m.K == KMap {
					o = st.get(m.Obj)
				}
				if o == nil || o.Rest != RNone {
					return false, "the result is " + clip(x.res[0].Key())
				}
				got := map[string]AV{}
				for _, en := range o.Ents {
					if k, ok := strConst(en.Key); ok && en.P == PMust {
						got[k] = en.Val
					} else if en.P != PAbsent {
						return false, "the result may have an entry " + clip(en.Key.Key())
					}
				}
				for _, cp := range diffComps {
					v, has := got[cp.kind]
					delete(got, cp.kind)
					a, b := sides[cp.field][0], sides[cp.field][1]
					switch {
					case !a.set && !b.set:
						if has {
							return false, cp.kind + " is compared although neither version has one"
						}
						continue
					case a.set && b.set && a.path == b.path && a.path != "":
						if !has {
							continue
						}
					case !has:
						return false, cp.kind + " is not compared"
					}
					if why := d.subDiff(st, v, cp.field, cp.kind, a, b); why != "" {
						return false, cp.kind + ": " + why
					}
				}
				if v, has := got["data"]; has != deref {
					return false, fmt.Sprintf("data is compared: %v", has)
				} else if has {
					delete(got, "data")
					if df := d.diffOf(st, v); df.Key() != app("cmp", sym("LEFT", bs), sym("RIGHT", bs)).Key() {
						return false, "the diff of data is " + clip(df.Key())
					}
				}
				for k := range got {
					return false, "there is an entry " + k
				}
				return true, ""
			})
		})
	}
}

func (p *Program) diffSummaries(r *Report, jobs *[]func(r *Report)) {
	sd := p.typ(diffPkg, "SubDiff")
	if fn := p.method(diffPkg, "SubDiff", "SummarizeToString"); r.need(fn != nil, "SubDiff.SummarizeToString") {
		for _, how := range []string{"simple", "listKeys", "plusMinus", "plusMinusColor", "delta", "", "other"} {
			for _, kind := range []string{"meta", "structure"} {
				for n := -1; n < 4; n++ {
					for _, mod := range []bool{true, false} {
						for _, broken := range []string{"", "decoding", "formatting"} {
							*jobs = append(*jobs, func(r *Report) { p.summaryJob(r, fn, sd, how, kind, n, mod, broken) })
						}
					}
				}
			}
		}
	}
	if fn := p.method(diffPkg, "SubDiff", "MarshalJSON"); r.need(fn != nil, "SubDiff.MarshalJSON") {
		for n := -1; n < 3; n++ {
			for _, broken := range []string{"", "encoding"} {
				*jobs = append(*jobs, func(r *Report) {
					d := &diffRun{p: p, deltas: n, mod: true, broken: broken}
					e, xs := d.run(r, fn, func(st *State) { p.subDiffObj(st, sd, "meta", n) }, ptr("S", "", sd))
					expect(r, e, xs, fmt.Sprintf("MarshalJSON of %d %s", n, broken), p.fpos(fn), func(x Exit) (bool, string) {
						if failed := x.st.tags["fault"] != ""; failed || x.st.isZero(x.res[1]) != T {
							return failed && x.st.isZero(x.res[1]) == F, "the error is " + clip(x.res[1].Key())
						}
						want := "["
						for i := 0; i < n; i++ {
							want += fmt.Sprintf("d%d", i)
						}
						got, _ := constBytes(e, x.st, x.res[0])
						return got == want+"]" || n < 0 && got == "null", fmt.Sprintf("of the changes %s] it writes %s", want, got)
					})
				})
			}
		}
	}
	fn := p.fn("dsdiff.MapDiffsToString")
	if !r.need(fn != nil, "dsdiff.MapDiffsToString") {
		return
	}
	order := []string{"structure", "data", "transform", "meta", "viz"}
	kinds := []string{"absent", "nil", "none", "text", "fail"}
	for m := 0; m < 5*5*5*5*5; m++ {
		sums := map[string]string{}
		n := m
		want, fail := "", false
		for _, k := range order {
			s := kinds[n%5]
			n /= 5
			sums[k] = s
			if want == "" && !fail {
				fail = s == "fail"
				if s == "text" {
					want = "of " + k
				}
			}
		}
		*jobs = append(*jobs, func(r *Report) {
			d := &diffRun{p: p, sums: sums}
			mt := fn.Signature.Params().At(0).Type()
			args := []AV{mk(&Atom{K: KMap, Obj: "DIFFS", T: mt}), sym("how", strT)}
			e, xs := d.run(r, fn, func(st *State) {
				var kv []AV
				for _, k := range append([]string{"commit"}, order...) {
					switch sums[k] {
					case "absent":
					case "nil":
						kv = append(kv, cStr(k), vNil())
					default:
						kv = append(kv, cStr(k), symNN(k, types.NewPointer(sd)))
					}
				}
				newMap(st, "DIFFS", mt, kv...)
			}, args...)
			expect(r, e, xs, fmt.Sprint("MapDiffsToString ", sums), p.fpos(fn), func(x Exit) (bool, string) {
				if w := x.st.tags["wrong"]; w != "" {
					return false, w
				}
				if fail || x.st.isZero(x.res[1]) != T {
					return fail && x.st.isZero(x.res[1]) == F, "the error is " + clip(x.res[1].Key())
				}
				got, ok := strConst(x.st.norm(x.res[0]))
				return ok && got == want, fmt.Sprintf("the summary is %q, expected %q", got, want)
			})
		})
	}
}

// subDiffObj: a diff with n changes, or with none at all.
func (p *Program) subDiffObj(st *State, sd types.Type, kind string, n int) {
	bs := types.NewSlice(types.Typ[types.Byte])
	df := vNil()
	if n >= 0 {
		df = symNN("DIFF", p.structField(sd, "Diff"))
	}
	st.heap["S"] = &Obj{ID: "S", T: sd, F: map[string]AV{".Diff": df, ".kind": cStr(kind), ".a": sym("LEFT", bs), ".b": sym("RIGHT", bs)}}
}

func (p *Program) summaryJob(r *Report, fn *ssa.Function, sd types.Type, how, kind string, n int, mod bool, broken string) {
	d := &diffRun{p: p, deltas: n, mod: mod, broken: broken}
	e, xs := d.run(r, fn, func(st *State) { p.subDiffObj(st, sd, kind, n) }, ptr("S", "", sd), cStr(how))
	pm := strings.HasPrefix(how, "plusMinus")
	expect(r, e, xs, fmt.Sprintf("SummarizeToString %q of %s: %d changes, modified %v, failing %s", how, kind, n, mod, broken), p.fpos(fn), func(x Exit) (bool, string) {
		got, ok := strConst(x.st.norm(x.res[0]))
		title := strings.ToUpper(kind[:1]) + kind[1:]
		s := "s"
		if n == 1 {
			s = ""
		}
		want := map[string][]string{}
		if mod && n > 0 {
			want["simple"] = []string{fmt.Sprintf("%s Changed. (%d change%s)", title, n, s)}
			l := fmt.Sprintf("%s: %d change%s", title, n, s)
			for i := 0; i < n; i++ {
				l += fmt.Sprintf("\n\t- modified d%d", i)
			}
			want["listKeys"] = []string{l}
			want["plusMinus"], want["plusMinusColor"], want["delta"] = []string{"TEXT"}, []string{"TEXT"}, []string{"TEXT"}
			if broken == "decoding" && pm || broken == "formatting" && (pm || how == "delta") {
				return x.st.isZero(x.res[1]) == F, "the failure of " + broken + " is not reported"
			}
		} else if mod && n == 0 {
			return true, "" // no such diff
		}
		if x.st.isZero(x.res[1]) != T {
			return false, "the error is " + clip(x.res[1].Key())
		}
		w := ""
		if len(want[how]) > 0 {
			w = want[how][0]
		}
		if !ok || got != w {
			return false, fmt.Sprintf("the summary is %q (%s), expected %q", got, clip(x.res[0].Key()), w)
		}
		if w == "TEXT" {
			if of := strings.TrimPrefix(x.st.tags["of"], "$"); of != "DIFF" {
				return false, "what is formatted is " + of
			}
			f := "delta()"
			if pm {
				f = fmt.Sprintf("ascii($DECODED,c:%v)", how == "plusMinusColor")
			}
			if g := x.st.tags["formatted"]; g != f {
				return false, "it is formatted with " + g + ", expected " + f
			}
		}
		return true, ""
	})
}
