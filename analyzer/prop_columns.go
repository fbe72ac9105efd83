package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tabularPkg = modPath + "/tabular"

// ---- C48: table columns come from the schema ------------------------------------------------

// colVariant is one shape of a column's schema and what the column must be.
type colVariant struct {
	name  string
	kv    func(st *State, i int) []AV // nil: not an object
	title bool
	types func(i int) []AV // nil: the default
	desc  bool
	extra int
	// problems that must, and may, be pointed out
	must, may bool
}

func otherKeyAV(i, k int) AV {
	return otherString(fmt.Sprintf("OTHER:col%d.%d", i, k), []string{"title", "type", "description"})
}

func colVariants() []colVariant {
	ty := func(i, k int) AV { return sym(fmt.Sprintf("type%d.%d", i, k), strT) }
	str := func(v AV) AV { return iface(strT, v) }
	num := iface(f64T, sym("num", f64T))
	type tv struct {
		name string
		val  func(i int) AV
		want func(i int) []AV
		must bool
		may  bool
	}
	list := func(v ...AV) AV { return iface(anySeq, seqOf(anySeq, v...)) }
	tvs := []tv{
		{name: "no type", must: true},
		{name: "type", val: func(i int) AV { return str(ty(i, 0)) }, want: func(i int) []AV { return []AV{ty(i, 0)} }},
		{name: "type list", val: func(i int) AV { return list(str(ty(i, 0)), str(ty(i, 1))) }, want: func(i int) []AV { return []AV{ty(i, 0), ty(i, 1)} }},
		{name: "one type list", val: func(i int) AV { return list(str(ty(i, 0))) }, want: func(i int) []AV { return []AV{ty(i, 0)} }},
		{name: "mixed type list", val: func(i int) AV { return list(num, str(ty(i, 0)), vNil(), str(ty(i, 1))) }, want: func(i int) []AV { return []AV{ty(i, 0), ty(i, 1)} }, may: true},
		{name: "empty type list", val: func(i int) AV { return list() }, may: true},
		{name: "type list without names", val: func(i int) AV { return list(num) }, may: true},
		{name: "number type", val: func(i int) AV { return num }, may: true},
		{name: "null type", val: func(i int) AV { return vNil() }, may: true},
	}
	var out []colVariant
	for title := 0; title < 3; title++ {
		for desc := 0; desc < 3; desc++ {
			for extra := 0; extra < 3; extra++ {
				for _, t := range tvs {
					if title > 0 && desc > 0 && extra == 1 {
						continue
					}
					v := colVariant{title: title == 1, desc: desc == 1, extra: extra, types: t.want, must: t.must || title == 0, may: t.may || title == 2}
					v.name = fmt.Sprintf("%s,title%d,desc%d,extra%d", t.name, title, desc, extra)
					v.kv = func(st *State, i int) []AV {
						var kv []AV
						if title == 1 {
							kv = append(kv, cStr("title"), str(sym(fmt.Sprintf("title%d", i), strT)))
						} else if title == 2 {
							kv = append(kv, cStr("title"), num)
						}
						if t.val != nil {
							kv = append(kv, cStr("type"), t.val(i))
						}
						if desc == 1 {
							kv = append(kv, cStr("description"), str(sym(fmt.Sprintf("desc%d", i), strT)))
						} else if desc == 2 {
							kv = append(kv, cStr("description"), num)
						}
						for k := 0; k < extra; k++ {
							kv = append(kv, otherKeyAV(i, k), sym(fmt.Sprintf("extra%d.%d", i, k), anyTy))
						}
						return kv
					}
					out = append(out, v)
				}
			}
		}
	}
	out = append(out, colVariant{name: "not an object", must: true})
	return out
}

// wraps: v is an error made from target with %w.
func wraps(st *State, v, target AV) bool {
	if v.top || len(v.atoms) == 0 {
		return false
	}
	for _, a := range v.atoms {
		if st.eq(mk(a), target) == T {
			continue
		}
		ok := false
		for _, w := range a.Wrap {
			ok = ok || wraps(st, w, target)
		}
		if !ok {
			return false
		}
	}
	return true
}

func checkColumns(p *Program) *Report {
	r := newReport("C48")
	r.Rule = "Abstract interpretation of the column extraction over every shape of column schema (title, type, description set, of a wrong type or absent, further keys), in every position of tables of up to three columns, of every way a schema can fail to be tabular, and of the column title check over every pattern of equal and different, valid and invalid titles."
	fn := p.fn("tabular.ColumnsFromJSONSchema")
	colT := p.typ(tabularPkg, "Column")
	if !r.need(fn != nil && colT != nil, "tabular.ColumnsFromJSONSchema") {
		return r
	}
	sentinel, ok := globalValue(p, baseState(p), tabularPkg, "ErrInvalidTabularSchema")
	if !r.need(ok && sentinel.single() != nil, "tabular.ErrInvalidTabularSchema") {
		return r
	}
	var jobs []func(r *Report)
	job := func(f func(r *Report)) { jobs = append(jobs, f) }
	vs := colVariants()
	build := func(st *State, cols []colVariant) AV {
		var items []AV
		for i, c := range cols {
			if c.kv == nil {
				items = append(items, iface(f64T, sym("num", f64T)))
				continue
			}
			items = append(items, iface(anyMap, newMap(st, fmt.Sprintf("SCH:col%d", i), anyMap, c.kv(st, i)...)))
			for k := 0; k < c.extra; k++ {
				for j := 0; j < k; j++ {
					st.facts[pairKey(otherKeyAV(i, k).Key(), otherKeyAV(i, j).Key())] = Fact{Z: 2}
				}
			}
		}
		it := newMap(st, "SCH:items", anyMap, cStr("type"), iface(strT, cStr("array")), cStr("items"), iface(anySeq, seqOf(anySeq, items...)))
		return newMap(st, "SCH:top", anyMap, cStr("type"), iface(strT, cStr("array")), cStr("items"), iface(anyMap, it))
	}
	run := func(r *Report, id string, cols []colVariant) {
		var sch AV
		e := newEngine(p)
		st := baseState(p)
		sch = build(st, cols)
		xs := normalExits(e.run(fn, []AV{sch}, nil, st, "m"))
		r.engine(e)
		expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
			if x.st.isZero(x.res[2]) != T {
				return false, "a table schema is refused: " + clip(x.res[2].Key())
			}
			got := e.asSeq(x.st, x.res[0])
			if got == nil || got.Open || len(got.Args) != len(cols) {
				return false, fmt.Sprintf("%d columns become %s", len(cols), clip(x.res[0].Key()))
			}
			for i, c := range cols {
				if w := colIs(e, x.st, got.Args[i], c, i); w != "" {
					return false, fmt.Sprintf("column %d of %d (%s): %s", i, len(cols), c.name, w)
				}
			}
			must, may := false, false
			for _, c := range cols {
				must, may = must || c.must, may || c.may
			}
			pr := x.st.isZero(x.res[1])
			if s := e.asSeq(x.st, x.res[1]); s != nil && !s.Open {
				pr = F
				if len(s.Args) == 0 {
					pr = T
				}
			}
			if must && pr != F {
				return false, "a missing title, type or schema is not pointed out"
			}
			if !must && !may && pr != T {
				return false, "problems are reported for a complete schema: " + clip(x.res[1].Key())
			}
			return true, ""
		})
	}
	plain := vs[0]
	for _, v := range vs {
		if strings.HasPrefix(v.name, "type,title1,desc0,extra0") {
			plain = v
		}
	}
	job(func(r *Report) { run(r, "columns:none", nil) })
	for _, v := range vs {
		job(func(r *Report) { run(r, "columns:"+v.name+":alone", []colVariant{v}) })
		job(func(r *Report) { run(r, "columns:"+v.name+":first", []colVariant{v, plain}) })
		job(func(r *Report) { run(r, "columns:"+v.name+":last", []colVariant{plain, plain, v}) })
		job(func(r *Report) { run(r, "columns:"+v.name+":all", []colVariant{v, v, v}) })
	}

	// schemas that are no tables
	obj := func(st *State, id string, kv ...AV) AV { return newMap(st, id, anyMap, kv...) }
	str := func(s string) AV { return iface(strT, cStr(s)) }
	num := iface(f64T, sym("num", f64T))
	bad := map[string]func(st *State) AV{
		"no schema": func(st *State) AV { return vNil() },
		"empty":     func(st *State) AV { return obj(st, "S") },
		"type no string": func(st *State) AV {
			return obj(st, "S", cStr("type"), num)
		},
		"other type": func(st *State) AV {
			v := obj(st, "S", cStr("type"), iface(strT, otherString("OTHER:toptype", []string{"array", "object"})))
			st.mut("S").Rest = RTop
			return v
		},
		"no items": func(st *State) AV { return obj(st, "S", cStr("type"), str("array")) },
		"items no object": func(st *State) AV {
			return obj(st, "S", cStr("type"), str("array"), cStr("items"), iface(anySeq, seqOf(anySeq)))
		},
		"no items.items": func(st *State) AV {
			return obj(st, "S", cStr("type"), str("array"), cStr("items"), iface(anyMap, obj(st, "I", cStr("type"), str("array"))))
		},
		"items.items no list": func(st *State) AV {
			return obj(st, "S", cStr("type"), str("array"), cStr("items"), iface(anyMap, obj(st, "I", cStr("type"), str("array"), cStr("items"), iface(anyMap, obj(st, "II")))))
		},
	}
	for name, mkS := range bad {
		job(func(r *Report) {
			e := newEngine(p)
			st := baseState(p)
			xs := normalExits(e.run(fn, []AV{mkS(st)}, nil, st, "m"))
			r.engine(e)
			expect(r, e, xs, "refused:"+name, p.fpos(fn), func(x Exit) (bool, string) {
				if x.st.isZero(x.res[2]) != F {
					return false, "a schema that is no table (" + name + ") is accepted"
				}
				return wraps(x.st, x.res[2], sentinel), "the error is not an invalid tabular schema error: " + clip(x.res[2].Key())
			})
		})
	}
	job(func(r *Report) {
		e := newEngine(p)
		st := baseState(p)
		s := obj(st, "S", cStr("type"), str("object"))
		st.mut("S").Rest = RTop
		xs := normalExits(e.run(fn, []AV{s}, nil, st, "m"))
		r.engine(e)
		expect(r, e, xs, "refused:object", p.fpos(fn), func(x Exit) (bool, string) {
			return x.st.isZero(x.res[2]) == F, "an object schema is accepted as a table"
		})
	})
	p.titleJobs(r, job, colT, sentinel)
	r.run(jobs)
	r.atLeast(len(jobs), 500, "scenarios")
	return r
}

// colIs: what the column for schema c at position i must be.
func colIs(e *Engine, st *State, col AV, c colVariant, i int) string {
	want := cStr(fmt.Sprintf("col_%d", i))
	if c.title {
		want = sym(fmt.Sprintf("title%d", i), strT)
	}
	if g := project(col, "Title", strT); !same(st, g, want) {
		return "its title is " + clip(g.Key())
	}
	want = cStr("")
	if c.desc {
		want = sym(fmt.Sprintf("desc%d", i), strT)
	}
	if g := project(col, "Description", strT); !same(st, g, want) && !(!c.desc && st.isZero(g) == T) {
		return "its description is " + clip(g.Key())
	}
	tys := []AV{cStr("string")}
	if c.types != nil {
		tys = c.types(i)
	}
	tp := project(col, "Type", anyTy).single()
	if tp == nil || tp.K != KPtr {
		return "its type is not set"
	}
	o, path, t := st.target(tp)
	if o == nil || o.Summary {
		return "its type is not its own"
	}
	ct := e.asSeq(st, st.read(o, path, t))
	if ct == nil || ct.Open || len(ct.Args) != len(tys) {
		return "its type is " + clip(st.read(o, path, t).Key())
	}
	for k, g := range ct.Args {
		if !ct.Must[k] || !same(st, g, tys[k]) {
			return "its type is " + clip(st.read(o, path, t).Key())
		}
	}
	v := project(col, "Validation", anyMap)
	m := v.single()
	if c.extra == 0 {
		if st.isZero(v) == T {
			return ""
		}
		if m != nil && m.K == KMap && st.get(m.Obj) != nil && len(st.get(m.Obj).Ents) == 0 && st.get(m.Obj).Rest == RNone {
			return ""
		}
		return "it has validation rules out of nowhere: " + clip(v.Key())
	}
	if m == nil || m.K != KMap || st.get(m.Obj) == nil {
		return "its validation rules are " + clip(v.Key())
	}
	mo := st.get(m.Obj)
	n := 0
	for _, en := range mo.Ents {
		if en.P != PAbsent {
			n++
		}
	}
	if mo.Havoc || mo.Rest != RNone || n != c.extra {
		return fmt.Sprintf("it has %d validation rules instead of %d", n, c.extra)
	}
	for k := 0; k < c.extra; k++ {
		g, has := e.mapGet(st, mo, otherKeyAV(i, k), anyTy)
		if b, ok := boolConst(has); !ok || !b || !same(st, g, sym(fmt.Sprintf("extra%d.%d", i, k), anyTy)) {
			return "a validation rule is lost or changed"
		}
	}
	return ""
}

// titleJobs: titles are listed in order, and valid exactly when each is a
// variable name and no two are equal.
func (p *Program) titleJobs(r *Report, job func(func(r *Report)), colT types.Type, sentinel AV) {
	titles, valid := p.method(tabularPkg, "Columns", "Titles"), p.method(tabularPkg, "Columns", "ValidMachineTitles")
	colsT := p.typ(tabularPkg, "Columns")
	if !r.need(titles != nil && valid != nil && colsT != nil, "tabular.Columns methods") {
		return
	}
	mkCols := func(names []int) AV {
		var cs []AV
		for i, n := range names {
			a := &Atom{K: KStruct, T: colT}
			for _, f := range fieldsOf(colT) {
				a.Names = append(a.Names, f.name)
				v := sym(fmt.Sprintf("col%d.%s", i, f.name), f.t)
				if f.name == "Title" {
					v = sym(fmt.Sprintf("t%d", n), strT)
				}
				a.Args = append(a.Args, v)
			}
			cs = append(cs, mk(a))
		}
		return seqOf(colsT, cs...)
	}
	distinct := func(st *State) {
		for i := 0; i < 5; i++ {
			for j := 0; j < i; j++ {
				st.facts[pairKey(fmt.Sprintf("$t%d", i), fmt.Sprintf("$t%d", j))] = Fact{Z: 2}
			}
		}
	}
	for n := 0; n <= 4; n++ {
		job(func(r *Report) {
			names := []int{0, 1, 2, 3}[:n]
			e := newEngine(p)
			st := baseState(p)
			xs := normalExits(e.run(titles, []AV{mkCols(names)}, nil, st, "m"))
			r.engine(e)
			expect(r, e, xs, fmt.Sprintf("titles:%d", n), p.fpos(titles), func(x Exit) (bool, string) {
				s := e.asSeq(x.st, x.res[0])
				if s == nil || s.Open || len(s.Args) != n {
					return false, "the titles are " + clip(x.res[0].Key())
				}
				for i, g := range s.Args {
					if !s.Must[i] || !same(x.st, g, sym(fmt.Sprintf("t%d", i), strT)) {
						return false, fmt.Sprintf("title %d is %s", i, clip(g.Key()))
					}
				}
				return true, ""
			})
		})
	}
	want, _ := syntax.Parse(`^[a-zA-Z_$][a-zA-Z_$0-9]*$`, syntax.Perl)
	for _, names := range [][]int{{}, {0}, {0, 1}, {0, 0}, {0, 1, 2}, {0, 1, 0}, {0, 0, 1}, {0, 1, 1}, {1, 1, 1}, {0, 1, 2, 3}, {0, 1, 2, 0}, {0, 1, 2, 1}} {
		job(func(r *Report) {
			e := newEngine(p)
			st := baseState(p)
			distinct(st)
			e.extHook = func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, args []AV) ([]Outcome, bool) {
				if name != "(*regexp.Regexp).MatchString" && name != "(*regexp.Regexp).Match" && name != "regexp.MatchString" {
					return nil, false
				}
				pat := ""
				if a := args[0].single(); a != nil && a.K == KApp && strings.HasPrefix(a.Name, "regexp.MustCompile") {
					pat, _ = strConst(a.Args[0])
				} else if s, ok := strConst(args[0]); ok {
					pat = s
				}
				re, err := syntax.Parse(pat, syntax.Perl)
				if err != nil || re.Simplify().String() != want.Simplify().String() {
					st.tags["wrong"] = "titles are matched against " + pat
				}
				k := "match:" + args[1].Key()
				res := func(st *State, b bool) Outcome {
					o := Outcome{st: st, res: []AV{cBool(b)}}
					if name == "regexp.MatchString" {
						o.res = append(o.res, vNil())
					}
					return o
				}
				switch st.tags[k] {
				case "yes":
					return []Outcome{res(st, true)}, true
				case "no":
					return []Outcome{res(st, false)}, true
				}
				bad := st.clone()
				bad.tags[k], st.tags[k] = "no", "yes"
				return []Outcome{res(bad, false), res(st, true)}, true
			}
			xs := normalExits(e.run(valid, []AV{mkCols(names)}, nil, st, "m"))
			r.engine(e)
			expect(r, e, xs, fmt.Sprintf("valid:%v", names), p.fpos(valid), func(x Exit) (bool, string) {
				if w := x.st.tags["wrong"]; w != "" {
					return false, w
				}
				ok := true
				seen := map[int]bool{}
				for _, n := range names {
					if seen[n] {
						ok = false
					}
					seen[n] = true
					switch x.st.tags[fmt.Sprintf("match:$t%d", n)] {
					case "no":
						ok = false
					case "":
						if x.st.isZero(x.res[0]) == T {
							return false, "a title is not looked at"
						}
					}
				}
				if ok {
					return x.st.isZero(x.res[0]) == T, "good titles are refused"
				}
				if x.st.isZero(x.res[0]) != F {
					return false, "repeated or invalid titles are accepted"
				}
				return wraps(x.st, x.res[0], sentinel), "the error is not an invalid tabular schema error: " + clip(x.res[0].Key())
			})
		})
	}
}
