package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const dsPkg = modPath

var docTypes = []string{"Dataset", "Commit", "Meta", "Structure", "Transform", "Readme", "Viz", "Stats"}

// Fields merged key by key rather than replaced.
var mapMerged = map[string]bool{"Transform.Config": true, "Transform.Resources": true, "Transform.Secrets": true}

// isComponent: pointer to a document component type.
func isComponent(t types.Type) (string, bool) {
	p, ok := ptrElem(t)
	if !ok {
		return "", false
	}
	n, ok := types.Unalias(p).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != dsPkg {
		return "", false
	}
	for _, d := range docTypes[1:] {
		if n.Obj().Name() == d {
			return d, true
		}
	}
	return "", false
}

type leaf struct {
	path  []string
	types []types.Type
	typ   string // owner type name of last field
}

func (l leaf) id() string { return strings.Join(l.path, ".") }

// leaves of a document type: its fields, and for components their fields.
func leavesOf(p *Program, tn string) []leaf {
	t := p.typ(dsPkg, tn)
	var out []leaf
	for _, f := range fieldsOf(t) {
		if c, ok := isComponent(f.t); ok {
			ct := p.typ(dsPkg, c)
			for _, g := range fieldsOf(ct) {
				out = append(out, leaf{path: []string{f.name, g.name}, types: []types.Type{f.t, g.t}, typ: c})
			}
			continue
		}
		out = append(out, leaf{path: []string{f.name}, types: []types.Type{f.t}, typ: tn})
	}
	return out
}

func symName(root string, path []string) string {
	s := root + "*"
	for i, f := range path {
		s += "." + f
		if i < len(path)-1 {
			s += "*"
		}
	}
	return s
}

// mergeCase is one assumption about the inputs and the expected outcome.
type mergeCase struct {
	name string
	prep func(st *State)
	want func(e *Engine, st *State, final AV) (bool, string)
}

func checkMerge(p *Program) *Report {
	r := newReport("C01")
	r.Rule = "Flow-sensitive abstract interpretation (value-origin domain, SSA, callees inlined) of every component's merge entry point. For every field of every document type, and for every field of every component reached through a dataset, the interpreter is started once per assumption about that one field (set / not set in the target and in each source, everything else unknown) and per source-list shape; at every exit the target's field must hold exactly the value the rule selects. Map-merged fields are decided for one arbitrary key."
	n := 0
	var jobs []func(r *Report)
	for _, tn := range docTypes {
		t := p.typ(dsPkg, tn)
		fn := p.method(dsPkg, tn, "Assign")
		if !r.need(t != nil && fn != nil, "merge operation of "+tn) {
			continue
		}
		for _, lf := range leavesOf(p, tn) {
			n++
			jobs = append(jobs, func(r *Report) { mergeLeaf(p, r, tn, t, fn, lf) })
		}
		jobs = append(jobs, func(r *Report) { mergeNil(p, r, tn, t, fn) })
	}
	r.run(jobs)
	r.atLeast(n, 120, "merged fields")
	return r
}

func runMerge(p *Program, r *Report, fn *ssa.Function, t types.Type, prep func(st *State), sources []AV) (*Engine, []Exit) {
	e := newEngine(p)
	st := baseState(p)
	st.facts["$KEY:k"] = Fact{}
	pt := types.NewPointer(t)
	st.assumeZero("dst", false)
	prep(st)
	args := []AV{sym("dst", pt), seqOf(types.NewSlice(pt), sources...)}
	if len(sources) == 0 {
		args[1] = vNil()
	}
	xs := normalExits(e.run(fn, args, nil, st, "m"))
	r.engine(e)
	return e, xs
}

func expect(r *Report, e *Engine, xs []Exit, id, pos string, f func(x Exit) (bool, string)) {
	if len(e.undecided) > 0 {
		r.bad(id, pos, "undecided: %s", strings.Join(e.undecided, "; "))
		return
	}
	if len(xs) == 0 {
		r.bad(id, pos, "no normal return: the operation crashes on this input (%s)", strings.Join(e.nilPanics, ", "))
		return
	}
	for _, x := range xs {
		if ok, why := f(x); !ok {
			r.bad(id, pos, "%s", why)
			return
		}
	}
	if c := e.crashed(); c != "" {
		r.bad(id, pos, "the operation crashes on this input: %s", c)
		return
	}
	r.ok(id)
}

// shapes of the source list: which position holds the studied source
type shape struct {
	name string
	srcs []string // names; "nil" for a nil source
}

var mergeShapes = []shape{
	{"one", []string{"src"}},
	{"nil,one", []string{"nil", "src"}},
	{"one,nil", []string{"src", "nil"}},
	{"first,one", []string{"prev", "src"}},
	{"one,last", []string{"src", "next"}},
}

func mergeLeaf(p *Program, r *Report, tn string, t types.Type, fn *ssa.Function, lf leaf) {
	last := len(lf.path) - 1
	ft := lf.types[last]
	key := lf.typ + "." + lf.path[last]
	isMapM := mapMerged[key]
	fill := tn == "Dataset" && lf.id() == "ID"
	pos := p.fpos(fn)
	pt := types.NewPointer(t)
	for _, sh := range mergeShapes {
		if last > 0 && (sh.name == "one,nil" || sh.name == "nil,one" || sh.name == "one,last") {
			continue // settled per component and by the dataset's own fields
		}
		var srcs []AV
		for _, s := range sh.srcs {
			if s == "nil" {
				srcs = append(srcs, vNil())
			} else {
				srcs = append(srcs, symNN(s, pt))
			}
		}
		// assumption space
		type side struct {
			parent string // "nil","set" for nested
			val    string // "set","unset","has","lacks"
		}
		parents := []string{"-"}
		if last > 0 {
			parents = []string{"nil", "set"}
		}
		vals := []string{"unset", "set"}
		_, isMap := ft.Underlying().(*types.Map)
		if isMap {
			vals = []string{"unset", "has", "lacks"}
		}
		var sides []side
		for _, pr := range parents {
			for _, v := range vals {
				if pr == "nil" && v != "unset" {
					continue
				}
				sides = append(sides, side{pr, v})
			}
		}
		// the other sources (prev/next) are fixed per shape to keep the grid small
		others := []string{}
		for _, s := range sh.srcs {
			if s == "prev" || s == "next" {
				others = append(others, s)
			}
		}
		otherSides := []side{{}}
		if len(others) == 1 {
			otherSides = sides
		}
		for di, ds := range sides {
			if last > 0 && len(others) == 1 && di == 1 {
				continue
			}
			for _, ss := range sides {
				for _, os := range otherSides {
					prepSide := func(st *State, root string, sd side) {
						if last > 0 {
							st.assumeZero(symName(root, lf.path[:1]), sd.parent == "nil")
							if sd.parent == "nil" {
								return
							}
						}
						nm := symName(root, lf.path)
						switch sd.val {
						case "unset":
							st.assumeZero(nm, true)
						case "set":
							st.assumeNonEmpty(nm, ft)
						case "has":
							st.assumeNonEmpty(nm, ft)
							st.assumeZero("has:"+nm+"*[$KEY:k]", false)
						case "lacks":
							if isMapM {
								st.assumeZero(nm, false)
							} else {
								st.assumeNonEmpty(nm, ft)
							}
							st.assumeZero("has:"+nm+"*[$KEY:k]", true)
							st.assumeZero(nm+"*[$KEY:k]", true)
						}
					}
					e, xs := runMerge(p, r, fn, t, func(st *State) {
						for _, s := range sh.srcs {
							if s != "nil" {
								st.assumeZero(s, false)
							}
						}
						prepSide(st, "dst", ds)
						prepSide(st, "src", ss)
						if len(others) == 1 {
							prepSide(st, others[0], os)
						}
					}, srcs)
					// who wins
					winner := "dst"
					eff := map[string]side{"dst": ds, "src": ss}
					if len(others) == 1 {
						eff[others[0]] = os
					}
					isSet := func(s side) bool {
						return s.parent != "nil" && (s.val == "set" || s.val == "has" || s.val == "lacks" && !isMapM)
					}
					if fill {
						if !isSet(ds) {
							for _, s := range sh.srcs {
								if s != "nil" && isSet(eff[s]) {
									winner = s
									break
								}
							}
						}
					} else {
						for _, s := range sh.srcs {
							if s != "nil" && isSet(eff[s]) {
								winner = s
							}
						}
					}
					id := fmt.Sprintf("merge:%s.%s", tn, lf.id())
					scen := fmt.Sprintf("sources [%s], target %s, source %s", sh.name, sideStr(ds.parent, ds.val), sideStr(ss.parent, ss.val))
					if len(others) == 1 {
						scen += ", other source " + sideStr(os.parent, os.val)
					}
					expect(r, e, xs, id, pos, func(x Exit) (bool, string) {
						fv, _, reach := readPath(x.st, sym("dst", pt), pt, lf.path)
						anyParent := false
						for _, sd := range eff {
							if sd.parent != "nil" {
								anyParent = true
							}
						}
						if last > 0 && !anyParent {
							pv, _, _ := readPath(x.st, sym("dst", pt), pt, lf.path[:1])
							return x.st.isZero(pv) == T, fmt.Sprintf("%s: no source and no target has %s, but the target ends up with %s", scen, lf.path[0], pv)
						}
						if !reach {
							return false, fmt.Sprintf("%s: %s is missing from the target afterwards", scen, lf.path[0])
						}
						if isMapM {
							v, has := mapAt(e, x.st, fv, ft, sym("KEY:k", types.Typ[types.String]))
							if isSet(eff[winner]) {
								want := x.st.norm(sym(symName(winner, lf.path)+"*[$KEY:k]", ft.Underlying().(*types.Map).Elem()))
								return same(x.st, v, want) && x.st.truth(has) == T, fmt.Sprintf("%s: entry for an arbitrary key is %s (present: %s), expected the one of %s", scen, v, has, winner)
							}
							anyMap := false
							for _, sd := range eff {
								if sd.parent != "nil" && sd.val == "lacks" {
									anyMap = true
								}
							}
							if x.st.truth(has) != F {
								return false, fmt.Sprintf("%s: a key no one had is present afterwards (%s)", scen, v)
							}
							if !anyMap && x.st.isZero(fv) != T {
								return false, fmt.Sprintf("%s: nobody set %s but the target ends up with %s", scen, lf.id(), fv)
							}
							if anyMap && x.st.isZero(fv) != F {
								return false, fmt.Sprintf("%s: the (empty) map %s was lost: %s", scen, lf.id(), fv)
							}
							return true, ""
						}
						if isSet(eff[winner]) {
							want := sym(symName(winner, lf.path), ft)
							if isMap && !same(x.st, fv, want) {
								ok, how := sameEntries(e, x.st, fv, want, ft)
								return ok, fmt.Sprintf("%s: field %s is not a copy of the value of %s: %s", scen, lf.id(), winner, how)
							}
							return same(x.st, fv, want), fmt.Sprintf("%s: field %s ends up as %s, expected the value of %s", scen, lf.id(), fv, winner)
						}
						return x.st.isZero(fv) == T, fmt.Sprintf("%s: nobody set %s but it ends up as %s", scen, lf.id(), fv)
					})
				}
			}
		}
	}
}

// sameEntries: two maps hold the same entry, or none, under an arbitrary key.
func sameEntries(e *Engine, st *State, a, b AV, t types.Type) (bool, string) {
	k := sym("KEY:k", types.Typ[types.String])
	va, ha := mapAt(e, st, a, t, k)
	vb, hb := mapAt(e, st, b, t, k)
	ta, tb := st.truth(ha), st.truth(hb)
	if st.isZero(a) != F {
		return false, "it may be absent"
	}
	if ta == U || tb == U {
		return same(st, ha, hb) && same(st, va, vb), fmt.Sprintf("presence %s and %s, values %s and %s", ha, hb, va, vb)
	}
	return ta == tb && (ta == F || same(st, va, vb)), fmt.Sprintf("presence %v and %v, values %s and %s", ta == T, tb == T, va, vb)
}

func sideStr(a, b string) string {
	if a == "-" || a == "" {
		return b
	}
	if a == "nil" {
		return "absent"
	}
	return b
}

// mergeNil: no sources, or only nil sources, leave every field as it was.
func mergeNil(p *Program, r *Report, tn string, t types.Type, fn *ssa.Function) {
	pt := types.NewPointer(t)
	for _, srcs := range [][]AV{{}, {vNil()}, {vNil(), vNil()}} {
		e, xs := runMerge(p, r, fn, t, func(st *State) {}, srcs)
		expect(r, e, xs, "merge-nil:"+tn, p.fpos(fn), func(x Exit) (bool, string) {
			for _, f := range fieldsOf(t) {
				v, _, _ := readPath(x.st, sym("dst", pt), pt, []string{f.name})
				if !same(x.st, v, sym("dst*."+f.name, f.t)) {
					return false, fmt.Sprintf("merging nothing changes field %s to %s", f.name, v)
				}
			}
			return true, ""
		})
	}
}
