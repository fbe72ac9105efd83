package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C37: comparisons are empty for equal documents only ---------------------------------------

const dstestPkg = modPath + "/dstest"

// what dropping transient values resets (C06)
var transientFields = map[string]string{
	"Dataset": "Body BodyBytes Name Peername Path ProfileID NumVersions", "Commit": "Path", "Meta": "Path", "Structure": "Path",
}

type compRun struct {
	p    *Program
	t    types.Type
	name string
}

func (d *compRun) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	switch {
	case strings.HasSuffix(name, "."+d.name+").Assign") && len(a) == 2 && !strings.Contains(name, "$"):
		// a copy (C01): every field of what is assigned
		dst, path, _ := st.target(a[0].single())
		src := e.asSeq(st, a[1])
		if dst == nil || src == nil || src.Open {
			return nil, false
		}
		for _, x := range src.Args {
			y := x.single()
			if y == nil {
				return nil, false
			}
			if st.isZeroAtom(y) == T {
				continue
			}
			o, op, _ := st.target(y)
			if o == nil {
				return nil, false
			}
			for _, f := range fieldsOf(d.t) {
				v := st.norm(st.read(o, op+"."+f.name, f.t))
				if cur := st.norm(st.read(st.get(dst.ID), path+"."+f.name, f.t)); st.isZero(cur) != T {
					v = app("over", v, cur)
				}
				st.write(dst.ID, path+"."+f.name, f.t, v, false)
			}
		}
		return []Outcome{{st: st}}, true
	case strings.HasSuffix(name, "cmpopts.IgnoreUnexported"):
		s := e.asSeq(st, a[0])
		if s == nil || s.Open {
			return nil, false
		}
		var l []AV
		for _, x := range s.Args {
			y := x.single()
			if y == nil || y.K != KIface {
				return nil, false
			}
			l = append(l, cStr(typeKey(y.T)))
		}
		return ret(st, mk(&Atom{K: KApp, Name: "ignore-unexported", Args: l, T: resultTypes(c)[0], NonNil: true}))
	case (strings.HasSuffix(name, "/cmp.Diff") || strings.HasSuffix(name, "/cmp.Equal")) && len(a) == 3:
		if w := d.compares(e, st, a); w != "" {
			st.tags["wrong"] = w
		}
		var outs []Outcome
		for _, equal := range []string{"equal", "different"} {
			if o := st.tags["compared"]; o != "" && o != equal {
				continue
			}
			s := st.clone()
			s.tags["compared"] = equal
			v := cBool(equal == "equal")
			if strings.HasSuffix(name, "Diff") {
				if v = cStr(""); equal != "equal" {
					v = symNN("DIFFERENCES", strT)
				}
			}
			outs = append(outs, Outcome{st: s, res: []AV{v}})
		}
		return outs, true
	}
	return nil, false
}

func (d *compRun) compares(e *Engine, st *State, a []AV) string {
	for i, side := range []string{"expect", "got"} {
		x := a[i].single()
		if x == nil || x.K != KIface {
			return "what is compared is " + clip(a[i].Key())
		}
		root, rt := x.Args[0], x.T
		for _, f := range fieldsOf(d.t) {
			if f.name[0] >= 'a' && f.name[0] <= 'z' {
				continue
			}
			v, _, ok := readPath(st, root, rt, []string{f.name})
			if !ok {
				return "the " + side + " side is compared as nil"
			}
			st.tags[side+"."+f.name] = v.Key()
			var want AV
			switch {
			case st.tags[side] == "nil" || st.tags["drop"] != "" && strings.Contains(" "+transientFields[d.name]+" ", " "+f.name+" "):
				want = zeroOf(f.t)
			default:
				o := st.symObj(symNN(side, types.NewPointer(d.t)).single(), d.t)
				want = st.tagged(o, side, f)
			}
			if !sameAV(v, want) && !same(st, v, want) {
				return fmt.Sprintf("%s of the %s side is compared as %s, expected %s", f.name, side, clip(v.Key()), clip(want.Key()))
			}
		}
	}
	opts := e.asSeq(st, st.norm(a[2]))
	if opts == nil || opts.Open {
		return "the options of the comparison are " + clip(a[2].Key())
	}
	ignored := map[string]bool{}
	for _, o := range opts.Args {
		y := stripIface(st.norm(o)).single()
		if y == nil || y.Name != "ignore-unexported" {
			return "the comparison has the option " + clip(o.Key())
		}
		for _, t := range y.Args {
			s, _ := strConst(t)
			ignored[s] = true
		}
	}
	if st.tags["expect"] == "nil" && st.tags["got"] == "nil" {
		return ""
	}
	seen := map[types.Type]bool{}
	var walk func(t types.Type) string
	walk = func(t types.Type) string {
		if seen[t] {
			return ""
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)) {
			return "" // compared by its own method
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return walk(u.Elem())
		case *types.Slice:
			return walk(u.Elem())
		case *types.Map:
			return walk(u.Elem())
		case *types.Struct:
			for _, f := range fieldsOf(t) {
				if f.name[0] >= 'a' && f.name[0] <= 'z' {
					if !ignored[typeKey(t)] {
						return "the comparison panics on " + typeKey(t) + ", which has unexported fields"
					}
				} else if w := walk(f.t); w != "" {
					return w
				}
			}
		}
		return ""
	}
	return walk(d.t)
}

// tagged: a field as the caller gave it.
func (s *State) tagged(o *Obj, side string, f fld) AV { return sym(side+"*."+f.name, f.t) }

func checkCompareDocs(p *Program) *Report {
	r := newReport("C37")
	r.Rule = "Abstract interpretation of the comparison helpers on documents whose fields are all unknown, or that are missing, for no, one and several options: what is handed to the diff library must be every exported field of the expected and then of the other document, as given or, with the option, without transient values on both sides, ignoring nothing but unexported fields and handling every type that has them; the result is the library's, and the documents stay as they are."
	var jobs []func(r *Report)
	for fname, tn := range map[string]string{"CompareDatasets": "Dataset", "CompareCommits": "Commit", "CompareMetas": "Meta", "CompareStructures": "Structure"} {
		fn, t, opt := p.fn("dstest."+fname), p.typ(dsPkg, tn), p.typ(dstestPkg, "OptDropTransientValues")
		if !r.need(fn != nil && t != nil && opt != nil, "dstest."+fname) {
			continue
		}
		pt := types.NewPointer(t)
		for _, sides := range []string{"", "expect", "got", "expect got"} {
			for nopt := 0; nopt < 3; nopt++ {
				jobs = append(jobs, func(r *Report) {
					d := &compRun{p: p, t: t, name: tn}
					args := make([]AV, 3)
					e, xs := invokeFn(p, r, fn, func(e *Engine, st *State) {
						e.preHook, e.extHook = d.hook, d.hook
						e.apart = true
						st.maxFresh = 60
						for i, s := range []string{"expect", "got"} {
							args[i] = symNN(s, pt)
							if strings.Contains(sides, s) {
								args[i] = vNil()
								st.tags[s] = "nil"
							} else {
								st.assumeZero(s, false)
							}
						}
						var l []AV
						for i := 0; i < nopt; i++ {
							st.tags["drop"] = "yes"
							l = append(l, iface(opt, cInt(int64(i))))
						}
						args[2] = seqOf(fn.Signature.Params().At(2).Type(), l...)
					}, args...)
					expect(r, e, xs, fmt.Sprintf("%s: missing %q, options %d", fname, sides, nopt), p.fpos(fn), func(x Exit) (bool, string) {
						if w := x.st.tags["wrong"]; w != "" {
							return false, w
						}
						switch got := x.st.norm(x.res[0]); {
						case x.st.tags["compared"] == "":
							return false, "the documents are not compared"
						case x.st.tags["compared"] == "equal" && !sameAV(got, cStr("")):
							return false, "the result for equal documents is " + clip(got.Key())
						case x.st.tags["compared"] != "equal" && !sameAV(got, symNN("DIFFERENCES", strT)):
							return false, "the result for different documents is " + clip(got.Key())
						}
						for _, s := range []string{"expect", "got"} {
							if strings.Contains(sides, s) {
								continue
							}
							o := x.st.symObj(symNN(s, pt).single(), t)
							for _, f := range fieldsOf(t) {
								if v := x.st.norm(x.st.read(o, "."+f.name, f.t)); !same(x.st, v, sym(s+"*."+f.name, f.t)) {
									return false, fmt.Sprintf("%s of the %s document is changed to %s", f.name, s, clip(v.Key()))
								}
							}
						}
						return true, ""
					})
				})
			}
		}
	}
	r.run(jobs)
	r.atLeast(len(jobs), 48, "comparisons")
	return r
}
