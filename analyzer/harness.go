package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var baseCache *State

// baseState is the state after package initialisation: package-level variables
// hold what their initialisers compute, unless something else also writes them.
func baseState(p *Program) *State {
	baseOnce.Do(func() { baseCache = computeBase(p) })
	st := newState()
	st.base = baseCache.heap
	for k, v := range baseCache.cnt {
		st.cnt[k] = v
	}
	return st
}

var baseOnce sync.Once

func computeBase(p *Program) *State {
	e := newEngine(p)
	st := newState()
	// dependency order
	done := map[string]bool{}
	var order []*ssa.Package
	var visit func(path string)
	byPath := map[string][]string{}
	for _, pk := range p.Pkgs {
		for imp := range pk.Imports {
			byPath[pk.PkgPath] = append(byPath[pk.PkgPath], imp)
		}
		sort.Strings(byPath[pk.PkgPath])
	}
	visit = func(path string) {
		if done[path] {
			return
		}
		done[path] = true
		for _, i := range byPath[path] {
			visit(i)
		}
		if sp := p.ByPth[path]; sp != nil {
			order = append(order, sp)
		}
	}
	for _, pk := range p.Pkgs {
		visit(pk.PkgPath)
	}
	e.inlineHook = func(fn *ssa.Function) bool { return fn.Name() != "init" || fn.Synthetic == "" }
	for _, sp := range order {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				el, _ := ptrElem(g.Type())
				id := "G:" + shortStr(g.String())
				st.heap[id] = &Obj{ID: id, T: el, F: map[string]AV{}}
			}
		}
		exits := e.run(init, nil, nil, st, "init:"+sp.Pkg.Name())
		for _, x := range exits {
			if !x.panic {
				// the guard is checked once; keep the state that ran the initialisers
				n := x.st.clone()
				n.env = map[ssa.Value]AV{}
				n.tags = map[string]string{}
				st = n
			}
		}
	}
	// variables written outside initialisation are unknown
	for _, fn := range p.All {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if readOnlyUse(in, g) {
						continue
					}
					id := "G:" + shortStr(g.String())
					if o := st.get(id); o != nil {
						n := st.mut(id)
						n.Havoc = true
						n.F = map[string]AV{}
						_ = o
					}
				}
			}
		}
	}
	st.facts = map[string]Fact{}
	for _, o := range st.heap {
		for _, v := range o.F {
			v.Key()
		}
		for _, en := range o.Ents {
			en.Key.Key()
			en.Val.Key()
		}
	}
	return st
}

func readOnlyUse(in ssa.Instruction, g ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return true
	case *ssa.FieldAddr:
		return onlyLoads(x)
	case *ssa.IndexAddr:
		return onlyLoads(x)
	case *ssa.Store:
		return x.Addr != g
	case *ssa.DebugRef:
		return true
	}
	return false
}

func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoads(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyLoads(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ---- scenario building -------------------------------------------------------------

func (s *State) assumeZero(name string, zero bool) {
	z := int8(2)
	if zero {
		z = 1
	}
	s.facts["$"+name] = Fact{Z: z}
}

func (s *State) assumeNonEmpty(name string, t types.Type) {
	s.assumeZero(name, false)
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		l := &Atom{K: KApp, Name: "len", Args: []AV{sym(name, t)}, T: types.Typ[types.Int]}
		s.facts[l.Key()] = Fact{Z: 2}
	}
}

// same decides whether got is the value want, under the facts of st.
func same(st *State, got, want AV) bool {
	g, w := st.norm(got), st.norm(want)
	if g.top || w.top || g.isBottom() || w.isBottom() {
		return false
	}
	return st.eq(g, w) == T
}

// readPath reads root.F.G... through pointers. ok=false when a nil is crossed.
func readPath(st *State, root AV, t types.Type, path []string) (AV, types.Type, bool) {
	cur, ct := root, t
	for _, f := range path {
		pe, isP := ptrElem(ct)
		if isP {
			if cur.top {
				return Top, nil, true
			}
			out := Bottom
			for _, a := range cur.atoms {
				if st.isZeroAtom(a) == T {
					return Bottom, nil, false
				}
				o, pp, _ := st.target(a)
				if o == nil {
					return Top, nil, true
				}
				out = union(out, st.read(o, pp, pe))
			}
			cur, ct = out, pe
		}
		s, ok := ct.Underlying().(*types.Struct)
		if !ok {
			return Top, nil, true
		}
		var ft types.Type
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				ft = s.Field(i).Type()
			}
		}
		if ft == nil {
			return Top, nil, true
		}
		cur = st.norm(project(cur, f, ft))
		ct = ft
	}
	return cur, ct, true
}

// mapAt looks a key up in a map value.
func mapAt(e *Engine, st *State, m AV, t types.Type, key AV) (val AV, has AV) {
	mt := t.Underlying().(*types.Map)
	if m.top || m.isBottom() {
		return Top, Top
	}
	v, ok := Bottom, Bottom
	for _, a := range m.atoms {
		if a.K == KNil || st.isZeroAtom(a) == T {
			v, ok = union(v, zeroOf(mt.Elem())), union(ok, cBool(false))
			continue
		}
		o := e.mapObj(st, a, t)
		if o == nil {
			return Top, Top
		}
		v1, ok1 := e.mapGet(st, o, key, mt.Elem())
		v, ok = union(v, v1), union(ok, ok1)
	}
	return st.norm(v), st.norm(ok)
}

type fld struct {
	name string
	t    types.Type
}

func fieldsOf(t types.Type) []fld {
	s := t.Underlying().(*types.Struct)
	var out []fld
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, fld{s.Field(i).Name(), s.Field(i).Type()})
	}
	return out
}

func describe(x Exit) string {
	var parts []string
	for _, r := range x.res {
		parts = append(parts, r.Key())
	}
	s := strings.Join(parts, ", ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func normalExits(xs []Exit) []Exit {
	var out []Exit
	for _, x := range xs {
		if !x.panic {
			out = append(out, x)
		}
	}
	return out
}

var _ = fmt.Sprint
