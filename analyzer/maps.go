package main

import (
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- maps -------------------------------------------------------------------------

func (e *Engine) mapObj(st *State, a *Atom, t types.Type) *Obj {
	switch a.K {
	case KMap:
		return st.get(a.Obj)
	case KSym:
		return st.symMap(a, t)
	}
	return nil
}

func keyMatch(st *State, o *Obj, key AV) (string, bool) {
	a := key.single()
	if a == nil {
		return "", false
	}
	return a.Key(), true
}

func (e *Engine) mapSet(fr *frame, st *State, m, key, val AV, t types.Type, ins ssa.Instruction) {
	if m.top || m.isBottom() {
		return
	}
	weak := len(m.atoms) > 1
	for _, a := range m.atoms {
		o := e.mapObj(st, a, t)
		if o == nil {
			continue
		}
		e.recordStore(fr, st, o.ID, "["+key.Key()+"]", val, AV{}, "mapset", ins)
		n := st.mut(o.ID)
		w := weak || o.Summary
		ka := key.single()
		if ka == nil || !exact(ka) && !ka.Summary {
			// unknown key: any entry may be overwritten
			for k, en := range n.Ents {
				en.Val = union(en.Val, val)
				if en.P == PAbsent || en.P == PInit {
					en.P = PMay
				}
				n.Ents[k] = en
			}
			n.Rest = RTop
			continue
		}
		// other entries possibly equal to this key are weakly updated
		for k, en := range n.Ents {
			if k == ka.Key() {
				continue
			}
			if eqk := en.Key.single(); eqk != nil && st.eqAtom(eqk, ka) == U {
				en.Val = union(en.Val, val)
				if en.P == PAbsent || en.P == PInit {
					en.P = PMay
				}
				n.Ents[k] = en
			}
		}
		if ka.Summary {
			for _, kn := range e.trackedKeys(st) {
				if _, ok := n.Ents[kn.Key()]; !ok && st.eqAtom(kn, ka) == F {
					n.Ents[kn.Key()] = entDef(o, mk(kn))
				}
			}
			if n.Rest == RNone || n.Rest == RInit {
				n.Rest = RTop
			}
			continue
		}
		old, ok := n.Ents[ka.Key()]
		if !ok {
			old = entDef(o, key)
		}
		if w {
			p := PMay
			if old.P == PMust {
				p = PMust
			}
			n.Ents[ka.Key()] = Ent{Key: key, Val: unionEnt(old, Ent{Key: key, Val: val, P: PMust}), P: p}
		} else {
			n.Ents[ka.Key()] = Ent{Key: key, Val: val, P: PMust}
		}
	}
}

func (e *Engine) mapDelete(fr *frame, st *State, m, key AV, t types.Type, ins ssa.Instruction) {
	if m.top {
		return
	}
	weak := len(m.atoms) > 1
	for _, a := range m.atoms {
		o := e.mapObj(st, a, t)
		if o == nil {
			continue
		}
		e.recordStore(fr, st, o.ID, "["+key.Key()+"]", Bottom, AV{}, "mapdelete", ins)
		n := st.mut(o.ID)
		ka := key.single()
		for k, en := range n.Ents {
			may := true
			if ka != nil {
				if eqk := en.Key.single(); eqk != nil {
					switch st.eqAtom(eqk, ka) {
					case T:
						if !weak && !o.Summary {
							en.P = PAbsent
							en.Val = Bottom
							n.Ents[k] = en
							may = false
						}
					case F:
						may = false
					}
				}
			}
			if may && en.P != PAbsent {
				en.P = PMay
				n.Ents[k] = en
			}
		}
		if ka != nil && exact(ka) && !weak && !o.Summary {
			n.Ents[ka.Key()] = Ent{Key: key, P: PAbsent}
		} else if n.Rest == RInit {
			n.Rest = RTop
		}
	}
}

func (e *Engine) mapGet(st *State, o *Obj, key AV, elem types.Type) (AV, AV) {
	ka := key.single()
	if ka == nil || o.Havoc {
		return Top, Top
	}
	if en, ok := o.Ents[ka.Key()]; ok && exact(ka) {
		switch en.P {
		case PMust:
			return st.norm(en.Val), cBool(true)
		case PAbsent:
			return zeroOf(elem), cBool(false)
		case PInit:
			return st.norm(en.Val), sym("has:"+o.ID+"["+ka.Key()+"]", types.Typ[types.Bool])
		default:
			return union(st.norm(en.Val), zeroOf(elem)), Top
		}
	}
	// compare with the known keys
	var cand []Ent
	for _, en := range o.Ents {
		if k := en.Key.single(); k == nil || st.eqAtom(k, ka) != F {
			cand = append(cand, en)
		}
	}
	if len(cand) == 0 {
		switch o.Rest {
		case RNone:
			return zeroOf(elem), cBool(false)
		case RInit:
			return st.norm(mk(&Atom{K: KSym, Name: o.ID + "[" + ka.Key() + "]", T: elem, Summary: o.Summary || ka.Summary})),
				mk(&Atom{K: KSym, Name: "has:" + o.ID + "[" + ka.Key() + "]", T: types.Typ[types.Bool], Summary: o.Summary || ka.Summary})
		}
		return Top, Top
	}
	if o.Rest != RNone {
		return Top, Top
	}
	out := zeroOf(elem)
	for _, en := range cand {
		if en.P != PAbsent {
			out = union(out, en.Val)
		}
	}
	ok := app("haskey", mk(&Atom{K: KMap, Obj: o.ID}), key)
	return out, ok
}

// lookup forks over the distinguishable keys when the key is a fixed unknown
// compared against a finite table, so that table-driven code is as precise as a
// switch.
func (e *Engine) lookup(fr *frame, x *ssa.Lookup, st *State) []*State {
	m := e.val(fr, st, x.X)
	key := e.val(fr, st, x.Index)
	ret := func(s *State, v, ok AV) *State {
		if x.CommaOk {
			s.env[x] = tuple(v, ok)
		} else {
			s.env[x] = v
		}
		return s
	}
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := strConst(m); ok {
			if n, ok := intConst(key); ok && n >= 0 && n < int64(len(s)) {
				return e.set(st, x, cInt(int64(s[n])))
			}
		}
		if m.top || key.top {
			return e.set(st, x, Top)
		}
		return e.set(st, x, app("index", m, key))
	}
	mt := x.X.Type().Underlying().(*types.Map)
	if m.top || key.top || m.isBottom() {
		return []*State{ret(st, Top, Top)}
	}
	a := m.single()
	if a != nil && a.K == KNil {
		return []*State{ret(st, zeroOf(mt.Elem()), cBool(false))}
	}
	// set-valued key: one state per atom
	if len(key.atoms) > 1 {
		var out []*State
		for _, ka := range key.atoms {
			s := st.clone()
			s.env[x.Index] = mk(ka)
			out = append(out, e.lookup(fr, x, s)...)
		}
		return out
	}
	if a != nil {
		o := e.mapObj(st, a, x.X.Type())
		if o == nil {
			return []*State{ret(st, Top, Top)}
		}
		ka := key.single()
		if ka != nil && ka.K != KConst && exact(ka) && o.Rest == RNone && !o.Havoc && len(o.Ents) > 0 && len(o.Ents) <= 64 {
			if _, direct := o.Ents[ka.Key()]; !direct {
				var out []*State
				rest := st.clone()
				feasibleRest := true
				keys := make([]string, 0, len(o.Ents))
				for k := range o.Ents {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					en := o.Ents[k]
					if en.P == PAbsent {
						continue
					}
					c := app("==", key, en.Key)
					t := rest.truth(c)
					if t != F {
						s := rest.clone()
						if s.refine(c, true) && (t == T || s.truth(c) != F) {
							if en.P == PMust {
								out = append(out, ret(s, s.norm(en.Val), cBool(true)))
							} else {
								out = append(out, ret(s, union(en.Val, zeroOf(mt.Elem())), Top))
							}
						}
					}
					if t == T {
						feasibleRest = false
						break
					}
					if !rest.refine(c, false) {
						feasibleRest = false
						break
					}
				}
				if feasibleRest {
					out = append(out, ret(rest, zeroOf(mt.Elem()), cBool(false)))
				}
				return out
			}
		}
		v, ok := e.mapGet(st, o, key, mt.Elem())
		return []*State{ret(st, v, ok)}
	}
	v, ok := Bottom, Bottom
	for _, a := range m.atoms {
		if a.K == KNil {
			v, ok = union(v, zeroOf(mt.Elem())), union(ok, cBool(false))
			continue
		}
		o := e.mapObj(st, a, x.X.Type())
		if o == nil {
			return []*State{ret(st, Top, Top)}
		}
		v1, ok1 := e.mapGet(st, o, key, mt.Elem())
		v, ok = union(v, v1), union(ok, ok1)
	}
	return []*State{ret(st, v, ok)}
}

// ---- range -------------------------------------------------------------------------
//
// Iterating a map visits the entries known to be present, in a fixed order, plus
// -- when the map may hold entries that are not tracked individually -- any
// number of "other" entries with keys different from every tracked key.

func (e *Engine) rangeInit(fr *frame, x *ssa.Range, st *State) []*State {
	v := e.val(fr, st, x.X)
	id, _ := st.fresh("it@" + e.site(fr, x))
	o := &Obj{ID: id, F: map[string]AV{".pos": cInt(0), ".k": cInt(0)}, Ents: map[string]Ent{}, IsMap: true}
	mode := "top"
	if a := v.single(); a != nil {
		if a.K == KNil {
			mode = "none"
		} else if mo := e.mapObj(st, a, x.X.Type()); mo != nil && !mo.Havoc {
			mode = "map"
			// tracked keys for this map, if an arbitrary key is under study
			ents := map[string]Ent{}
			for k, en := range mo.Ents {
				ents[k] = en
			}
			for _, kn := range e.trackedKeys(st) {
				if _, ok := ents[kn.Key()]; !ok {
					en := entDef(mo, mk(kn))
					if en.P != PAbsent {
						ents[kn.Key()] = en
					}
				}
			}
			for k, en := range ents {
				if en.P == PInit {
					// presence on entry is governed by a symbol
					has := sym("has:"+mo.ID+"["+en.Key.Key()+"]", types.Typ[types.Bool])
					switch st.truth(has) {
					case T:
						en.P = PMust
					case F:
						en.P = PAbsent
					default:
						en.P = PMay
					}
				}
				o.Ents[k] = en
			}
			o.F[".src"] = mk(&Atom{K: KSym, Name: mo.ID})
			if mo.Rest != RNone {
				o.F[".rest"] = cBool(true)
			}
		}
	}
	o.F[".mode"] = cStr(mode)
	st.heap[id] = o
	return e.set(st, x, AV{atoms: []*Atom{{K: KMark, Obj: id}}})
}

// trackedKeys: symbols named KEY:* that appear in facts (the harness plants one
// per studied key).
func (e *Engine) trackedKeys(st *State) []*Atom {
	var out []*Atom
	for k := range st.facts {
		if strings.HasPrefix(k, "$KEY:") {
			out = append(out, &Atom{K: KSym, Name: k[1:], T: types.Typ[types.String]})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func (e *Engine) next(fr *frame, x *ssa.Next, st *State) []*State {
	it := e.val(fr, st, x.Iter)
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	end := func(s *State) *State {
		s.env[x] = tuple(cBool(false), zeroOrTop(kt), zeroOrTop(vt))
		return s
	}
	a := it.single()
	if a == nil || a.K != KMark {
		// string iteration or unknown map
		s2 := st.clone()
		st.env[x] = tuple(cBool(true), Top, Top)
		return []*State{st, end(s2)}
	}
	o := st.get(a.Obj)
	mode, _ := strConst(o.F[".mode"])
	switch mode {
	case "none":
		return []*State{end(st)}
	case "top":
		s2 := st.clone()
		st.env[x] = tuple(cBool(true), Top, Top)
		return []*State{st, end(s2)}
	}
	keys := make([]string, 0, len(o.Ents))
	for k, en := range o.Ents {
		if en.P != PAbsent {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if e.backwards {
		slices.Reverse(keys)
	}
	pos, ok := intConst(o.F[".pos"])
	if !ok {
		s2 := st.clone()
		st.env[x] = tuple(cBool(true), Top, Top)
		return []*State{st, end(s2)}
	}
	var out []*State
	setPos := func(s *State, p int64) {
		n := s.mut(a.Obj)
		n.F[".pos"] = cInt(p)
		n.F[".k"] = cInt(0)
	}
	if _, rest := o.F[".rest"]; rest {
		s := st.clone()
		src := "?"
		if sa := o.F[".src"].single(); sa != nil {
			src = sa.Name
		}
		ok := mk(&Atom{K: KSym, Name: "OTHER:" + src, T: kt, Summary: true})
		s.env[x] = tuple(cBool(true), ok, Top)
		s.mut(a.Obj).F[".k"] = cInt(1)
		out = append(out, s)
	}
	for {
		if int(pos) >= len(keys) {
			s := st.clone()
			setPos(s, pos)
			out = append(out, end(s))
			break
		}
		en := o.Ents[keys[pos]]
		s := st.clone()
		setPos(s, pos+1)
		s.env[x] = tuple(cBool(true), en.Key, s.norm(en.Val))
		out = append(out, s)
		if en.P == PMust {
			break
		}
		pos++
	}
	return out
}

func zeroOrTop(t types.Type) AV {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Top
	}
	return zeroOf(t)
}
