package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- abstract state -----------------------------------------------------------

type Pres int8

const (
	PAbsent Pres = iota
	PMust
	PMay
	PInit // as on entry: unknown, value is the entry symbol
)

type Ent struct {
	Key AV
	Val AV
	P   Pres
}

type RestKind int8

const (
	RNone RestKind = iota // no other entries
	RInit                 // whatever the map held on entry
	RTop                  // unknown
)

// Obj is a memory object. Objects are immutable once shared; writers clone.
type Obj struct {
	ID      string
	T       types.Type
	IsMap   bool
	Initial bool // missing leaves hold the entry symbol, otherwise zero
	Havoc   bool // missing leaves are unknown
	Summary bool
	F       map[string]AV
	Ents    map[string]Ent
	Rest    RestKind
	Sealed  bool
}

func (o *Obj) clone() *Obj {
	n := *o
	n.F = make(map[string]AV, len(o.F)+1)
	for k, v := range o.F {
		n.F[k] = v
	}
	if o.IsMap {
		n.Ents = make(map[string]Ent, len(o.Ents)+1)
		for k, v := range o.Ents {
			n.Ents[k] = v
		}
	}
	return &n
}

type Fact struct {
	Z  int8 // 1 zero, 2 non-zero
	Eq *Atom
}

type deferred struct {
	call *ssa.CallCommon
	site ssa.Instruction
	args []AV
	fv   AV
	id   string
}

type State struct {
	env      map[ssa.Value]AV
	heap     map[string]*Obj
	base     map[string]*Obj // shared, never written
	facts    map[string]Fact
	cnt      map[string]int
	maxFresh int // distinct objects per allocation site (default 10)
	defers   []deferred
	tags     map[string]string // typestate / fault partition
	repl     map[*Atom]*Atom   // lists that were given storage of their own
}

func newState() *State {
	return &State{env: map[ssa.Value]AV{}, heap: map[string]*Obj{}, facts: map[string]Fact{}, cnt: map[string]int{}, tags: map[string]string{}}
}

func (s *State) clone() *State {
	n := &State{
		env:      make(map[ssa.Value]AV, len(s.env)+8),
		heap:     make(map[string]*Obj, len(s.heap)+4),
		facts:    make(map[string]Fact, len(s.facts)+2),
		cnt:      make(map[string]int, len(s.cnt)+1),
		tags:     make(map[string]string, len(s.tags)),
		defers:   s.defers,
		base:     s.base,
		maxFresh: s.maxFresh,
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	for k, v := range s.tags {
		n.tags[k] = v
	}
	if len(s.repl) > 0 {
		n.repl = make(map[*Atom]*Atom, len(s.repl))
		for k, v := range s.repl {
			n.repl[k] = v
		}
	}
	return n
}

// swapAtoms replaces atoms wherever they occur in v.
func swapAtoms(v AV, m map[*Atom]*Atom) (AV, bool) {
	ch := false
	var out []*Atom
	for _, a := range v.atoms {
		if n, ok := m[a]; ok {
			out = append(out, n)
			ch = true
			continue
		}
		var args []AV
		for i, x := range a.Args {
			if y, c := swapAtoms(x, m); c {
				if args == nil {
					args = append([]AV{}, a.Args...)
				}
				args[i] = y
			}
		}
		if args != nil {
			n := *a
			n.key = ""
			n.Args = args
			a = &n
			ch = true
		}
		out = append(out, a)
	}
	if !ch {
		return v, false
	}
	return mk(out...), true
}

// own gives a list storage of its own, so that its elements can be overwritten.
func (s *State) own(a *Atom, site string, elem types.Type) *Atom {
	id, sum := s.fresh("S:own@" + site)
	at := types.NewArray(elem, int64(len(a.Args)))
	o := &Obj{ID: id, T: at, F: map[string]AV{}, Summary: sum}
	s.heap[id] = o
	for i, x := range a.Args {
		s.write(id, "["+itoa(i)+"]", elem, x, false)
	}
	n := &Atom{K: KApp, Name: "slice", Args: []AV{ptr(id, "", at), cInt(0), cInt(int64(len(a.Args)))}, T: a.T, NonNil: true}
	m := map[*Atom]*Atom{a: n}
	s.swap(m)
	if s.repl == nil {
		s.repl = map[*Atom]*Atom{}
	}
	s.repl[a] = n
	return n
}

func (s *State) swap(m map[*Atom]*Atom) {
	for k, v := range s.env {
		if y, c := swapAtoms(v, m); c {
			s.env[k] = y
		}
	}
	for id, o := range s.heap {
		var n *Obj
		for k, v := range o.F {
			if y, c := swapAtoms(v, m); c {
				if n == nil {
					n = o.clone()
				}
				n.F[k] = y
			}
		}
		for k, en := range o.Ents {
			if y, c := swapAtoms(en.Val, m); c {
				if n == nil {
					n = o.clone()
				}
				en.Val = y
				n.Ents[k] = en
			}
		}
		if n != nil {
			s.heap[id] = n
		}
	}
}

func (s *State) tagKey() string {
	if len(s.tags) == 0 {
		return ""
	}
	ks := make([]string, 0, len(s.tags))
	for k := range s.tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k + "=" + s.tags[k] + ";")
	}
	return b.String()
}

func (s *State) fresh(base string) (string, bool) {
	n := s.cnt[base]
	lim := 10
	if s.maxFresh > 0 {
		lim = s.maxFresh
	}
	if n >= lim {
		return base + "#*", true
	}
	s.cnt[base] = n + 1
	if n == 0 {
		return base, false
	}
	return base + "#" + itoa(n), false
}

func itoa(n int) string {
	return constant.MakeInt64(int64(n)).String()
}

// ---- heap access ----------------------------------------------------------------

func (s *State) get(id string) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	return s.base[id]
}

func (s *State) mut(id string) *Obj {
	o := s.get(id)
	if o == nil {
		return nil
	}
	n := o.clone()
	s.heap[id] = n
	return n
}

// derefObj gives the object a symbolic pointer points to, creating it on demand.
func (s *State) symObj(a *Atom, elem types.Type) *Obj {
	id := a.Name + "*"
	if o := s.get(id); o != nil {
		return o
	}
	o := &Obj{ID: id, T: elem, Initial: true, F: map[string]AV{}, Summary: a.Summary}
	s.heap[id] = o
	return o
}

func (s *State) symMap(a *Atom, t types.Type) *Obj {
	id := a.Name + "*"
	if o := s.get(id); o != nil {
		return o
	}
	o := &Obj{ID: id, T: t, Initial: true, IsMap: true, F: map[string]AV{}, Ents: map[string]Ent{}, Rest: RInit, Summary: a.Summary}
	s.heap[id] = o
	return o
}

func (s *State) leafDefault(o *Obj, path string, t types.Type) AV {
	if o.Havoc {
		return Top
	}
	if o.Initial {
		return mk(&Atom{K: KSym, Name: o.ID + path, T: t, Summary: o.Summary})
	}
	return zeroOf(t)
}

func (s *State) read(o *Obj, path string, t types.Type) AV {
	if st := structOf(t); st != nil {
		a := &Atom{K: KStruct, T: t}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			a.Names = append(a.Names, f.Name())
			a.Args = append(a.Args, s.read(o, path+"."+f.Name(), f.Type()))
		}
		return AV{atoms: []*Atom{a}}
	}
	if at := arrayOf(t); at != nil && at.Len() <= 64 {
		a := &Atom{K: KStruct, T: t}
		for i := int64(0); i < at.Len(); i++ {
			n := itoa(int(i))
			a.Names = append(a.Names, n)
			a.Args = append(a.Args, s.read(o, path+"["+n+"]", at.Elem()))
		}
		return AV{atoms: []*Atom{a}}
	}
	if v, ok := o.F[path]; ok {
		return s.norm(v)
	}
	return s.norm(s.leafDefault(o, path, t))
}

func project(v AV, name string, t types.Type) AV {
	if v.top {
		return Top
	}
	out := Bottom
	for _, a := range v.atoms {
		switch a.K {
		case KStruct:
			found := false
			for i, n := range a.Names {
				if n == name {
					out = union(out, a.Args[i])
					found = true
				}
			}
			if !found {
				return Top
			}
		case KSym:
			out = union(out, mk(&Atom{K: KSym, Name: a.Name + "." + name, T: t, Summary: a.Summary}))
		case KZero:
			out = union(out, zeroOf(t))
		case KApp:
			if a.Name != "sha256" {
				return Top
			}
			out = union(out, app("byteof", mk(a), cStr(name)))
		default:
			return Top
		}
	}
	return out
}

// write stores v at path. weak keeps the old value as a possibility.
func (s *State) write(id, path string, t types.Type, v AV, weak bool) {
	o := s.get(id)
	if o == nil {
		return
	}
	if o.Summary {
		weak = true
	}
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			s.write(id, path+"."+f.Name(), f.Type(), project(v, f.Name(), f.Type()), weak)
		}
		return
	}
	if at := arrayOf(t); at != nil && at.Len() <= 64 {
		for i := int64(0); i < at.Len(); i++ {
			n := itoa(int(i))
			s.write(id, path+"["+n+"]", at.Elem(), project(v, n, at.Elem()), weak)
		}
		return
	}
	old := s.read(o, path, t)
	n := s.mut(id)
	if weak {
		v = union(old, v)
	}
	n.F[path] = v
}

// ---- facts ------------------------------------------------------------------------

func exact(a *Atom) bool {
	if a.Summary {
		return false
	}
	switch a.K {
	case KSeq:
		if a.Open {
			return false
		}
		for i := range a.Args {
			if !a.Must[i] {
				return false
			}
		}
	}
	if a.K == KPtr || a.K == KMap || a.K == KFunc {
		return true
	}
	for _, x := range a.Args {
		y := x.single()
		if y == nil || !exact(y) {
			return false
		}
	}
	return true
}

// norm replaces symbols whose value is known by that value.
func (s *State) norm(v AV) AV {
	if v.top {
		return v
	}
	changed := false
	for _, a := range v.atoms {
		if a.K == KSym || a.K == KApp {
			if f, ok := s.facts[a.Key()]; ok && (f.Z == 1 || f.Eq != nil) {
				changed = true
			}
		}
	}
	if !changed {
		return v
	}
	var out []*Atom
	for _, a := range v.atoms {
		if a.K == KSym || a.K == KApp {
			f := s.facts[a.Key()]
			if f.Eq != nil {
				out = append(out, f.Eq)
				continue
			}
			if f.Z == 1 && a.T != nil {
				out = append(out, zeroOf(a.T).atoms...)
				continue
			}
		}
		out = append(out, a)
	}
	return mk(out...)
}

type Tri int8

const (
	U Tri = iota
	T
	F
)

func (t Tri) not() Tri {
	switch t {
	case T:
		return F
	case F:
		return T
	}
	return U
}

func triOf(b bool) Tri {
	if b {
		return T
	}
	return F
}

// isZero decides whether the value is the zero value of its type.
func (s *State) isZeroAtom(a *Atom) Tri {
	switch a.K {
	case KConst, KNil, KZero:
		return triOf(isZeroConst(a))
	case KPtr, KMap, KFunc, KIface, KSeq:
		return F
	case KStruct:
		res := T
		for _, f := range a.Args {
			switch s.isZero(f) {
			case F:
				return F
			case U:
				res = U
			}
		}
		return res
	case KSym, KApp:
		if a.NonNil || isGlobalErr(a) {
			return F
		}
		if f, ok := s.facts[a.Key()]; ok && !a.Summary {
			if f.Z == 1 {
				return T
			}
			if f.Z == 2 {
				return F
			}
			if f.Eq != nil {
				return triOf(isZeroConst(f.Eq))
			}
		}
		if a.K == KApp {
			switch a.Name {
			case "cat":
				for _, p := range a.Args {
					if s.isZero(p) == F {
						return F
					}
				}
			case "join":
				return U
			case "+":
				// a count plus something positive
				if nonNeg(a.Args[0]) && nonNeg(a.Args[1]) && (s.isZero(a.Args[0]) == F || s.isZero(a.Args[1]) == F) {
					return F
				}
			}
			// a defined-by-construction symbol of boolean kind
			return s.truthApp(a).not()
		}
	}
	return U
}

func (s *State) isZero(v AV) Tri {
	if v.top || len(v.atoms) == 0 {
		return U
	}
	r := s.isZeroAtom(v.atoms[0])
	for _, a := range v.atoms[1:] {
		if s.isZeroAtom(a) != r {
			return U
		}
	}
	return r
}

func pairKey(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return "ne:" + a + "|" + b
}

// keyNeverConst, when set on the engine, says which constants an arbitrary key
// symbol may be compared with and known different.
var symNotConst = map[string]func(c *Atom) bool{}
var symNotMu sync.RWMutex

func (s *State) eqAtom(a, b *Atom) Tri {
	if a.K == KSym || a.K == KApp {
		if f, ok := s.facts[a.Key()]; ok && f.Eq != nil && !a.Summary {
			a = f.Eq
		}
	}
	if b.K == KSym || b.K == KApp {
		if f, ok := s.facts[b.Key()]; ok && f.Eq != nil && !b.Summary {
			b = f.Eq
		}
	}
	if a.Key() == b.Key() && exact(a) {
		return T
	}
	if a.K == KConst && b.K == KConst {
		if a.C.Kind() == b.C.Kind() || (isNum(a) && isNum(b)) {
			return triOf(constant.Compare(a.C, 39, b.C)) // token.EQL
		}
		return F
	}
	za, zb := s.isZeroAtom(a), s.isZeroAtom(b)
	if isZeroConst(a) && a.K != KStruct {
		if a.K == KNil && b.K == KSeq {
			return F
		}
		if zb != U {
			return zb
		}
	} else if isZeroConst(b) && b.K != KStruct {
		if za != U {
			return za
		}
	}
	if (za == T && zb == F) || (za == F && zb == T) {
		return F
	}
	if za == T && zb == T {
		return T
	}
	if a.K == KIface && b.K == KIface {
		if !types.Identical(a.T, b.T) {
			return F
		}
		return s.eq(a.Args[0], b.Args[0])
	}
	if a.K == KIface && b.K != KSym && b.K != KApp {
		return s.eq(a.Args[0], mk(b))
	}
	if a.K == KStruct && b.K == KStruct && len(a.Args) == len(b.Args) {
		res := T
		for i := range a.Args {
			switch s.eq(a.Args[i], b.Args[i]) {
			case F:
				return F
			case U:
				res = U
			}
		}
		return res
	}
	if a.K == KPtr && b.K == KPtr {
		if a.Key() != b.Key() {
			if oa, ob := s.get(a.Obj), s.get(b.Obj); oa != nil && ob != nil && !oa.Summary && !ob.Summary {
				return F
			}
		}
		return U
	}
	if a.K == KMap && b.K == KMap && a.Key() != b.Key() {
		return F
	}
	if f, ok := s.facts[pairKey(a.Key(), b.Key())]; ok && f.Z == 2 {
		return F
	}
	if a.K == KSym && b.K == KConst || a.K == KConst && b.K == KSym {
		x, c := a, b
		if a.K == KConst {
			x, c = b, a
		}
		symNotMu.RLock()
		f := symNotConst[x.Name]
		symNotMu.RUnlock()
		if f != nil && f(c) {
			return F
		}
	}
	// an error variable of another package, against other variables and fresh errors
	if isGlobalErr(a) || isGlobalErr(b) {
		x, y := a, b
		if !isGlobalErr(a) {
			x, y = b, a
		}
		_ = x
		if isGlobalErr(y) || isEnvErr(y) || y.K == KApp && strings.HasPrefix(y.Name, "errorf@") {
			return F
		}
	}
	// the text of an error that is not the end of data
	if x, y := a, b; x.K == KApp && x.Name == "errtext" || y.K == KApp && y.Name == "errtext" {
		if x.K == KConst {
			x, y = y, x
		}
		if y.K == KConst && x.K == KApp && x.Name == "errtext" {
			if src := x.Args[0].single(); src != nil && (isEnvErr(src) || isGlobalErr(src) || src.NotEOF) && y.C.ExactString() == "\"EOF\"" {
				return F
			}
		}
	}
	// an arbitrary fixed key differs from any "other" key by definition
	if a.K == KSym && b.K == KSym {
		if strings.HasPrefix(a.Name, "KEY:") && strings.HasPrefix(b.Name, "OTHER:") || strings.HasPrefix(b.Name, "KEY:") && strings.HasPrefix(a.Name, "OTHER:") {
			return F
		}
		// fresh pointers handed out by distinct unmodelled calls are not assumed distinct
	}
	// fresh allocation versus entry symbol
	if (a.K == KPtr && b.K == KSym) || (b.K == KPtr && a.K == KSym) {
		p, y := a, b
		if b.K == KPtr {
			p, y = b, a
		}
		o := s.get(p.Obj)
		if o != nil && !o.Initial {
			return F
		}
		if p.Path == "" && p.Obj == y.Name+"*" && exact(y) {
			return T
		}
	}
	if (a.K == KMap && b.K == KSym) || (b.K == KMap && a.K == KSym) {
		p, y := a, b
		if b.K == KMap {
			p, y = b, a
		}
		if o := s.get(p.Obj); o != nil && !o.Initial {
			return F
		}
		if p.Obj == y.Name+"*" && exact(y) {
			return T
		}
	}
	return U
}

func isNum(a *Atom) bool {
	return a.K == KConst && (a.C.Kind() == constant.Int || a.C.Kind() == constant.Float)
}

func (s *State) eq(a, b AV) Tri {
	if a.top || b.top || a.isBottom() || b.isBottom() {
		return U
	}
	var r Tri
	first := true
	for _, x := range a.atoms {
		for _, y := range b.atoms {
			t := s.eqAtom(x, y)
			if t == U {
				return U
			}
			if first {
				r, first = t, false
			} else if t != r {
				return U
			}
		}
	}
	return r
}

// truth of a boolean value
func (s *State) truth(v AV) Tri {
	if v.top || v.isBottom() {
		return U
	}
	r := s.truthAtom(v.atoms[0])
	for _, a := range v.atoms[1:] {
		if s.truthAtom(a) != r {
			return U
		}
	}
	return r
}

func (s *State) truthAtom(a *Atom) Tri {
	switch a.K {
	case KConst:
		if a.C.Kind() == constant.Bool {
			return triOf(constant.BoolVal(a.C))
		}
	case KSym:
		return s.isZeroAtom(a).not()
	case KApp:
		if !a.Summary {
			if f, ok := s.facts[a.Key()]; ok && f.Z != 0 && exact(a) {
				return triOf(f.Z == 2)
			}
		}
		return s.truthApp(a)
	}
	return U
}

func (s *State) truthApp(a *Atom) Tri {
	switch a.Name {
	case "==":
		return s.eq(a.Args[0], a.Args[1])
	case "deepeq":
		return s.deepEq(a.Args[0], a.Args[1], 0)
	case "!":
		return s.truth(a.Args[0]).not()
	case "zero?":
		return s.isZero(a.Args[0])
	}
	return U
}

// deepEq: reflect.DeepEqual over abstract values.
func (s *State) deepEq(a, b AV, depth int) Tri {
	if t := s.eq(a, b); t == T {
		return T
	} else if t == F {
		// pointer identity inequality does not settle deep inequality
		x, y := a.single(), b.single()
		if x == nil || y == nil {
			return U
		}
		if depth < 6 && x.K == KIface && y.K == KIface && types.Identical(x.T, y.T) {
			return s.deepEq(x.Args[0], y.Args[0], depth+1)
		}
		if depth < 6 && (x.K == KPtr || x.K == KSym) && (y.K == KPtr || y.K == KSym) {
			xo, xp, xt := s.target(x)
			yo, yp, yt := s.target(y)
			if xo != nil && yo != nil && xt != nil && yt != nil {
				return s.deepEq(s.read(xo, xp, xt), s.read(yo, yp, yt), depth+1)
			}
		}
		zx, zy := s.isZeroAtom(x), s.isZeroAtom(y)
		if (zx == T && zy == F) || (zx == F && zy == T) {
			return F
		}
		if f, ok := s.facts[pairKey(x.Key(), y.Key())]; ok && f.Z == 2 {
			return F
		}
		if x.K == KConst && y.K == KConst {
			return F
		}
		return U
	}
	x, y := a.single(), b.single()
	if x != nil && y != nil && depth < 6 {
		if x.K == KIface && y.K == KIface && types.Identical(x.T, y.T) {
			return s.deepEq(x.Args[0], y.Args[0], depth+1)
		}
		if x.K == KStruct && y.K == KStruct && len(x.Args) == len(y.Args) {
			res := T
			for i := range x.Args {
				switch s.deepEq(x.Args[i], y.Args[i], depth+1) {
				case F:
					return F
				case U:
					res = U
				}
			}
			return res
		}
		if (x.K == KPtr || x.K == KSym) && (y.K == KPtr || y.K == KSym) {
			xo, xp, xt := s.target(x)
			yo, yp, yt := s.target(y)
			if xo != nil && yo != nil && xt != nil && yt != nil && structOf(xt) != nil && structOf(yt) != nil {
				return s.deepEq(s.read(xo, xp, xt), s.read(yo, yp, yt), depth+1)
			}
		}
	}
	return U
}

// target resolves a pointer atom to its object.
func (s *State) target(a *Atom) (*Obj, string, types.Type) {
	switch a.K {
	case KPtr:
		return s.get(a.Obj), a.Path, a.T
	case KSym:
		if p, ok := ptrElem(a.T); ok {
			return s.symObj(a, p), "", p
		}
	}
	return nil, "", nil
}

func ptrElem(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func (s *State) setZero(a *Atom, zero bool) bool {
	if a.Summary {
		return true
	}
	switch s.isZeroAtom(a) {
	case T:
		return zero
	case F:
		return !zero
	}
	if a.K != KSym && a.K != KApp {
		return true
	}
	if a.K == KApp && !exact(a) {
		return true
	}
	z := int8(2)
	if zero {
		z = 1
	}
	f := s.facts[a.Key()]
	f.Z = z
	s.facts[a.Key()] = f
	return true
}

// refine assumes cond has the given truth; false result = infeasible.
func (s *State) refine(cond AV, truth bool) bool {
	if cond.top {
		return true
	}
	var poss []*Atom
	for _, a := range cond.atoms {
		t := s.truthAtom(a)
		if t == U || (t == T) == truth {
			poss = append(poss, a)
		}
	}
	if len(poss) == 0 {
		return false
	}
	if len(poss) > 1 {
		return true
	}
	a := poss[0]
	switch a.K {
	case KConst:
		return true
	case KSym:
		return s.setZero(a, !truth)
	case KApp:
		switch a.Name {
		case "!":
			return s.refine(a.Args[0], !truth)
		case "zero?":
			if x := a.Args[0].single(); x != nil {
				return s.setZero(x, truth)
			}
		case "==", "deepeq":
			x, y := a.Args[0].single(), a.Args[1].single()
			if x != nil && y != nil {
				if isZeroConst(x) {
					x, y = y, x
				}
				if isZeroConst(y) && y.K != KStruct {
					// len(x)==0 for strings is x==""
					return s.setZero(x, truth)
				}
				if truth {
					if y.K == KConst && (x.K == KSym || x.K == KApp) && exact(x) {
						f := s.facts[x.Key()]
						f.Eq = y
						f.Z = 2
						s.facts[x.Key()] = f
					} else if x.K == KConst && (y.K == KSym || y.K == KApp) && exact(y) {
						f := s.facts[y.Key()]
						f.Eq = x
						f.Z = 2
						s.facts[y.Key()] = f
					} else if y.NonNil && x.K == KSym && exact(x) {
						s.setZero(x, false)
					}
				} else if exact(x) && exact(y) {
					s.facts[pairKey(x.Key(), y.Key())] = Fact{Z: 2}
				}
			}
		}
		if exact(a) {
			z := int8(1)
			if truth {
				z = 2
			}
			s.facts[a.Key()] = Fact{Z: z}
		}
	}
	return true
}

// ---- join ---------------------------------------------------------------------------

// joinInto merges src into dst, reporting whether dst changed.
func joinInto(dst, src *State) bool {
	ch := false
	for k, v := range src.env {
		if o, ok := dst.env[k]; ok {
			n := union(o, v)
			if !sameAV(n, o) {
				dst.env[k] = n
				ch = true
			}
		} else {
			dst.env[k] = v
			ch = true
		}
	}
	for id, so := range src.heap {
		do := dst.get(id)
		if do == nil {
			if so.Initial && !so.Havoc {
				// absent on the other side = untouched
				n, c := joinObj(src, &Obj{ID: id, T: so.T, IsMap: so.IsMap, Initial: true, Summary: so.Summary, F: map[string]AV{}, Ents: map[string]Ent{}, Rest: initRest(so)}, dst, so)
				dst.heap[id] = n
				ch = ch || c
			} else {
				dst.heap[id] = so
				ch = true
			}
			continue
		}
		if do == so {
			continue
		}
		n, c := joinObj(src, do, dst, so)
		if c {
			dst.heap[id] = n
			ch = true
		}
	}
	for id, do := range dst.heap {
		if _, ok := src.heap[id]; !ok {
			if so := src.base[id]; so != nil {
				if n, c := joinObj(src, do, dst, so); c {
					dst.heap[id] = n
					ch = true
				}
				continue
			}
		}
		if src.get(id) == nil && do.Initial && !do.Havoc {
			n, c := joinObj(src, do, dst, &Obj{ID: id, T: do.T, IsMap: do.IsMap, Initial: true, Summary: do.Summary, F: map[string]AV{}, Ents: map[string]Ent{}, Rest: initRest(do)})
			if c {
				dst.heap[id] = n
				ch = true
			}
		}
	}
	for k, f := range dst.facts {
		g, ok := src.facts[k]
		if !ok || g.Z != f.Z || (g.Eq == nil) != (f.Eq == nil) || (g.Eq != nil && g.Eq.Key() != f.Eq.Key()) {
			if ok && g.Z == f.Z && f.Z != 0 {
				if f.Eq != nil {
					dst.facts[k] = Fact{Z: f.Z}
					ch = true
				}
				continue
			}
			delete(dst.facts, k)
			ch = true
		}
	}
	for k, n := range src.cnt {
		if dst.cnt[k] < n {
			dst.cnt[k] = n
			ch = true
		}
	}
	for k, v := range src.repl {
		if _, ok := dst.repl[k]; !ok {
			if dst.repl == nil {
				dst.repl = map[*Atom]*Atom{}
			}
			dst.repl[k] = v
		}
	}
	return ch
}

func initRest(o *Obj) RestKind {
	if o.IsMap {
		return RInit
	}
	return RNone
}

func joinObj(srcSt *State, d *Obj, dstSt *State, s *Obj) (*Obj, bool) {
	ch := false
	var n *Obj
	w := func() *Obj {
		if n == nil {
			n = d.clone()
		}
		return n
	}
	if s.Havoc && !d.Havoc {
		w().Havoc = true
		ch = true
	}
	if s.Summary && !d.Summary {
		w().Summary = true
		ch = true
	}
	keys := map[string]bool{}
	for k := range d.F {
		keys[k] = true
	}
	for k := range s.F {
		keys[k] = true
	}
	for k := range keys {
		dv, dok := d.F[k]
		sv, sok := s.F[k]
		if !dok {
			dv = leafDef(d, k, sv)
		}
		if !sok {
			sv = leafDef(s, k, dv)
		}
		u := union(dv, sv)
		if !dok || !sameAV(u, dv) {
			w().F[k] = u
			ch = true
		}
	}
	if d.IsMap {
		ks := map[string]bool{}
		for k := range d.Ents {
			ks[k] = true
		}
		for k := range s.Ents {
			ks[k] = true
		}
		for k := range ks {
			de, dok := d.Ents[k]
			se, sok := s.Ents[k]
			if !dok {
				de = entDef(d, se.Key)
			}
			if !sok {
				se = entDef(s, de.Key)
			}
			e := Ent{Key: de.Key, Val: unionEnt(de, se), P: de.P}
			if de.P != se.P {
				e.P = PMay
			}
			if !dok || e.P != de.P || !sameAV(e.Val, de.Val) {
				w().Ents[k] = e
				ch = true
			}
		}
		if s.Rest != d.Rest {
			r := s.Rest
			if d.Rest > r {
				r = d.Rest
			}
			if s.Rest == RInit && d.Rest == RNone || s.Rest == RNone && d.Rest == RInit {
				r = RTop
			}
			if r != d.Rest {
				w().Rest = r
				ch = true
			}
		}
	}
	if !ch {
		return d, false
	}
	return n, true
}

func unionEnt(a, b Ent) AV {
	if a.P == PAbsent {
		return b.Val
	}
	if b.P == PAbsent {
		return a.Val
	}
	return union(a.Val, b.Val)
}

func mapElemT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

func entDef(o *Obj, key AV) Ent {
	switch {
	case o.Havoc || o.Rest == RTop:
		return Ent{Key: key, Val: Top, P: PMay}
	case o.Rest == RInit:
		return Ent{Key: key, Val: mk(&Atom{K: KSym, Name: o.ID + "[" + key.Key() + "]", T: mapElemT(o.T), Summary: o.Summary}), P: PInit}
	}
	return Ent{Key: key, P: PAbsent}
}

// leafDef: value of a leaf absent from an object, using the other side's value
// to learn its type when it must be a zero value.
func leafDef(o *Obj, path string, other AV) AV {
	if o.Havoc {
		return Top
	}
	t := pathType(o.T, path)
	if o.Initial {
		return mk(&Atom{K: KSym, Name: o.ID + path, T: t, Summary: o.Summary})
	}
	if t != nil {
		return zeroOf(t)
	}
	return Top
}

// pathType walks an access path (.Field / [n]) from a type.
func pathType(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		if path[0] == '.' {
			j := 1
			for j < len(path) && path[j] != '.' && path[j] != '[' {
				j++
			}
			name := path[1:j]
			st, _ := t.Underlying().(*types.Struct)
			t = nil
			if st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == name {
						t = st.Field(i).Type()
					}
				}
			}
			path = path[j:]
		} else {
			j := strings.IndexByte(path, ']')
			if j < 0 {
				return nil
			}
			at, _ := t.Underlying().(*types.Array)
			if at == nil {
				return nil
			}
			t = at.Elem()
			path = path[j+1:]
		}
	}
	return t
}

// nonNeg: a length, a non-negative constant, or a sum of these.
func nonNeg(v AV) bool {
	a := v.single()
	if a == nil {
		return false
	}
	switch {
	case a.K == KConst:
		return isNum(a) && constant.Sign(a.C) >= 0
	case a.K == KSym:
		return strings.HasPrefix(a.Name, "len:")
	case a.K == KApp && a.Name == "len":
		return true
	case a.K == KApp && a.Name == "+":
		return nonNeg(a.Args[0]) && nonNeg(a.Args[1])
	}
	return false
}
