package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- abstract values --------------------------------------------------------
//
// An abstract value is either Top (anything) or a small set of atoms; the
// concrete value is described by one of them. Atoms name where a value comes
// from, so that "this field ends up holding the value that field held on entry"
// is decided by comparing atoms.

type AK int

const (
	KConst  AK = iota // a compile-time constant
	KNil              // nil pointer, map, slice, func, interface
	KZero             // zero value of an opaque aggregate (time.Time and the like)
	KSym              // an unknown but fixed value (an input, the result of an unmodelled call)
	KPtr              // address of a location: object + access path
	KMap              // reference to a map object
	KSeq              // a slice with known contents (items definitely or possibly present)
	KStruct           // a struct value, by field
	KIface            // an interface holding a value of a known dynamic type
	KFunc             // a function value or closure
	KApp              // a pure operation applied to values
	KTuple            // multiple results
	KMark             // range iterator
)

type Atom struct {
	K       AK
	Name    string // Sym: name; App: operation
	C       constant.Value
	T       types.Type
	Obj     string
	Path    string
	Args    []AV
	Names   []string
	Must    []bool // Seq
	Open    bool   // Seq: further unknown items possible anywhere
	Fn      *ssa.Function
	Summary bool // Sym standing for many values (an arbitrary "other" key)
	NonNil  bool // Sym/App known not to be nil/zero by construction
	Wrap    []AV // errorf@: the errors it wraps
	NotEOF  bool // errorf@: its text is certainly not "EOF"
	key     string
}

func (a *Atom) Key() string {
	if a.key == "" {
		a.key = a.mkKey()
	}
	return a.key
}

func (a *Atom) mkKey() string {
	switch a.K {
	case KConst:
		return "c:" + a.C.ExactString()
	case KNil:
		return "nil"
	case KZero:
		return "zero"
	case KSym:
		return "$" + a.Name
	case KPtr:
		return "&" + a.Obj + a.Path
	case KMap:
		return "map:" + a.Obj
	case KFunc:
		s := "fn:" + a.Fn.String()
		for _, x := range a.Args {
			s += "|" + x.Key()
		}
		return s
	case KSeq:
		var b strings.Builder
		b.WriteString("seq[")
		for i, x := range a.Args {
			if !a.Must[i] {
				b.WriteString("?")
			}
			b.WriteString(x.Key())
			b.WriteString(",")
		}
		if a.Open {
			b.WriteString("...")
		}
		b.WriteString("]")
		return b.String()
	case KStruct:
		var b strings.Builder
		b.WriteString("{")
		for i, x := range a.Args {
			b.WriteString(a.Names[i] + ":" + x.Key() + ",")
		}
		b.WriteString("}")
		return b.String()
	case KIface:
		return "i(" + typeKey(a.T) + ":" + a.Args[0].Key() + ")"
	case KMark:
		return "it:" + a.Obj
	case KApp, KTuple:
		var b strings.Builder
		b.WriteString(a.Name + "(")
		for i, x := range a.Args {
			if i > 0 {
				b.WriteString(",")
			}
			if a.Names != nil {
				b.WriteString(a.Names[i] + ":")
			}
			if a.Must != nil && !a.Must[i] {
				b.WriteString("?")
			}
			b.WriteString(x.Key())
		}
		if a.Open {
			b.WriteString("...")
		}
		b.WriteString(")")
		return b.String()
	}
	return "?"
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return shortStr(types.TypeString(t, nil))
}

type AV struct {
	top   bool
	atoms []*Atom
}

var Top = AV{top: true}
var Bottom = AV{}

const maxAtoms = 14
const maxKey = 6000

func (v AV) Key() string {
	if v.top {
		return "T"
	}
	if len(v.atoms) == 1 {
		return v.atoms[0].Key()
	}
	ks := make([]string, len(v.atoms))
	for i, a := range v.atoms {
		ks[i] = a.Key()
	}
	return "{" + strings.Join(ks, "|") + "}"
}

func (v AV) String() string { return v.Key() }

func (v AV) isBottom() bool { return !v.top && len(v.atoms) == 0 }

func (v AV) single() *Atom {
	if !v.top && len(v.atoms) == 1 {
		return v.atoms[0]
	}
	return nil
}

func mk(as ...*Atom) AV {
	if len(as) == 1 {
		if len(as[0].Key()) > maxKey {
			return Top
		}
		return AV{atoms: as}
	}
	m := map[string]*Atom{}
	for _, a := range as {
		m[a.Key()] = a
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]*Atom, 0, len(ks))
	n := 0
	for _, k := range ks {
		n += len(k)
		out = append(out, m[k])
	}
	if n > maxKey || len(out) > maxAtoms {
		if less := collapse(out); len(less) < len(out) {
			return mk(less...)
		}
		return Top
	}
	return AV{atoms: out}
}

// collapse replaces errors made at many places or in many rounds by one that
// stands for all of them.
func collapse(as []*Atom) []*Atom {
	var made, env *Atom
	var out []*Atom
	n, m := 0, 0
	for _, a := range as {
		switch {
		case a.K == KApp && a.NonNil && strings.HasPrefix(a.Name, "errorf@"):
			n++
			if made == nil {
				made = &Atom{K: KApp, Name: "errorf@many", T: a.T, NonNil: true, Summary: true, NotEOF: true}
			}
			made.NotEOF = made.NotEOF && a.NotEOF
		case isEnvErr(a) && a.NonNil:
			m++
			if env == nil {
				env = &Atom{K: KSym, Name: "fault@many", T: a.T, NonNil: true, Summary: true}
			}
		default:
			out = append(out, a)
		}
	}
	if n+m < 3 {
		return as
	}
	if made != nil {
		if made.NotEOF {
			made.Name += "!"
		}
		out = append(out, made)
	}
	if env != nil {
		out = append(out, env)
	}
	return out
}

func sameAV(a, b AV) bool {
	if a.top || b.top {
		return a.top == b.top
	}
	if len(a.atoms) != len(b.atoms) {
		return false
	}
	for i, x := range a.atoms {
		if x != b.atoms[i] && x.Key() != b.atoms[i].Key() {
			return false
		}
	}
	return true
}

func union(a, b AV) AV {
	if a.top || b.top {
		return Top
	}
	if len(a.atoms) == 0 {
		return b
	}
	if len(b.atoms) == 0 {
		return a
	}
	if sameAV(a, b) {
		return a
	}
	// sequences are merged item-wise, everything else is a set
	var seqs []*Atom
	var rest []*Atom
	for _, x := range append(append([]*Atom{}, a.atoms...), b.atoms...) {
		if x.K == KSeq {
			seqs = append(seqs, x)
		} else {
			rest = append(rest, x)
		}
	}
	if len(seqs) > 1 {
		s := seqs[0]
		for _, t := range seqs[1:] {
			s = mergeSeq(s, t)
		}
		seqs = []*Atom{s}
	}
	return mk(append(rest, seqs...)...)
}

// mergeSeq joins two sequences along their longest common subsequence; what is
// not common becomes "possibly present".
func mergeSeq(a, b *Atom) *Atom {
	if a.Key() == b.Key() {
		return a
	}
	n, m := len(a.Args), len(b.Args)
	lcs := make([][]int, n+1)
	for i := range lcs {
		lcs[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if a.Args[i].Key() == b.Args[j].Key() {
				lcs[i][j] = lcs[i+1][j+1] + 1
			} else if lcs[i+1][j] >= lcs[i][j+1] {
				lcs[i][j] = lcs[i+1][j]
			} else {
				lcs[i][j] = lcs[i][j+1]
			}
		}
	}
	out := &Atom{K: KSeq, T: a.T, Open: a.Open || b.Open}
	i, j := 0, 0
	add := func(v AV, must bool) {
		out.Args = append(out.Args, v)
		out.Must = append(out.Must, must)
	}
	for i < n && j < m {
		if a.Args[i].Key() == b.Args[j].Key() {
			add(a.Args[i], a.Must[i] && b.Must[j])
			i++
			j++
		} else if lcs[i+1][j] >= lcs[i][j+1] {
			add(a.Args[i], false)
			i++
		} else {
			add(b.Args[j], false)
			j++
		}
	}
	for ; i < n; i++ {
		add(a.Args[i], false)
	}
	for ; j < m; j++ {
		add(b.Args[j], false)
	}
	if len(out.Args) > 60 {
		return &Atom{K: KSeq, T: a.T, Open: true}
	}
	return out
}

// ---- constructors -----------------------------------------------------------

func cStr(s string) AV { return mk(&Atom{K: KConst, C: constant.MakeString(s)}) }
func cInt(i int64) AV  { return mk(&Atom{K: KConst, C: constant.MakeInt64(i)}) }
func cBool(b bool) AV  { return mk(&Atom{K: KConst, C: constant.MakeBool(b)}) }
func vNil() AV         { return mk(&Atom{K: KNil}) }
func sym(name string, t types.Type) AV {
	return mk(&Atom{K: KSym, Name: name, T: t})
}
func symNN(name string, t types.Type) AV {
	return mk(&Atom{K: KSym, Name: name, T: t, NonNil: true})
}
func ptr(obj, path string, t types.Type) AV {
	return mk(&Atom{K: KPtr, Obj: obj, Path: path, T: t})
}
func app(op string, args ...AV) AV {
	return mk(&Atom{K: KApp, Name: op, Args: args})
}
func appNN(op string, args ...AV) AV {
	return mk(&Atom{K: KApp, Name: op, Args: args, NonNil: true})
}
func seqOf(t types.Type, items ...AV) AV {
	m := make([]bool, len(items))
	for i := range m {
		m[i] = true
	}
	return mk(&Atom{K: KSeq, T: t, Args: items, Must: m})
}
func iface(t types.Type, v AV) AV {
	return mk(&Atom{K: KIface, T: t, Args: []AV{v}})
}
func tuple(vs ...AV) AV {
	return AV{atoms: []*Atom{{K: KTuple, Name: "tuple", Args: vs}}}
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	s, isS := n.Underlying().(*types.Struct)
	path := n.Obj().Pkg().Path()
	return isS && !strings.HasPrefix(path, modPath) && !plainStruct(s)
}

// plainStruct: options: only texts, numbers and truth values, all of them public.
func plainStruct(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		b, ok := s.Field(i).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() == types.UnsafePointer || !s.Field(i).Exported() {
			return false
		}
	}
	return s.NumFields() > 0
}

func structOf(t types.Type) *types.Struct {
	if t == nil || isOpaqueStruct(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func arrayOf(t types.Type) *types.Array {
	if t == nil {
		return nil
	}
	a, _ := t.Underlying().(*types.Array)
	return a
}

func zeroOf(t types.Type) AV {
	if isOpaqueStruct(t) {
		return mk(&Atom{K: KZero, T: t})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return cStr("")
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsFloat != 0:
			return mk(&Atom{K: KConst, C: constant.MakeInt64(0)})
		case u.Info()&types.IsNumeric != 0:
			return cInt(0)
		}
		return vNil()
	case *types.Struct:
		a := &Atom{K: KStruct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			a.Names = append(a.Names, u.Field(i).Name())
			a.Args = append(a.Args, zeroOf(u.Field(i).Type()))
		}
		return AV{atoms: []*Atom{a}}
	case *types.Array:
		if u.Len() <= 64 {
			a := &Atom{K: KStruct, T: t}
			for i := int64(0); i < u.Len(); i++ {
				a.Names = append(a.Names, fmt.Sprint(i))
				a.Args = append(a.Args, zeroOf(u.Elem()))
			}
			return AV{atoms: []*Atom{a}}
		}
		return mk(&Atom{K: KZero, T: t})
	case *types.Tuple:
		vs := []AV{}
		for i := 0; i < u.Len(); i++ {
			vs = append(vs, zeroOf(u.At(i).Type()))
		}
		return tuple(vs...)
	}
	return vNil()
}

func isZeroConst(a *Atom) bool {
	switch a.K {
	case KNil, KZero:
		return true
	case KConst:
		switch a.C.Kind() {
		case constant.String:
			return constant.StringVal(a.C) == ""
		case constant.Bool:
			return !constant.BoolVal(a.C)
		case constant.Int, constant.Float:
			return constant.Sign(a.C) == 0
		}
	case KStruct:
		for _, f := range a.Args {
			s := f.single()
			if s == nil || !isZeroConst(s) {
				return false
			}
		}
		return true
	}
	return false
}

func constOf(c *ssa.Const) AV {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	v := c.Value
	// normalise numeric representation
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			v = iv
		}
	}
	return mk(&Atom{K: KConst, C: v})
}

func strConst(v AV) (string, bool) {
	a := v.single()
	if a == nil || a.K != KConst || a.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(a.C), true
}

func intConst(v AV) (int64, bool) {
	a := v.single()
	if a == nil || a.K != KConst {
		return 0, false
	}
	c := constant.ToInt(a.C)
	if c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c)
}

func boolConst(v AV) (bool, bool) {
	a := v.single()
	if a == nil || a.K != KConst || a.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(a.C), true
}

// cat concatenates string values, flattening nested concatenations and folding
// adjacent constants.
func cat(vs ...AV) AV {
	var parts []AV
	for _, v := range vs {
		if v.top {
			return Top
		}
		if a := v.single(); a != nil && a.K == KApp && a.Name == "cat" {
			parts = append(parts, a.Args...)
			continue
		}
		if s, ok := strConst(v); ok && s == "" {
			continue
		}
		parts = append(parts, v)
	}
	var out []AV
	for _, p := range parts {
		if s, ok := strConst(p); ok && len(out) > 0 {
			if t, ok2 := strConst(out[len(out)-1]); ok2 {
				out[len(out)-1] = cStr(t + s)
				continue
			}
		}
		// adjacent parts of the same text
		if len(out) > 0 {
			x, y := out[len(out)-1].single(), p.single()
			if x != nil && y != nil && x.K == KApp && y.K == KApp && x.Name == "substr" && y.Name == "substr" && sameAV(x.Args[0], y.Args[0]) && sameAV(x.Args[2], y.Args[1]) {
				lo, okL := intConst(x.Args[1])
				end, okE := strConst(y.Args[2])
				if okL && okE && lo == 0 && end == "end" {
					out[len(out)-1] = x.Args[0]
				} else {
					out[len(out)-1] = app("substr", x.Args[0], x.Args[1], y.Args[2])
				}
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return cStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) > 80 {
		return Top
	}
	return app("cat", out...)
}

var _ = token.EQL
