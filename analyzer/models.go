package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models give the meaning of calls whose bodies are outside the repository.
type Model func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, args []AV) ([]Outcome, bool)

var models map[string]Model

func ret(st *State, vs ...AV) ([]Outcome, bool) { return []Outcome{{st: st, res: vs}}, true }

func init() {
	models = map[string]Model{
		"fmt.Sprintf":  mSprintf,
		"fmt.Sprint":   mSprint,
		"fmt.Errorf":   mErrorf,
		"errors.New":   mErrorf,
		"fmt.Fprintf":  mFprintf,
		"fmt.Fprint":   mFprint,
		"strings.Join": mJoin,
		"reflect.DeepEqual": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			switch st.deepEq(a[0], a[1], 0) {
			case T:
				return ret(st, cBool(true))
			case F:
				return ret(st, cBool(false))
			}
			if a[0].top || a[1].top {
				return ret(st, Top)
			}
			return ret(st, app("deepeq", a[0], a[1]))
		},
		"(time.Time).IsZero": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			switch st.isZero(a[0]) {
			case T:
				return ret(st, cBool(true))
			case F:
				return ret(st, cBool(false))
			}
			if a[0].top {
				return ret(st, Top)
			}
			return ret(st, app("zero?", a[0]))
		},
		"(time.Time).Equal": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return ret(st, e.binopEq(st, a[0], a[1]))
		},
		"encoding/json.Marshal":       mMarshal,
		"encoding/json.MarshalIndent": mMarshal,
		"encoding/json.Unmarshal":     mUnmarshal,
		"io/ioutil.ReadAll":           mReadAll,
		"io.ReadAll":                  mReadAll,
		"github.com/qri-io/qfs.NewMemfileBytes": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			if a[0].top || a[1].top {
				return nil, false
			}
			v := appNN("memfile", a[0], a[1])
			return ret(st, v)
		},
		"invoke:github.com/qri-io/qfs.PathResolver.Get": mResolve,
		"sort.Strings":                   mSort,
		"(sort.StringSlice).Sort":        mSort,
		"slices.Sort":                    mSort,
		"sort.Slice":                     mSort,
		"sort.SliceStable":               mSort,
		"sort.Sort":                      mSort,
		"sort.Stable":                    mSort,
		"(*strings.Builder).WriteString": mBufWrite,
		"(*strings.Builder).Write":       mBufWrite,
		"(*bytes.Buffer).WriteString":    mBufWrite,
		"(*bytes.Buffer).Write":          mBufWrite,
		"(*strings.Builder).WriteByte":   mBufWriteByte,
		"(*strings.Builder).WriteRune":   mBufWriteByte,
		"(*bytes.Buffer).WriteByte":      mBufWriteByte,
		"(*bytes.Buffer).WriteRune":      mBufWriteByte,
		"(*strings.Builder).String":      mBufGet,
		"(*bytes.Buffer).String":         mBufGet,
		"(*bytes.Buffer).Bytes":          mBufGet,
		"(*strings.Builder).Len":         mBufLen,
		"(*bytes.Buffer).Len":            mBufLen,
		"(*strings.Builder).Grow":        mNop,
		"(*bytes.Buffer).Grow":           mNop,
		"encoding/json.NewEncoder": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			if a[0].top {
				return nil, false
			}
			return ret(st, appNN("jsonenc", a[0]))
		},
		"(*encoding/json.Encoder).SetEscapeHTML": mNop,
		"(*encoding/json.Encoder).SetIndent":     mNop,
		"(*encoding/json.Encoder).Encode":        mEncode,
	}
	num := func(v AV) (constant.Value, bool) {
		a := v.single()
		if a == nil || a.K != KConst || !isNum(a) {
			return nil, false
		}
		return a.C, true
	}
	for name, f := range map[string]func(x, y float64) float64{"math.Abs": func(x, _ float64) float64 { return math.Abs(x) }, "math.Copysign": math.Copysign, "math.Sqrt": func(x, _ float64) float64 { return math.Sqrt(x) }} {
		models[name] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			var l [2]float64
			for i, v := range a {
				x, ok := num(v)
				if !ok || !e.arrays {
					return nil, false
				}
				l[i], _ = constant.Float64Val(constant.ToFloat(x))
			}
			return ret(st, foldFloat(constant.MakeFloat64(f(l[0], l[1])), types.Typ[types.Float64]))
		}
	}
	models["sort.Search"] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		n, ok := intConst(a[0])
		f := a[1].single()
		if !ok || n > 64 || f == nil || f.K != KFunc || f.Fn == nil {
			return nil, false
		}
		lo, hi := int64(0), n
		for lo < hi {
			h := (lo + hi) / 2
			outs := e.callFn(fr, st, f.Fn, c, site, f.Args, []AV{cInt(h)})
			if len(outs) != 1 || len(outs[0].res) != 1 {
				return nil, false
			}
			b, ok := boolConst(outs[0].st.norm(outs[0].res[0]))
			if !ok {
				return nil, false
			}
			if st = outs[0].st; b {
				hi = h
			} else {
				lo = h + 1
			}
		}
		return ret(st, cInt(lo))
	}
	models["math.Inf"] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		n, ok := intConst(a[0])
		if !ok {
			return nil, false
		}
		if n >= 0 {
			n = 1
		}
		return ret(st, mk(&Atom{K: KConst, C: infinity(int(n))}))
	}
	models["math.IsNaN"] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		if _, ok := num(a[0]); !ok {
			return nil, false
		}
		return ret(st, cBool(false))
	}
	models["math.IsInf"] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		x, ok := num(a[0])
		n, ok2 := intConst(a[1])
		if !ok || !ok2 {
			return nil, false
		}
		return ret(st, cBool(isInf(x) && (n == 0 || (n > 0) == (constant.Sign(x) > 0))))
	}
	for _, name := range []string{"math.Max", "math.Min"} {
		models[name] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			x, ok1 := num(a[0])
			y, ok2 := num(a[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			return ret(st, a[map[bool]int{true: 0, false: 1}[constant.Compare(x, token.GEQ, y) == (name == "math.Max")]])
		}
	}
	itoaM := func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		if len(a) == 2 {
			if b, ok := intConst(a[1]); !ok || b != 10 {
				return nil, false
			}
		}
		if n, ok := intConst(a[0]); ok {
			return ret(st, cStr(fmt.Sprint(n)))
		}
		return nil, false
	}
	models["strconv.Itoa"] = itoaM
	models["strconv.FormatInt"] = itoaM
	models["strconv.FormatBool"] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		if b, ok := boolConst(a[0]); ok {
			return ret(st, cStr(fmt.Sprint(b)))
		}
		return nil, false
	}
	// deterministic string functions: folded on constants, otherwise named
	for n, f := range map[string]func(a []string) (string, bool){
		"strings.TrimSpace":  func(a []string) (string, bool) { return strings.TrimSpace(a[0]), true },
		"strings.ToLower":    func(a []string) (string, bool) { return strings.ToLower(a[0]), true },
		"strings.Title":      func(a []string) (string, bool) { return strings.Title(a[0]), true },
		"strings.ToUpper":    func(a []string) (string, bool) { return strings.ToUpper(a[0]), true },
		"strings.TrimPrefix": func(a []string) (string, bool) { return strings.TrimPrefix(a[0], a[1]), true },
		"strings.TrimSuffix": func(a []string) (string, bool) { return strings.TrimSuffix(a[0], a[1]), true },
		"strings.TrimLeft":   func(a []string) (string, bool) { return strings.TrimLeft(a[0], a[1]), true },
		"strings.Trim":       func(a []string) (string, bool) { return strings.Trim(a[0], a[1]), true },
		"path/filepath.Ext": func(a []string) (string, bool) {
			i := strings.LastIndexByte(a[0], '.')
			if i < 0 {
				return "", true
			}
			return a[0][i:], true
		},
	} {
		name, f := n, f
		models[name] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			ss := make([]string, len(a))
			for i, x := range a {
				s, ok := strConst(x)
				if !ok {
					return nil, false
				}
				ss[i] = s
			}
			r, ok := f(ss)
			if !ok {
				return nil, false
			}
			return ret(st, cStr(r))
		}
	}
	for n, f := range map[string]func(a, b string) bool{
		"strings.HasPrefix": strings.HasPrefix,
		"strings.HasSuffix": strings.HasSuffix,
		"strings.Contains":  strings.Contains,
		"strings.EqualFold": strings.EqualFold,
	} {
		f := f
		models[n] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			x, ok1 := strConst(a[0])
			y, ok2 := strConst(a[1])
			if ok1 && ok2 {
				return ret(st, cBool(f(x, y)))
			}
			return nil, false
		}
	}
}

func mNop(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	var res []AV
	for range resultTypes(c) {
		res = append(res, Top)
	}
	return ret(st, res...)
}

func (e *Engine) binopEq(st *State, x, y AV) AV {
	switch st.eq(x, y) {
	case T:
		return cBool(true)
	case F:
		return cBool(false)
	}
	if x.top || y.top {
		return Top
	}
	return app("==", x, y)
}

// pureResult names the result of a deterministic function by its arguments.
func (e *Engine) pureResult(name string, c *ssa.CallCommon, args []AV) ([]AV, bool) {
	for _, a := range args {
		if a.top {
			return nil, false
		}
	}
	var res []AV
	ts := resultTypes(c)
	for i, t := range ts {
		op := name
		if len(ts) > 1 {
			op = fmt.Sprintf("%s#%d", name, i)
		}
		res = append(res, mk(&Atom{K: KApp, Name: op, Args: args, T: t}))
	}
	return res, true
}

// ---- text ---------------------------------------------------------------------------

// fmtArg renders one formatted operand.
func (e *Engine) fmtArg(fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, verb byte, v AV) AV {
	a := v.single()
	if a == nil {
		if v.top {
			return Top
		}
		out := Bottom
		for _, x := range v.atoms {
			out = union(out, e.fmtArg(fr, st, c, site, verb, mk(x)))
		}
		return out
	}
	if a.K == KIface && (verb == 's' || verb == 'v' || verb == 'd') {
		x := a.Args[0]
		for _, mn := range []string{"Error", "String"} {
			sel := e.p.SSA.MethodSets.MethodSet(a.T).Lookup(nil, mn)
			if sel == nil || verb == 'd' {
				continue
			}
			fn := e.p.SSA.MethodValue(sel)
			if fn != nil && e.p.inRepo(fn) && fn.Signature.Params().Len() == 0 && len(e.stack) < e.maxDepth {
				exits := e.run(fn, []AV{x}, nil, st.clone(), e.internCtx(fr.ctx+">fmt"+e.site(fr, site)))
				out := Bottom
				for _, ex := range exits {
					if !ex.panic && len(ex.res) == 1 {
						out = union(out, ex.res[0])
					}
				}
				if !out.isBottom() {
					return out
				}
			}
			return app("fmt:"+mn, x)
		}
		if isStringy(a.T) && verb != 'd' {
			return e.bytesVal(st, x)
		}
		if b, ok := a.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := intConst(x); ok {
				return cStr(fmt.Sprint(n))
			}
			return app("fmt:int", x)
		}
		return app("fmt:"+string(verb), x)
	}
	return app("fmt:"+string(verb), v)
}

func (e *Engine) format(fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, f string, items []AV) AV {
	var parts []AV
	lit := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return Top
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		parts = append(parts, cStr(lit))
		lit = ""
		if k >= len(items) {
			return Top
		}
		if j > i+1 {
			parts = append(parts, app("fmt:"+f[i:j+1], items[k]))
		} else {
			parts = append(parts, e.fmtArg(fr, st, c, site, f[j], items[k]))
		}
		k++
		i = j
	}
	parts = append(parts, cStr(lit))
	return cat(parts...)
}

func (e *Engine) variadic(st *State, v AV) ([]AV, bool) {
	s := e.asSeq(st, v)
	if s == nil || s.Open {
		return nil, false
	}
	for _, m := range s.Must {
		if !m {
			return nil, false
		}
	}
	return s.Args, true
}

func mSprintf(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	f, ok := strConst(a[0])
	items, ok2 := e.variadic(st, a[1])
	if !ok || !ok2 {
		return ret(st, Top)
	}
	return ret(st, e.format(fr, st, c, site, f, items))
}

func mSprint(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	items, ok2 := e.variadic(st, a[0])
	if !ok2 || len(items) != 1 {
		return ret(st, Top)
	}
	return ret(st, e.fmtArg(fr, st, c, site, 'v', items[0]))
}

// verbs are the verbs of a format without explicit argument numbers.
func verbs(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}

// literalBeyond: text made from this format is certainly not the given text,
// because the format's own letters are not all in it.
func literalBeyond(format, text string) bool {
	for i := 0; i < len(format); i++ {
		if format[i] == '%' {
			for i++; i < len(format) && !('a' <= format[i] && format[i] <= 'z' || 'A' <= format[i] && format[i] <= 'Z' || format[i] == '%'); i++ {
			}
			continue
		}
		if !strings.Contains(text, format[i:i+1]) {
			return true
		}
	}
	return false
}

func mErrorf(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	var args []AV
	if items, ok := e.variadic(st, a[len(a)-1]); ok && len(a) == 2 {
		args = items
	}
	n, sum := st.fresh("errorf@" + e.site(fr, site))
	at := &Atom{K: KApp, Name: n, T: types.Universe.Lookup("error").Type(), NonNil: true, Summary: sum}
	if f, ok := strConst(a[0]); ok {
		at.NotEOF = literalBeyond(f, "EOF")
		if vs := verbs(f); len(vs) == len(args) {
			for i, v := range vs {
				if v == 'w' {
					at.Wrap = append(at.Wrap, args[i])
				}
			}
		}
	}
	for _, x := range args {
		if !x.top {
			at.Args = append(at.Args, x)
		}
	}
	if len(at.Key()) > 400 {
		at.Args, at.key = nil, ""
	}
	return ret(st, mk(at))
}

func mJoin(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	s := e.asSeq(st, a[0])
	if s == nil || a[1].top {
		return ret(st, Top)
	}
	if !s.Open {
		all := true
		for _, m := range s.Must {
			all = all && m
		}
		if all {
			var parts []AV
			for i, x := range s.Args {
				if i > 0 {
					parts = append(parts, a[1])
				}
				parts = append(parts, x)
			}
			return ret(st, cat(parts...))
		}
	}
	return ret(st, app("join", mk(s), a[1]))
}

func mSort(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	// order changes in place: forget the order wherever this value is held
	v := a[0]
	known := len(a) == 1
	if x := v.single(); x != nil && x.K == KIface {
		known = typeKey(x.T) == "sort.StringSlice"
		v = x.Args[0]
	}
	if x := v.single(); x != nil && x.K == KApp && x.Name == "slice" && known {
		// a list with its own storage, of known texts
		q, b := e.asSeq(st, v), x.Args[0].single()
		if q != nil && closedSeq(q) {
			if s := sortedBag(q); len(s.Args) == 0 || !q.Open && constStrings(s) {
				lo, _ := intConst(x.Args[1])
				for i, y := range s.Args {
					st.write(b.Obj, b.Path+"["+itoa(int(lo)+i)+"]", strT, y, false)
				}
				return []Outcome{{st: st}}, true
			}
		}
	}
	if len(a) == 2 {
		if n := e.sortBy(fr, st, c, site, v, a[1]); n != nil {
			return []Outcome{{st: n}}, true
		}
	}
	if x := v.single(); x != nil && x.K == KSeq {
		st.replaceEverywhere(v, mk(sortedBag(x)))
	} else {
		e.havocReach(st, v, map[string]bool{})
	}
	return []Outcome{{st: st}}, true
}

// replaceEverywhere: a list held by value changed in place.
func (st *State) replaceEverywhere(v, w AV) {
	k := v.Key()
	for r, ev := range st.env {
		if ev.Key() == k {
			st.env[r] = w
		}
	}
	for id, o := range st.heap {
		for p, fv := range o.F {
			if fv.Key() == k {
				st.mut(id).F[p] = w
			}
		}
	}
}

// sortBy orders a short list of known texts by the comparison, nil if that is not possible.
func (e *Engine) sortBy(fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, v, less AV) *State {
	f, x := less.single(), v.single()
	q := e.asSeq(st, v)
	if f == nil || f.K != KFunc || f.Fn == nil || len(f.Fn.Params) != 2 || x == nil || q == nil || q.Open || !closedSeq(q) || !constItems(q) || len(q.Args) > 12 {
		return nil
	}
	if x.K == KApp && x.Name != "slice" || x.K != KApp && x.K != KSeq || x.K == KApp && x.Args[0].single() == nil {
		return nil
	}
	st = st.clone()
	items := append([]AV{}, q.Args...)
	el := types.Type(strT)
	if sl, ok := q.T.Underlying().(*types.Slice); ok {
		el = sl.Elem()
	}
	put := func() {
		if x.K == KApp {
			lo, _ := intConst(x.Args[1])
			b := x.Args[0].single()
			for i, y := range items {
				st.write(b.Obj, b.Path+"["+itoa(int(lo)+i)+"]", el, y, false)
			}
			return
		}
		n := *x
		n.Args = append([]AV{}, items...)
		st.replaceEverywhere(v, mk(&n))
		v = mk(&n)
	}
	for pass := range items {
		for i := 0; i+1 < len(items)-pass; i++ {
			outs := e.callFn(fr, st, f.Fn, c, site, f.Args, []AV{cInt(int64(i + 1)), cInt(int64(i))})
			if len(outs) != 1 || len(outs[0].res) != 1 {
				return nil
			}
			switch st.truth(outs[0].res[0]) {
			case T:
				st = outs[0].st
				items[i], items[i+1] = items[i+1], items[i]
				put()
			case F:
				st = outs[0].st
			default:
				return nil
			}
		}
	}
	return st
}

func constItems(s *Atom) bool {
	for _, x := range s.Args {
		if a := x.single(); a == nil || a.K != KConst {
			return false
		}
	}
	return true
}

func constStrings(s *Atom) bool {
	for _, x := range s.Args {
		if _, ok := strConst(x); !ok {
			return false
		}
	}
	return true
}

// sortedBag: the same items with their order forgotten (constants can be sorted).
func sortedBag(s *Atom) *Atom {
	all := !s.Open
	strs := []string{}
	for i, x := range s.Args {
		c, ok := strConst(x)
		if !ok || !s.Must[i] {
			all = false
			break
		}
		strs = append(strs, c)
	}
	if all {
		sort.Strings(strs)
		n := &Atom{K: KSeq, T: s.T}
		for _, c := range strs {
			n.Args = append(n.Args, cStr(c))
			n.Must = append(n.Must, true)
		}
		return n
	}
	out := Bottom
	for _, x := range s.Args {
		out = union(out, x)
	}
	n := &Atom{K: KSeq, T: s.T, Open: s.Open}
	if len(s.Args) > 1 {
		for i := range s.Args {
			n.Args = append(n.Args, out)
			n.Must = append(n.Must, s.Must[i])
		}
	} else {
		n.Args, n.Must = s.Args, s.Must
	}
	return n
}

// ---- buffers ----------------------------------------------------------------------

func (e *Engine) bufLoc(st *State, v AV) (id, path string, ok bool) {
	a := v.single()
	if a == nil {
		return "", "", false
	}
	if a.K == KIface {
		return e.bufLoc(st, a.Args[0])
	}
	switch a.K {
	case KPtr:
		return a.Obj, a.Path + ".#buf", st.get(a.Obj) != nil
	case KSym:
		if el, ok := ptrElem(a.T); ok {
			o := st.symObj(a, el)
			return o.ID, ".#buf", true
		}
	}
	return "", "", false
}

func (e *Engine) bufGet(st *State, id, path string) AV {
	o := st.get(id)
	if v, ok := o.F[path]; ok {
		return v
	}
	if o.Havoc {
		return Top
	}
	if o.Initial {
		return sym(o.ID+path, types.Typ[types.String])
	}
	return cStr("")
}

func (e *Engine) bufAppend(st *State, v, content AV) bool {
	id, path, ok := e.bufLoc(st, v)
	if !ok {
		return false
	}
	nv := cat(e.bufGet(st, id, path), content)
	st.mut(id).F[path] = nv
	return true
}

func mBufWrite(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	if !e.bufAppend(st, a[0], e.bytesVal(st, a[1])) {
		return nil, false
	}
	return ret(st, Top, vNil())
}

func mBufWriteByte(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	var s AV = Top
	if n, ok := intConst(a[1]); ok {
		s = cStr(string(rune(n)))
		if len(resultTypes(c)) == 1 {
			s = cStr(string([]byte{byte(n)}))
		}
	} else if !a[1].top {
		s = app("char", a[1])
	}
	if !e.bufAppend(st, a[0], s) {
		return nil, false
	}
	if len(resultTypes(c)) == 2 {
		return ret(st, Top, vNil())
	}
	return ret(st, vNil())
}

func mBufGet(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	id, path, ok := e.bufLoc(st, a[0])
	if !ok {
		return nil, false
	}
	return ret(st, e.bufGet(st, id, path))
}

func mBufLen(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	id, path, ok := e.bufLoc(st, a[0])
	if !ok {
		return nil, false
	}
	return ret(st, lenOf(e, st, e.bufGet(st, id, path)))
}

func isBuf(v AV) bool {
	a := v.single()
	if a == nil || a.K != KIface {
		return false
	}
	k := typeKey(a.T)
	return k == "*bytes.Buffer" || k == "*strings.Builder"
}

func mFprintf(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	if !isBuf(a[0]) {
		return nil, false
	}
	f, ok := strConst(a[1])
	items, ok2 := e.variadic(st, a[2])
	v := Top
	if ok && ok2 {
		v = e.format(fr, st, c, site, f, items)
	}
	e.bufAppend(st, a[0], v)
	return ret(st, Top, vNil())
}

func mFprint(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	if !isBuf(a[0]) {
		return nil, false
	}
	items, ok2 := e.variadic(st, a[1])
	v := Top
	if ok2 && len(items) == 1 {
		v = e.fmtArg(fr, st, c, site, 'v', items[0])
	}
	e.bufAppend(st, a[0], v)
	return ret(st, Top, vNil())
}

// ---- files -----------------------------------------------------------------------

func errT() types.Type { return types.Universe.Lookup("error").Type() }

func mResolve(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	// a = recv, ctx, path
	if a[0].top || a[2].top {
		return nil, false
	}
	ok := st.clone()
	bad := st.clone()
	n, _ := bad.fresh("resolveErr@" + e.site(fr, site))
	f, _ := bad.fresh("resolveFile@" + e.site(fr, site))
	bad.tags["resolve"] = "failed"
	return []Outcome{
		{st: ok, res: []AV{mk(&Atom{K: KApp, Name: "resolve", Args: []AV{a[0], a[2]}, T: resultTypes(c)[0], NonNil: true}), vNil()}},
		{st: bad, res: []AV{sym(f, resultTypes(c)[0]), symNN(n, errT())}},
	}, true
}

func mReadAll(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	if e.extHook != nil {
		name := "io.ReadAll"
		if outs, ok := e.extHook(e, st, c, site, name, a); ok {
			return outs, true
		}
	}
	if a[0].top {
		return nil, false
	}
	v := a[0]
	if x := v.single(); x != nil && x.K == KIface {
		v = x.Args[0]
	}
	ok := st.clone()
	bad := st.clone()
	n, _ := bad.fresh("readErr@" + e.site(fr, site))
	bad.tags["readall"] = "failed"
	return []Outcome{
		{st: ok, res: []AV{mk(&Atom{K: KApp, Name: "readall", Args: []AV{v}, T: types.NewSlice(types.Typ[types.Byte])}), vNil()}},
		{st: bad, res: []AV{Top, symNN(n, errT())}},
	}, true
}

// ---- JSON ------------------------------------------------------------------------------

// JDoc describes what is assumed about a JSON document being decoded.
type JDoc struct {
	Kind    string          // object, string, any
	Keys    map[string]bool // key -> present?
	KeySyms []*Atom         // arbitrary keys known present
	Closed  bool            // keys not listed are absent
}

type jfield struct {
	name      string
	path      string
	t         types.Type
	omitempty bool
	str       bool
	depth     int
	ptrs      []string // embedded pointers crossed
}

// jsonFields lists the JSON view of a struct type by its tags, following the
// encoding/json rules for embedding and shadowing.
func jsonFields(t types.Type) []jfield {
	var all []jfield
	var walk func(t types.Type, path string, depth int)
	walk = func(t types.Type, path string, depth int) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			if f.Anonymous() && parts[0] == "" {
				ft := f.Type()
				if p, ok := ptrElem(ft); ok {
					ft = p
				}
				if _, ok := ft.Underlying().(*types.Struct); ok {
					walk(ft, path+"."+f.Name(), depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jfield{name: parts[0], path: path + "." + f.Name(), t: f.Type(), depth: depth}
			if jf.name == "" {
				jf.name = f.Name()
			}
			for _, o := range parts[1:] {
				if o == "omitempty" || o == "omitzero" {
					jf.omitempty = true
				}
				if o == "string" {
					jf.str = true
				}
			}
			all = append(all, jf)
		}
	}
	walk(t, "", 0)
	best := map[string]int{}
	for _, f := range all {
		if d, ok := best[f.name]; !ok || f.depth < d {
			best[f.name] = f.depth
		}
	}
	cnt := map[string]int{}
	for _, f := range all {
		if f.depth == best[f.name] {
			cnt[f.name]++
		}
	}
	var out []jfield
	for _, f := range all {
		if f.depth == best[f.name] && cnt[f.name] == 1 {
			out = append(out, f)
		}
	}
	return out
}

func (e *Engine) hasMethod(t types.Type, name string) *ssa.Function {
	ms := e.p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return e.p.SSA.MethodValue(s)
		}
	}
	return nil
}

func hasMethodName(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// jsonTree snapshots the JSON form of a value, one level deep.
func (e *Engine) jsonTree(st *State, v AV, t types.Type) AV {
	a := v.single()
	if a == nil {
		if v.top {
			return Top
		}
		out := Bottom
		for _, x := range v.atoms {
			out = union(out, e.jsonTree(st, mk(x), t))
		}
		return out
	}
	if a.K == KIface {
		return e.jsonTree(st, a.Args[0], a.T)
	}
	if a.K == KNil {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		o, path, et := st.target(a)
		if o == nil {
			return Top
		}
		_ = et
		if structOf(u.Elem()) == nil {
			return e.jsonTree(st, st.read(o, path, u.Elem()), u.Elem())
		}
		return e.jsonTree(st, st.read(o, path, u.Elem()), u.Elem())
	case *types.Struct:
		if structOf(t) == nil {
			return v
		}
		obj := &Atom{K: KApp, Name: "jobj", Names: []string{}, Must: []bool{}}
		for _, f := range jsonFields(t) {
			fv := e.pathRead(st, v, f.path, t)
			must := true
			if f.omitempty {
				switch e.jsonEmpty(st, fv, f.t) {
				case T:
					continue
				case U:
					must = false
				}
			}
			if f.str {
				fv = app("jsonstring", fv)
			}
			obj.Names = append(obj.Names, f.name)
			obj.Args = append(obj.Args, fv)
			obj.Must = append(obj.Must, must)
		}
		return AV{atoms: []*Atom{obj}}
	case *types.Map:
		o := e.mapObj(st, a, t)
		if o == nil {
			return Top
		}
		obj := &Atom{K: KApp, Name: "jobj", Names: []string{}, Must: []bool{}, Open: o.Rest != RNone || o.Havoc}
		keys := make([]string, 0)
		for k := range o.Ents {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			en := o.Ents[k]
			if en.P == PAbsent {
				continue
			}
			name := en.Key.Key()
			if s, ok := strConst(en.Key); ok {
				name = s
			}
			val := en.Val
			if x := val.single(); x != nil && x.K == KIface {
				val = x.Args[0]
			}
			obj.Names = append(obj.Names, name)
			obj.Args = append(obj.Args, st.norm(val))
			obj.Must = append(obj.Must, en.P == PMust)
		}
		return AV{atoms: []*Atom{obj}}
	}
	return v
}

func (e *Engine) pathRead(st *State, v AV, path string, t types.Type) AV {
	cur := v
	ct := t
	for path != "" {
		j := 1
		for j < len(path) && path[j] != '.' {
			j++
		}
		name := path[1:j]
		path = path[j:]
		if p, ok := ptrElem(ct); ok {
			a := cur.single()
			if a == nil {
				return Top
			}
			o, pp, _ := st.target(a)
			if o == nil {
				return Top
			}
			cur = st.read(o, pp, p)
			ct = p
		}
		s, ok := ct.Underlying().(*types.Struct)
		if !ok {
			return Top
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				ct = s.Field(i).Type()
				break
			}
		}
		cur = project(cur, name, ct)
	}
	return st.norm(cur)
}

// jsonEmpty: would omitempty drop this value?
func (e *Engine) jsonEmpty(st *State, v AV, t types.Type) Tri {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return F
	case *types.Slice, *types.Map:
		if st.isZero(v) == T {
			return T
		}
		return st.isZero(st.norm(lenOf(e, st, v)))
	}
	return st.isZero(v)
}

func mMarshal(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	v := a[0]
	if x := v.single(); x != nil && x.K == KIface {
		if fn := e.hasMethod(x.T, "MarshalJSON"); fn != nil && e.p.inRepo(fn) {
			for _, f := range e.stack {
				if f == fn {
					// encoding through its own encoder never terminates
					e.fail("recursive JSON encoding of " + typeKey(x.T))
					return nil, true
				}
			}
			return e.callFn(fr, st, fn, c, site, nil, []AV{x.Args[0]}), true
		}
	}
	ok := st.clone()
	bad := st.clone()
	n, _ := bad.fresh("marshalErr@" + e.site(fr, site))
	bad.tags["marshal"] = "failed"
	tree := Top
	if x := v.single(); x != nil && x.K == KIface {
		tree = e.jsonTree(ok, x.Args[0], x.T)
	} else if x != nil && x.K == KNil {
		tree = vNil()
	} else if x != nil {
		tree = v
	}
	data := Top
	if !tree.top {
		data = AV{atoms: []*Atom{{K: KApp, Name: "json", Args: []AV{tree}, T: types.NewSlice(types.Typ[types.Byte]), NonNil: true}}}
	}
	return []Outcome{
		{st: ok, res: []AV{data, vNil()}},
		{st: bad, res: []AV{vNil(), symNN(n, errT())}},
	}, true
}

func mEncode(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil || x.K != KApp || x.Name != "jsonenc" {
		return nil, false
	}
	outs, ok := mMarshal(e, fr, st, c, site, []AV{a[1]})
	if !ok {
		return nil, false
	}
	var res []Outcome
	for _, o := range outs {
		if o.st.isZero(o.res[1]) == T {
			if !e.bufAppend(o.st, x.Args[0], cat(o.res[0], cStr("\n"))) {
				e.havocReach(o.st, x.Args[0], map[string]bool{})
			}
		}
		res = append(res, Outcome{st: o.st, res: []AV{o.res[1]}})
	}
	return res, true
}

func decSym(doc, key string, t types.Type) AV {
	k := typeKey(t)
	if it, ok := t.Underlying().(*types.Interface); ok && it.Empty() {
		k = "any"
	}
	return sym("dec("+doc+"."+key+"):"+k, t)
}

func mUnmarshal(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	tgt := a[1].single()
	if tgt == nil || tgt.K != KIface {
		return nil, false
	}
	if fn := e.hasMethod(tgt.T, "UnmarshalJSON"); fn != nil && e.p.inRepo(fn) {
		for _, f := range e.stack {
			if f == fn {
				e.fail("recursive JSON decoding of " + typeKey(tgt.T))
				return nil, true
			}
		}
		return e.callFn(fr, st, fn, c, site, nil, []AV{tgt.Args[0], a[0]}), true
	}
	p := tgt.Args[0].single()
	data := a[0].single()
	bad := st.clone()
	n, _ := bad.fresh("unmarshalErr@" + e.site(fr, site))
	fail := func() Outcome {
		return Outcome{st: bad, res: []AV{symNN(n, errT())}}
	}
	var doc *JDoc
	name := ""
	if txt, isC := strConst(e.bytesVal(st, a[0])); isC && p != nil {
		// a constant document decoded into a string
		var s string
		if o, path, t := st.target(p); o != nil && isStringT(t) && json.Unmarshal([]byte(txt), &s) == nil {
			st.write(o.ID, path, t, cStr(s), false)
			return ret(st, vNil())
		}
	}
	if data != nil && data.K == KSym {
		doc, name = e.docs[data.Name], data.Name
	}
	if doc == nil && e.streams != nil && e.streams.src != nil {
		if outs, ok := rUnmarshal(e, fr, st, site, a[0], tgt.Args[0]); ok {
			return outs, true
		}
	}
	if p == nil || doc == nil {
		bad.tags["unmarshal"] = "failed"
		e.havocReach(bad, tgt.Args[0], map[string]bool{})
		ok := st.clone()
		e.havocReach(ok, tgt.Args[0], map[string]bool{})
		return []Outcome{{st: ok, res: []AV{vNil()}}, fail()}, true
	}
	o, path, t := st.target(p)
	if o == nil {
		return nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		var outs []Outcome
		match := doc.Kind == "any" || (doc.Kind == "string") == (u.Info()&types.IsString != 0)
		if match {
			ok := st.clone()
			ok.tags["doc"] = "as-" + u.Name()
			ok.write(o.ID, path, t, sym("dec("+name+"):"+u.Name(), t), false)
			outs = append(outs, Outcome{st: ok, res: []AV{vNil()}})
		}
		if !match || doc.Kind == "any" {
			outs = append(outs, fail())
		}
		return outs, true
	case *types.Struct:
		if doc.Kind == "string" {
			bad.tags["unmarshal"] = "failed"
			return []Outcome{fail()}, true
		}
		ok := st.clone()
		for _, f := range jsonFields(t) {
			pres := U
			if b, listed := doc.Keys[f.name]; listed {
				pres = triOf(b)
			} else if doc.Closed {
				pres = F
			}
			if strings.Count(f.path, ".") > 1 {
				e.fail("decoding into embedded struct " + typeKey(t))
			}
			switch pres {
			case T:
				ok.write(o.ID, path+f.path, f.t, decSym(name, f.name, f.t), false)
			case U:
				ok.write(o.ID, path+f.path, f.t, decSym(name, f.name, f.t), true)
			}
		}
		bad.tags["unmarshal"] = "failed"
		for _, f := range jsonFields(t) {
			bad.write(o.ID, path+f.path, f.t, Top, false)
		}
		return []Outcome{{st: ok, res: []AV{vNil()}}, fail()}, true
	case *types.Map:
		if doc.Kind == "string" {
			bad.tags["unmarshal"] = "failed"
			return []Outcome{fail()}, true
		}
		ok := st.clone()
		cur := st.read(o, path, t)
		var mo *Obj
		if m := cur.single(); m != nil && m.K == KMap {
			mo = ok.mut(m.Obj)
		} else {
			id, sum := ok.fresh("M:" + e.site(fr, site))
			mo = &Obj{ID: id, T: t, IsMap: true, F: map[string]AV{}, Ents: map[string]Ent{}, Summary: sum}
			ok.heap[id] = mo
			ok.write(o.ID, path, t, mk(&Atom{K: KMap, Obj: id, T: t}), false)
		}
		for k, b := range doc.Keys {
			if b {
				mo.Ents[cStr(k).Key()] = Ent{Key: cStr(k), Val: decSym(name, k, u.Elem()), P: PMust}
			} else {
				mo.Ents[cStr(k).Key()] = Ent{Key: cStr(k), P: PAbsent}
			}
		}
		for _, ks := range doc.KeySyms {
			mo.Ents[ks.Key()] = Ent{Key: mk(ks), Val: decSym(name, ks.Name, u.Elem()), P: PMust}
		}
		if !doc.Closed {
			mo.Rest = RTop
		}
		bad.tags["unmarshal"] = "failed"
		e.havocReach(bad, tgt.Args[0], map[string]bool{})
		return []Outcome{{st: ok, res: []AV{vNil()}}, fail()}, true
	case *types.Interface:
		ok := st.clone()
		ok.write(o.ID, path, t, decSym(name, "", t), false)
		bad.tags["unmarshal"] = "failed"
		return []Outcome{{st: ok, res: []AV{vNil()}}, fail()}, true
	}
	return nil, false
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
