package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) internCtx(s string) string {
	if v, ok := e.ctxs[s]; ok {
		return v
	}
	v := fmt.Sprintf("c%d", len(e.ctxs)+1)
	e.ctxs[s] = v
	return v
}

func (e *Engine) globalVal(st *State, a *Atom) AV { return Bottom }

func (e *Engine) call(fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction) []Outcome {
	var args []AV
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	return e.callWith(fr, st, c, site, e.val(fr, st, c.Value), args)
}

func (e *Engine) callWith(fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, fv AV, args []AV) []Outcome {
	e.calls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, b.Name(), c, args, site)
	}
	if c.IsInvoke() {
		return e.invoke(fr, st, c, site, fv, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		var bs []AV
		if a := fv.single(); a != nil && a.K == KFunc && a.Fn == fn {
			bs = a.Args
		}
		return e.callFn(fr, st, fn, c, site, bs, args)
	}
	if fv.top || fv.isBottom() {
		return e.ext(fr, st, c, site, "dynamic", args)
	}
	if a := fv.single(); a != nil && a.K == KNil {
		e.crash(fr, site)
	}
	var outs []Outcome
	for i, a := range fv.atoms {
		s := st
		if i < len(fv.atoms)-1 {
			s = st.clone()
		}
		switch a.K {
		case KFunc:
			outs = append(outs, e.callFn(fr, s, a.Fn, c, site, a.Args, args)...)
		case KNil:
		default:
			outs = append(outs, e.ext(fr, s, c, site, "dynamic:"+a.Key(), args)...)
		}
	}
	return outs
}

func (e *Engine) invoke(fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, recv AV, args []AV) []Outcome {
	name := "invoke:" + ifaceMethodName(c)
	if recv.top || recv.isBottom() {
		return e.ext(fr, st, c, site, name, append([]AV{recv}, args...))
	}
	if recv.single() != nil && st.isZero(recv) == T {
		e.crash(fr, site)
	}
	var outs []Outcome
	for i, a := range recv.atoms {
		s := st
		if i < len(recv.atoms)-1 {
			s = st.clone()
		}
		switch a.K {
		case KNil:
			continue
		case KIface:
			sel := e.p.SSA.MethodSets.MethodSet(a.T).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				outs = append(outs, e.ext(fr, s, c, site, name, append([]AV{mk(a)}, args...))...)
				continue
			}
			fn := e.p.SSA.MethodValue(sel)
			if fn != nil {
				outs = append(outs, e.callFn(fr, s, fn, c, site, nil, append([]AV{a.Args[0]}, args...))...)
				continue
			}
			outs = append(outs, e.ext(fr, s, c, site, name, append([]AV{mk(a)}, args...))...)
		default:
			if s.isZeroAtom(a) == T {
				continue
			}
			outs = append(outs, e.ext(fr, s, c, site, name, append([]AV{mk(a)}, args...))...)
		}
	}
	return outs
}

func ifaceMethodName(c *ssa.CallCommon) string {
	return typeKey(c.Value.Type()) + "." + c.Method.Name()
}

func (e *Engine) callFn(fr *frame, st *State, fn *ssa.Function, c *ssa.CallCommon, site ssa.Instruction, bs, args []AV) []Outcome {
	name := shortName(fn)
	if e.preHook != nil {
		if outs, ok := e.preHook(e, st, c, site, name, args); ok {
			return outs
		}
	}
	if e.streams != nil {
		if m, ok := streamModels[name]; ok {
			if outs, handled := m(e, fr, st, c, site, args); handled {
				return outs
			}
		}
	}
	if m, ok := models[name]; ok {
		if outs, handled := m(e, fr, st, c, site, args); handled {
			return outs
		}
	}
	if e.byteMode() && !e.streams.bytes.follow && e.opaqueHelper(fn) {
		return []Outcome{{st: st, res: e.freshResults(fr, st, c, site, name)}}
	}
	if e.p.inRepo(fn) && (e.inlineHook == nil || e.inlineHook(fn)) {
		rec := false
		for _, f := range e.stack {
			if f == fn {
				rec = true
			}
		}
		if e.byteMode() && rec && (e.streams.bytes.follow || len(e.streams.bytes.left(st)) > 0) {
			// what is left to read bounds the recursion
			n := 0
			for _, f := range e.stack {
				if f == fn {
					n++
				}
			}
			rec = n > 8
		}
		if e.byteMode() {
			if outs, ok := e.summary(fr, st, fn, c, site, args); ok {
				return outs
			}
		}
		if !rec && len(e.stack) < e.maxDepth {
			return e.inline(fr, st, fn, site, bs, args)
		}
		if !rec {
			e.fail("inlining bound reached at " + name)
		}
	}
	return e.ext(fr, st, c, site, name, args)
}

func (e *Engine) inline(fr *frame, st *State, fn *ssa.Function, site ssa.Instruction, bs, args []AV) []Outcome {
	ctx := e.internCtx(fr.ctx + ">" + e.site(fr, site))
	exits := e.run(fn, args, bs, st, ctx)
	var outs []Outcome
	for _, x := range exits {
		if x.panic {
			continue
		}
		s := x.st.clone()
		s.env = make(map[ssa.Value]AV, len(st.env)+1)
		for k, v := range st.env {
			s.env[k] = v
		}
		s.defers = st.defers
		if len(s.repl) > len(st.repl) {
			for k, v := range s.env {
				if y, c := swapAtoms(v, s.repl); c {
					s.env[k] = y
				}
			}
		}
		outs = append(outs, Outcome{st: s, res: x.res})
	}
	return outs
}

// pure packages/functions: no effect on memory reachable from arguments.
func isPureName(name string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "strings.", "(*strings.Reader)", "strconv.", "errors.", "(time.Time)", "(time.Duration)", "time.", "unicode", "math.", "path.", "path/filepath.", "bytes.Equal", "bytes.Compare", "bytes.Contains", "bytes.Has", "bytes.Index", "bytes.Trim", "bytes.To", "bytes.NewReader", "bytes.NewBuffer",
		"reflect.", "(reflect.", "(*encoding/base64.", "encoding/hex.", "encoding/base64.", "encoding/json.Valid", "os.Getenv", "regexp.", "(*regexp.", "context.", "sort.Search", "crypto/sha256.Sum", "github.com/mr-tron/base58", "github.com/multiformats/go-multihash", "github.com/qri-io/varName", "runtime.", "github.com/ipfs/go-log", "(*github.com/ipfs/go-log", "(*go.uber.org/zap", "log.", "github.com/qri-io/qfs.NewMemfile"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	if strings.HasPrefix(name, "invoke:error.Error") || strings.HasPrefix(name, "invoke:fmt.Stringer") || strings.HasPrefix(name, "invoke:context.Context") || strings.HasPrefix(name, "invoke:reflect.Type") || strings.HasPrefix(name, "invoke:github.com/ipfs/go-log") {
		return true
	}
	return false
}

func resultTypes(c *ssa.CallCommon) []types.Type {
	sig := c.Signature()
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

// ext: a call whose body is not available or not followed.
func (e *Engine) ext(fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, args []AV) []Outcome {
	e.extCalled[name] = true
	if e.preInvoke && strings.HasPrefix(name, "invoke:") {
		if outs, ok := e.preHook(e, st, c, site, name, args); ok {
			return outs
		}
	}
	if e.streams != nil && strings.HasPrefix(name, "invoke:") {
		if m, ok := streamModels[name]; ok {
			if outs, handled := m(e, fr, st, c, site, args); handled {
				return outs
			}
		}
	}
	if m, ok := models[name]; ok && strings.HasPrefix(name, "invoke:") {
		if outs, handled := m(e, fr, st, c, site, args); handled {
			return outs
		}
	}
	if e.extHook != nil {
		if outs, ok := e.extHook(e, st, c, site, name, args); ok {
			return outs
		}
	}
	if isPureName(name) && !strings.HasPrefix(name, "time.Now") && !strings.HasPrefix(name, "context.") && !strings.HasPrefix(name, "time.Since") {
		if res, ok := e.pureResult(name, c, args); ok {
			return []Outcome{{st: st, res: res}}
		}
	}
	if !isPureName(name) {
		seen := map[string]bool{}
		for _, a := range args {
			e.havocReach(st, a, seen)
		}
	}
	return []Outcome{{st: st, res: e.freshResults(fr, st, c, site, name)}}
}

func (e *Engine) freshResults(fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, name string) []AV {
	var res []AV
	for i, t := range resultTypes(c) {
		n, sum := st.fresh(fmt.Sprintf("%s#%d@%s", name, i, e.site(fr, site)))
		res = append(res, mk(&Atom{K: KSym, Name: n, T: t, Summary: sum}))
	}
	return res
}

// havocReach forgets the contents of everything a callee could write through v.
func (e *Engine) havocReach(st *State, v AV, seen map[string]bool) {
	if v.top {
		return
	}
	for _, a := range v.atoms {
		switch a.K {
		case KPtr:
			e.havocObj(st, a.Obj, seen)
		case KMap:
			e.havocObj(st, a.Obj, seen)
		case KSym:
			if st.get(a.Name+"*") != nil {
				e.havocObj(st, a.Name+"*", seen)
			} else if pt, ok := ptrElem(a.T); ok {
				st.symObj(a, pt)
				e.havocObj(st, a.Name+"*", seen)
			}
		default:
			for _, x := range a.Args {
				e.havocReach(st, x, seen)
			}
		}
	}
}

func (e *Engine) havocObj(st *State, id string, seen map[string]bool) {
	if seen[id] {
		return
	}
	seen[id] = true
	o := st.get(id)
	if o == nil {
		return
	}
	for _, v := range o.F {
		e.havocReach(st, v, seen)
	}
	for _, en := range o.Ents {
		e.havocReach(st, en.Val, seen)
	}
	n := st.mut(id)
	n.Havoc = true
	n.F = map[string]AV{}
	if n.IsMap {
		n.Ents = map[string]Ent{}
		n.Rest = RTop
	}
}

func (e *Engine) builtin(fr *frame, st *State, name string, c *ssa.CallCommon, args []AV, site ssa.Instruction) []Outcome {
	one := func(v AV) []Outcome { return []Outcome{{st: st, res: []AV{v}}} }
	switch name {
	case "len":
		return one(st.norm(lenOf(e, st, args[0])))
	case "cap":
		if a := args[0].single(); a != nil && a.K == KNil {
			return one(cInt(0))
		}
		if b, lo, _, ok := sliceParts(args[0]); e.arrays && ok {
			return one(cInt(arrayOf(b.T).Len() - lo))
		}
		return one(Top)
	case "append":
		if e.arrays && !isStringy(c.Args[0].Type()) {
			if v, ok := e.appendArray(st, args[0], args[1], e.site(fr, site)); ok {
				return one(v)
			}
		}
		if s := e.asSeq(st, args[1]); s != nil && len(s.Args) == 1 {
			e.consumed(st, AV{}, s.Args[0], false)
		}
		return one(e.appendV(st, args[0], args[1], c))
	case "copy":
		if b, lo, hi, ok := sliceParts(args[0]); e.arrays && ok {
			if q := e.asSeq(st, args[1]); q != nil && closedSeq(q) {
				n := min(hi-lo, int64(len(q.Args)))
				for i := int64(0); i < n; i++ {
					st.write(b.Obj, b.Path+"["+itoa(int(lo+i))+"]", arrayOf(b.T).Elem(), q.Args[i], false)
				}
				return one(cInt(n))
			}
		}
		if e.byteMode() {
			if items, open, ok := byteParts(e.seqView(st, args[1])); ok && !open && e.storeBytes(st, args[0], items) {
				return one(cInt(int64(min(len(items), len(e.asSeq(st, args[0]).Args)))))
			}
		}
		// contents of destination become unknown
		e.havocReach(st, args[0], map[string]bool{})
		return one(Top)
	case "delete":
		e.mapDelete(fr, st, args[0], args[1], c.Args[0].Type(), site)
		return []Outcome{{st: st}}
	case "ssa:wrapnilchk":
		return one(args[0])
	case "panic":
		return nil
	case "recover":
		return one(vNil())
	case "close", "print", "println", "clear":
		return []Outcome{{st: st}}
	case "min", "max":
		return one(Top)
	}
	var res []AV
	for range resultTypes(c) {
		res = append(res, Top)
	}
	return []Outcome{{st: st, res: res}}
}

func (e *Engine) appendV(st *State, a, b AV, c *ssa.CallCommon) AV {
	// byte/string content
	if isStringy(c.Args[0].Type()) {
		if e.byteMode() {
			x, o1, ok1 := byteParts(e.seqView(st, a))
			y, o2, ok2 := byteParts(e.seqView(st, b))
			switch {
			case !ok1 || !ok2:
			case o1:
				return peeked(x, true)
			default:
				return peeked(append(append([]AV{}, x...), y...), o2)
			}
		}
		sa, sb := e.bytesVal(st, a), e.bytesVal(st, b)
		if sa.top || sb.top {
			return Top
		}
		return cat(sa, sb)
	}
	sa, sb := e.asSeq(st, a), e.asSeq(st, b)
	if sa == nil && len(a.atoms) > 1 && !a.top {
		out := Bottom
		for _, x := range a.atoms {
			out = union(out, e.appendV(st, mk(x), b, c))
		}
		return out
	}
	if sa == nil || sb == nil {
		if e.exactAppend && sa == nil && a.single() != nil && sb != nil && exact(sb) {
			out := a
			for _, x := range sb.Args {
				out = mk(&Atom{K: KApp, Name: "append", Args: []AV{out, x}, T: c.Args[0].Type(), NonNil: true})
			}
			return out
		}
		if sa == nil && !a.top && sb != nil {
			// append to an unknown slice: unknown prefix, known tail
			return mk(&Atom{K: KSeq, T: c.Args[0].Type(), Args: sb.Args, Must: sb.Must, Open: true})
		}
		if sa != nil {
			return mk(&Atom{K: KSeq, T: c.Args[0].Type(), Args: sa.Args, Must: sa.Must, Open: true})
		}
		return Top
	}
	if len(sb.Args) == 0 && !sb.Open {
		return a
	}
	n := &Atom{K: KSeq, T: c.Args[0].Type(), Open: sa.Open || sb.Open}
	n.Args = append(append([]AV{}, sa.Args...), sb.Args...)
	n.Must = append(append([]bool{}, sa.Must...), sb.Must...)
	if len(n.Args) > 80 {
		return mk(&Atom{K: KSeq, T: n.T, Open: true})
	}
	return mk(n)
}

// bytesVal views []byte / string values as text; byte slices built from
// constants become constants.
func (e *Engine) bytesVal(st *State, v AV) AV {
	if a := v.single(); a != nil {
		if a.K == KNil || a.K == KZero {
			return cStr("")
		}
		if s := e.asSeq(st, v); s != nil && !s.Open {
			out := []byte{}
			for i, x := range s.Args {
				n, ok := intConst(x)
				if !ok || !s.Must[i] {
					return v
				}
				out = append(out, byte(n))
			}
			return cStr(string(out))
		}
	}
	return v
}

// ---- slices with a capacity ---------------------------------------------------------

func (e *Engine) newArray(st *State, at string, el types.Type, n, cp int64) AV {
	id, sum := st.fresh("A:" + at)
	t := types.NewArray(el, cp)
	o := &Obj{ID: id, T: t, F: map[string]AV{}, Summary: sum}
	st.heap[id] = o
	return mk(&Atom{K: KApp, Name: "slice", Args: []AV{ptr(id, "", t), cInt(0), cInt(n)}, T: types.NewSlice(el), NonNil: true})
}

// sliceParts: the array of a slice, and which part of it the slice is.
func sliceParts(v AV) (*Atom, int64, int64, bool) {
	a := v.single()
	if a == nil || a.K != KApp || a.Name != "slice" || len(a.Args) < 3 {
		return nil, 0, 0, false
	}
	b := a.Args[0].single()
	lo, ok1 := intConst(a.Args[1])
	hi, ok2 := intConst(a.Args[2])
	if b == nil || b.K != KPtr || !ok1 || !ok2 || arrayOf(b.T) == nil {
		return nil, 0, 0, false
	}
	return b, lo, hi, true
}

func (e *Engine) appendArray(st *State, v, more AV, at string) (AV, bool) {
	q := e.asSeq(st, more)
	b, lo, hi, ok := sliceParts(v)
	if !ok || q == nil || !closedSeq(q) {
		return Top, false
	}
	el := arrayOf(b.T).Elem()
	n := int64(len(q.Args))
	if hi+n > arrayOf(b.T).Len() {
		old := e.asSeq(st, v)
		if old == nil {
			return Top, false
		}
		v = e.newArray(st, at, el, hi-lo, 2*(hi-lo+n))
		nb, _, _, _ := sliceParts(v)
		for i, x := range old.Args {
			st.write(nb.Obj, "["+itoa(i)+"]", el, x, false)
		}
		b, lo, hi = nb, 0, hi-lo
	}
	for i, x := range q.Args {
		st.write(b.Obj, b.Path+"["+itoa(int(hi)+i)+"]", el, x, false)
	}
	return mk(&Atom{K: KApp, Name: "slice", Args: []AV{mk(b), cInt(lo), cInt(hi + n)}, T: types.NewSlice(el), NonNil: true}), true
}
