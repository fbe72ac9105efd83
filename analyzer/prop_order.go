package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C11: same input, same result ---------------------------------------------------------

// orderExempt: operations that are random by purpose or documented as unordered.
var orderExempt = regexp.MustCompile(`generate\.|dsio\.\w*Identity|\(vals\.\w+\)\.Keys$|dsviz\.Render$`)

var clockCalls = regexp.MustCompile(`^time\.(Now|Since|Until|After|Tick)$|^math/rand\.|^\(\*math/rand\.|^crypto/rand\.|^os\.(Getenv|LookupEnv|Environ|Hostname|Getpid|Getppid|Getwd|UserHomeDir|TempDir|ExpandEnv)$|^runtime\.(NumGoroutine|NumCPU|GOMAXPROCS)|^\(reflect\.Value\)\.(MapKeys|MapRange)$|^\(\*sync\.Map\)\.Range$|uuid|^io/ioutil\.Temp|^os\.(MkdirTemp|CreateTemp)$`)

type orderCheck struct {
	p       *Program
	r       *Report
	closure map[*ssa.Function]bool
	pureFn  map[*ssa.Function]int
	tainted map[*ssa.Function]map[int]string // results in random order
	loops   int
	// encoders that write maps in an order of their own
	encoders int
}

func checkOrder(p *Program) *Report {
	r := newReport("C11")
	r.Rule = "in the call closure of every listed operation, every iteration over a map must be free of order-dependent effects (entries stored under their own key, commutative counting, lists that are sorted before use, at most one distinct early result), and no function may consult the clock, randomness, the environment, reflection's map order, or run goroutines"
	r.Assume = []string{"library functions are deterministic, apart from the listed sources of the time, randomness and environment", "values stored under different keys of one map do not share memory", "an operation that fails may name any of several reasons"}
	o := &orderCheck{p: p, r: r, closure: map[*ssa.Function]bool{}, pureFn: map[*ssa.Function]int{}, tainted: map[*ssa.Function]map[int]string{}}
	var work []*ssa.Function
	roots := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn != nil && fn.Blocks != nil && p.inRepo(fn) && !o.closure[fn] {
			o.closure[fn] = true
			work = append(work, fn)
		}
	}
	n := 0
	for _, name := range pureRoots {
		if orderExempt.MatchString(name) {
			continue
		}
		if fn := p.fn(name); fn != nil {
			n++
			roots[fn] = true
			add(fn)
		}
	}
	r.Counters["operations"] = n
	r.atLeast(n, 300, "listed operations")
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range o.callees(fn) {
			add(c)
		}
	}
	var fns []*ssa.Function
	for fn := range o.closure {
		fns = append(fns, fn)
		r.Funcs[shortName(fn)] = true
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		o.sources(fn)
		o.mapLoops(fn)
	}
	// lists in random order that are handed back
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					callee := call.Common().StaticCallee()
					if callee == nil || len(o.tainted[callee]) == 0 || call.Value() == nil {
						continue
					}
					for i, why := range o.tainted[callee] {
						k := fmt.Sprintf("%s/%s/%d/%s", fn, o.p.pos(fn, in), i, why)
						if done[k] {
							continue
						}
						done[k] = true
						changed = true
						var v ssa.Value = call.Value()
						if callee.Signature.Results().Len() > 1 {
							v = nil
							for _, ref := range *call.Value().Referrers() {
								if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
									v = ex
								}
							}
						}
						if v != nil {
							o.list(fn, v, nil, nil, why)
						}
					}
				}
			}
		}
	}
	for fn := range roots {
		for _, why := range o.tainted[fn] {
			r.bad("order:"+shortName(fn), p.fpos(fn), "%s returns a list in random order: %s", shortName(fn), why)
		}
	}
	for _, fn := range fns {
		if roots[fn] && len(o.tainted[fn]) == 0 {
			r.ok(shortName(fn) + ": results do not depend on the order of a map")
		}
	}
	r.Counters["iterations over maps"] = o.loops
	r.Counters["encoders of maps"] = o.encoders
	r.atLeast(o.loops, 5, "iterations over maps")
	return r
}

// callees of a function in the repository: static, through interfaces, through
// function values made there.
func (o *orderCheck) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok {
					out = append(out, f)
				}
			}
			call, ok := in.(ssa.CallInstruction)
			if !ok || !call.Common().IsInvoke() {
				continue
			}
			it, ok := call.Common().Value.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			for _, pkg := range o.p.sortedPkgs() {
				if !strings.HasPrefix(pkg.Pkg.Path(), modPath) {
					continue
				}
				for _, m := range pkg.Members {
					tn, ok := m.(*ssa.Type)
					if !ok {
						continue
					}
					for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
						if types.IsInterface(t) || !types.Implements(t, it) {
							continue
						}
						if c := o.p.methodOf(t, call.Common().Method.Name()); c != nil && !orderExempt.MatchString(shortName(c)) {
							out = append(out, c)
						}
					}
				}
			}
		}
	}
	return out
}

func (o *orderCheck) sources(fn *ssa.Function) {
	clean := true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				clean = false
				o.r.bad("sched:"+shortName(fn), o.p.pos(fn, in), "%s starts a goroutine: the result may depend on scheduling", shortName(fn))
			case *ssa.Select:
				clean = false
				o.r.bad("sched:"+shortName(fn), o.p.pos(fn, in), "%s selects between channels: the result may depend on scheduling", shortName(fn))
			case *ssa.Convert:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					if f, ok := x.X.Type().Underlying().(*types.Basic); ok && f.Kind() == types.UnsafePointer {
						clean = false
						o.r.bad("addr:"+shortName(fn), o.p.pos(fn, in), "%s uses an address as a number", shortName(fn))
					}
				}
			case ssa.CallInstruction:
				name := calleeName(x.Common())
				if clockCalls.MatchString(name) {
					clean = false
					o.r.bad("source:"+shortName(fn)+":"+name, o.p.pos(fn, in), "%s calls %s: the same input may give different results", shortName(fn), name)
				}
				if encoderCalls.MatchString(name) && len(x.Common().Args) == 2 {
					o.encoders++
					if !o.canonical(x.Common().Args[1], x, 0) {
						clean = false
						o.r.bad("codec:"+shortName(fn), o.p.pos(fn, in), "%s encodes maps without asking for a canonical order", shortName(fn))
					}
				}
				if strings.HasPrefix(name, "fmt.") {
					for _, a := range x.Common().Args {
						if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && strings.Contains(constant.StringVal(c.Value), "%p") {
							clean = false
							o.r.bad("addr:"+shortName(fn), o.p.pos(fn, in), "%s formats an address", shortName(fn))
						}
					}
				}
			}
		}
	}
	if clean {
		o.r.ok(shortName(fn) + ": no clock, randomness, environment or scheduling")
	}
}

var encoderCalls = regexp.MustCompile(`ugorji/go/codec\.NewEncoder(Bytes)?$`)

// canonical: the codec handle has its Canonical switch set, and never unset.
func (o *orderCheck) canonical(v ssa.Value, at ssa.Instruction, d int) bool {
	if d > 8 {
		return false
	}
	all := func(vs []ssa.Value, at ssa.Instruction) bool {
		for _, x := range vs {
			if !o.canonical(x, at, d+1) {
				return false
			}
		}
		return len(vs) > 0
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return o.canonical(x.X, at, d)
	case *ssa.ChangeInterface:
		return o.canonical(x.X, at, d)
	case *ssa.Phi:
		return all(x.Edges, at)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.Blocks == nil || !o.p.inRepo(f) {
			return false
		}
		var vs []ssa.Value
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				if !o.canonical(ret.Results[0], ret, d+1) {
					return false
				}
				vs = append(vs, ret.Results[0])
			}
		}
		return len(vs) > 0
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		// whatever is stored in the variable or field
		var vs []ssa.Value
		for _, fn := range o.p.repoFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					same := st.Addr == x.X
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if fb, ok := x.X.(*ssa.FieldAddr); ok && fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type()) {
							same = true
						}
					}
					if same {
						if !o.canonical(st.Val, st, d+1) {
							return false
						}
						vs = append(vs, st.Val)
					}
				}
			}
		}
		return len(vs) > 0
	case *ssa.Alloc, *ssa.Global:
		set, unset := false, false
		for _, fn := range o.p.repoFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					base, field := fieldOf(st.Addr)
					if base != v || field != "Canonical" {
						continue
					}
					c, ok := st.Val.(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.Bool || !constant.BoolVal(c.Value) {
						unset = true
						continue
					}
					if fn != at.Parent() || b == at.Block() && instrIndex(st) < instrIndex(at) || b != at.Block() && b.Dominates(at.Block()) {
						set = true
					}
				}
			}
		}
		return set && !unset
	}
	return false
}

// fieldOf: the variable and the name of its (possibly embedded) field at an address.
func fieldOf(v ssa.Value) (ssa.Value, string) {
	name := ""
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v, name
		}
		if name == "" {
			st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			name = st.Field(fa.Field).Name()
		}
		v = fa.X
	}
}

func calleeName(cc *ssa.CallCommon) string {
	if f := cc.StaticCallee(); f != nil {
		return strings.ReplaceAll(f.String(), modPath, "dataset")
	}
	if cc.IsInvoke() {
		return "(" + cc.Value.Type().String() + ")." + cc.Method.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

// mapLoop is one iteration over a map.
type mapLoop struct {
	o      *orderCheck
	fn     *ssa.Function
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	next   *ssa.Next
	key    ssa.Value
	val    ssa.Value
	failed bool
	// effects outside the iteration that an early exit would cut short
	partial string
	lists   map[ssa.Value]ssa.Instruction
	// places that every iteration may change
	stored  map[string]bool
	updated map[string]bool
}

func (o *orderCheck) mapLoops(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
				continue
			}
			o.loops++
			l := &mapLoop{o: o, fn: fn, head: b, next: nx, body: map[*ssa.BasicBlock]bool{}, lists: map[ssa.Value]ssa.Instruction{}}
			for _, ref := range *nx.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok {
					switch ex.Index {
					case 1:
						l.key = ex
					case 2:
						l.val = ex
					}
				}
			}
			l.findBody()
			l.places()
			l.judge()
			if !l.failed {
				o.r.ok(fmt.Sprintf("%s: iteration over a map at %s has no order", shortName(fn), o.p.pos(fn, in)))
			}
		}
	}
}

func (l *mapLoop) findBody() {
	l.body[l.head] = true
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if l.body[b] {
			return
		}
		l.body[b] = true
		for _, p := range b.Preds {
			up(p)
		}
	}
	for _, p := range l.head.Preds {
		if l.head.Dominates(p) {
			up(p)
		}
	}
}

func (l *mapLoop) bad(in ssa.Instruction, text string, args ...interface{}) {
	l.failed = true
	l.o.r.bad(fmt.Sprintf("order:%s:%s", shortName(l.fn), fmt.Sprintf(text, args...)), l.o.p.pos(l.fn, in), "in %s, the iteration over a map %s: the result depends on the order of the map", shortName(l.fn), fmt.Sprintf(text, args...))
}

func (l *mapLoop) inBody(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && l.body[in.Block()]
}

// same in every iteration
func (l *mapLoop) invariant(v ssa.Value) bool { return l.inv(v, 0) }

func (l *mapLoop) inv(v ssa.Value, d int) bool {
	if !l.inBody(v) {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return l.inv(x.X, d+1) && l.inv(x.Y, d+1)
	case *ssa.MakeInterface:
		return l.inv(x.X, d+1)
	case *ssa.ChangeType:
		return l.inv(x.X, d+1)
	case *ssa.Convert:
		return l.inv(x.X, d+1)
	case *ssa.FieldAddr:
		return l.inv(x.X, d+1)
	case *ssa.IndexAddr:
		return l.inv(x.X, d+1) && l.inv(x.Index, d+1)
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			if !l.inv(b, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// a distinct value for every entry
func (l *mapLoop) isKey(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		if v == l.key {
			return true
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return l.isKey(ta.X)
		}
	case *ssa.TypeAssert:
		return !x.CommaOk && l.isKey(x.X)
	case *ssa.ChangeType:
		return l.isKey(x.X)
	case *ssa.MakeInterface:
		return l.isKey(x.X)
	case *ssa.Convert:
		_, a := x.X.Type().Underlying().(*types.Basic)
		return a && l.isKey(x.X) && types.Identical(x.X.Type().Underlying(), x.Type().Underlying())
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			return l.isKey(x.X) && l.invariant(x.Y) || l.isKey(x.Y) && l.invariant(x.X)
		}
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// guarded: executed for at most one entry.
func (l *mapLoop) guarded(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || !l.body[p] {
			return false
		}
		if len(d.Preds) != 1 || d.Preds[0] != p || len(p.Instrs) == 0 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		op, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		eq := l.isKey(op.X) && l.invariant(op.Y) || l.isKey(op.Y) && l.invariant(op.X)
		if eq && (op.Op == token.EQL && p.Succs[0] == d || op.Op == token.NEQ && p.Succs[1] == d) {
			return true
		}
	}
	return false
}

// own: memory belonging to this entry alone.
func (l *mapLoop) own(v ssa.Value, d int) bool {
	if d > 10 || !l.inBody(v) {
		return false
	}
	if v == l.val || v == l.key {
		return true
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
		return true
	case *ssa.FieldAddr:
		return l.own(x.X, d+1)
	case *ssa.IndexAddr:
		return l.own(x.X, d+1)
	case *ssa.UnOp:
		return x.Op == token.MUL && l.own(x.X, d+1)
	case *ssa.Field:
		return l.own(x.X, d+1)
	case *ssa.Slice:
		return l.own(x.X, d+1)
	case *ssa.ChangeType:
		return l.own(x.X, d+1)
	case *ssa.Convert:
		return true
	case *ssa.MakeInterface:
		return l.own(x.X, d+1)
	case *ssa.ChangeInterface:
		return l.own(x.X, d+1)
	case *ssa.TypeAssert:
		return l.own(x.X, d+1)
	case *ssa.Extract:
		return l.own(x.Tuple, d+1)
	case *ssa.Lookup:
		return l.isKey(x.Index)
	case *ssa.Phi:
		if x.Block() == l.head {
			return false
		}
		for _, e := range x.Edges {
			if _, c := e.(*ssa.Const); !c && !l.own(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		// what a function makes of this entry's values alone
		for _, a := range l.args(&x.Call) {
			if mutable(a.Type()) && !l.own(a, d+1) {
				if _, c := a.(*ssa.Const); !c {
					return false
				}
			}
		}
		return true
	case *ssa.Next:
		return false
	}
	return false
}

func (l *mapLoop) args(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

// mutable: something can be changed through a value of this type.
func mutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mutable(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return mutable(u.Elem())
	}
	return !isErr(t)
}

// placePath names a place by the way to it.
func placePath(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + placePath(x.X)
		}
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", placePath(x.X), x.Field)
	case *ssa.Field:
		return fmt.Sprintf("%s.%d", placePath(x.X), x.Field)
	case *ssa.IndexAddr:
		return fmt.Sprintf("%s[%s]", placePath(x.X), placePath(x.Index))
	case *ssa.ChangeType:
		return placePath(x.X)
	}
	return v.Name()
}

// places collects what the loop changes outside the entry's own memory.
func (l *mapLoop) places() {
	l.stored, l.updated = map[string]bool{}, map[string]bool{}
	for b := range l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if !l.own(x.Map, 0) {
					l.updated[placePath(x.Map)] = true
				}
			case *ssa.Store:
				if !l.own(x.Addr, 0) && !isErr(x.Val.Type()) {
					l.stored[placePath(x.Addr)] = true
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && !l.own(x.Call.Args[0], 0) {
					l.updated[placePath(x.Call.Args[0])] = true
				}
			}
		}
	}
}

// controlled: whether the block runs depends on what earlier iterations did.
func (l *mapLoop) controlled(b *ssa.BasicBlock) bool {
	// blocks from which the end of the iteration is reached around b
	for c := range l.body {
		if c == b || len(c.Succs) != 2 {
			continue
		}
		iff, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If)
		if !ok || !l.carried(iff.Cond, map[ssa.Value]bool{}) {
			continue
		}
		reaches, around := false, false
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock)
		walk = func(x *ssa.BasicBlock) {
			if seen[x] {
				return
			}
			seen[x] = true
			if x == b {
				reaches = true
				return
			}
			if x == l.head || !l.body[x] {
				around = true
				return
			}
			for _, s := range x.Succs {
				walk(s)
			}
		}
		for _, s := range c.Succs {
			walk(s)
		}
		if reaches && around {
			return true
		}
	}
	return false
}

// eqv: two computations of the same value from an entry.
func eqv(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 5 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.String() == y.String()
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && eqv(x.X, y.X, d+1) && eqv(x.Y, y.Y, d+1)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && eqv(x.X, y.X, d+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && eqv(x.X, y.X, d+1)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.IsInvoke() || y.Call.IsInvoke() || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		n := calleeName(&x.Call)
		if n != calleeName(&y.Call) || n != "len" && !plainCalls.MatchString(n) {
			return false
		}
		for i := range x.Call.Args {
			if !eqv(x.Call.Args[i], y.Call.Args[i], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// carried: the value depends on what earlier iterations did.
func (l *mapLoop) carried(v ssa.Value, seen map[ssa.Value]bool) bool {
	if !l.inBody(v) || seen[v] || isErr(v.Type()) {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL && l.stored[placePath(x.X)] {
			return true
		}
	case *ssa.Lookup:
		if l.updated[placePath(x.X)] {
			return !l.isKey(x.Index)
		}
	case *ssa.Range:
		if l.updated[placePath(x.X)] {
			return true
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && l.updated[placePath(x.Call.Args[0])] {
			return true
		}
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.head {
		return true
	}
	in := v.(ssa.Instruction)
	if ph, ok := v.(*ssa.Phi); ok {
		// constants chosen by a carried condition count as well
		for i := range ph.Edges {
			p := ph.Block().Preds[i]
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && l.carried(iff.Cond, seen) {
				return true
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && l.carried(*op, seen) {
			return true
		}
	}
	return false
}

func (l *mapLoop) judge() {
	phis := map[*ssa.Phi]string{}
	for _, in := range l.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis[ph] = l.phi(ph)
		}
	}
	var blocks []*ssa.BasicBlock
	for _, b := range l.fn.Blocks {
		if l.body[b] {
			blocks = append(blocks, b)
		}
	}
	for _, b := range blocks {
		once := l.guarded(b)
		for _, in := range b.Instrs {
			l.effect(in, once)
		}
	}
	l.exits(blocks)
	for ph, kind := range phis {
		switch kind {
		case "list":
			l.partial = "collects a list"
			l.o.list(l.fn, ph, l, nil, "it is collected at "+l.o.p.pos(l.fn, l.next))
		case "counter":
			l.counterUses(ph)
		}
	}
	for v, at := range l.lists {
		l.o.list(l.fn, v, l, at, "it is filled at "+l.o.p.pos(l.fn, at))
	}
}

// phi classifies what an iteration does to a variable.
func (l *mapLoop) phi(ph *ssa.Phi) string {
	kind := ""
	consts := map[string]bool{}
	var walk func(v ssa.Value, from *ssa.BasicBlock, seen map[ssa.Value]bool) string
	walk = func(v ssa.Value, from *ssa.BasicBlock, seen map[ssa.Value]bool) string {
		if v == ssa.Value(ph) || seen[v] {
			return ""
		}
		seen[v] = true
		if l.guarded(from) {
			return "once"
		}
		if l.invariant(v) {
			consts[v.String()] = true
			return "const"
		}
		in := v.(ssa.Instruction)
		if in.Block() != nil && l.guarded(in.Block()) {
			return "once"
		}
		switch x := v.(type) {
		case *ssa.Phi:
			k := ""
			for i, e := range x.Edges {
				g := walk(e, x.Block().Preds[i], seen)
				if u := l.underPhi(x.Block().Preds[i], ph); g == "bad" && isBool(x.Type()) && u != "" && !l.carried(e, map[ssa.Value]bool{}) {
					// under "not set", the variable can only become set
					g = "const"
					consts[map[string]string{"true": "false:bool", "false": "true:bool"}[u]] = true
				}
				if g == "" {
					continue
				}
				if k != "" && k != g {
					return "bad"
				}
				k = g
			}
			return k
		case *ssa.BinOp:
			if isInt(x.Type()) && (x.Op == token.ADD || x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR || x.Op == token.MUL || x.Op == token.SUB && x.X == ssa.Value(ph)) {
				for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					g := ""
					if pair[0] != ssa.Value(ph) {
						g = walk(pair[0], x.Block(), seen)
						if g == "" {
							continue
						}
					}
					if (g == "" || g == "counter") && !l.carried(pair[1], map[ssa.Value]bool{}) && !l.controlled(x.Block()) {
						return "counter"
					}
				}
			}
			if isBool(x.Type()) {
				return "bad"
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				g := ""
				if x.Call.Args[0] != ssa.Value(ph) {
					g = walk(x.Call.Args[0], x.Block(), seen)
				}
				if (g == "" || g == "list") && !l.carried(x.Call.Args[1], map[ssa.Value]bool{}) && !l.controlled(x.Block()) {
					return "list"
				}
			}
		}
		if isErr(v.Type()) {
			return "once"
		}
		// the largest or smallest
		if l.extreme(v, from, ph) {
			return "extreme"
		}
		return "bad"
	}
	for i, e := range ph.Edges {
		p := l.head.Preds[i]
		if !l.body[p] {
			continue
		}
		g := walk(e, p, map[ssa.Value]bool{})
		if g == "" {
			continue
		}
		if kind != "" && kind != g && g != "once" && kind != "once" {
			g = "bad"
		}
		kind = g
	}
	name := ph.Comment
	if name == "" {
		name = ph.Name()
	}
	if kind == "const" && len(consts) > 1 {
		kind = "bad"
	}
	if kind == "bad" {
		l.bad(l.next, "carries %s from entry to entry", name)
	}
	return kind
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// underPhi: the block only runs under a condition on the variable itself.
func (l *mapLoop) underPhi(b *ssa.BasicBlock, ph *ssa.Phi) string {
	for d := b; d != nil && l.body[d]; d = d.Idom() {
		p := d.Idom()
		if p == nil || !l.body[p] || len(d.Preds) != 1 {
			continue
		}
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			cond, neg := iff.Cond, false
			if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
				cond, neg = n.X, true
			}
			if cond == ssa.Value(ph) {
				if (p.Succs[0] == d) != neg {
					return "true"
				}
				return "false"
			}
		}
	}
	return ""
}

// extreme: the variable becomes v exactly when v is beyond it.
func (l *mapLoop) extreme(v ssa.Value, from *ssa.BasicBlock, ph *ssa.Phi) bool {
	for d := from; d != nil && l.body[d]; d = d.Idom() {
		p := d.Idom()
		if p == nil || !l.body[p] || len(d.Preds) != 1 {
			continue
		}
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			if c, ok := iff.Cond.(*ssa.BinOp); ok && (eqv(c.X, v, 0) && c.Y == ssa.Value(ph) || eqv(c.Y, v, 0) && c.X == ssa.Value(ph)) {
				switch c.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					return true
				}
			}
		}
	}
	return false
}

// counterUses: a counter may only be used to count and to place list items.
func (l *mapLoop) counterUses(ph *ssa.Phi) {
	l.partial = "counts entries"
	for _, ref := range *ph.Referrers() {
		if ref.Block() == nil || !l.body[ref.Block()] {
			continue
		}
		switch x := ref.(type) {
		case *ssa.BinOp:
			if isBool(x.Type()) {
				l.bad(x, "acts on how many entries came before")
			}
		case *ssa.IndexAddr, *ssa.Phi, *ssa.DebugRef:
		default:
			l.bad(ref, "uses the number of entries that came before")
		}
	}
}

func (l *mapLoop) effect(in ssa.Instruction, once bool) {
	switch in.(type) {
	case *ssa.MapUpdate, *ssa.Store:
		if l.external(in) && !once && l.controlled(in.Block()) {
			if st, ok := in.(*ssa.Store); !ok || !l.lazy(st) {
				l.bad(in, "changes something only if earlier entries did not")
				return
			}
		}
	}
	switch x := in.(type) {
	case *ssa.MapUpdate:
		carried := l.carried(x.Value, map[ssa.Value]bool{})
		switch {
		case l.own(x.Map, 0):
		case once:
			l.partial = "fills a map"
		case l.isKey(x.Key) && !carried:
			l.partial = "fills a map"
		case l.invariant(x.Value) && !carried:
			l.partial = "fills a map"
		case l.adds(x.Value, x.Map, x.Key):
			l.partial = "counts entries"
		default:
			l.bad(in, "stores entries under something other than their own key")
		}
	case *ssa.Store:
		if isErr(x.Val.Type()) || l.own(x.Addr, 0) {
			return
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !l.own(ia.X, 0) && l.fixedList(ia.X) != nil {
			if ph, ok := ia.Index.(*ssa.Phi); ok && ph.Block() == l.head {
				l.lists[l.fixedList(ia.X)] = in
				l.partial = "fills a list"
				return
			}
		}
		if once || l.invariant(x.Val) && l.invariant(x.Addr) {
			l.partial = "sets a variable"
			return
		}
		if b, ok := x.Val.(*ssa.BinOp); ok && isInt(b.Type()) && b.Op == token.ADD {
			for _, side := range []ssa.Value{b.X, b.Y} {
				if ld, ok := side.(*ssa.UnOp); ok && ld.Op == token.MUL && sameAddr(ld.X, x.Addr) {
					l.partial = "counts entries"
					return
				}
			}
		}
		if l.lazy(x) {
			return
		}
		if c, ok := x.Val.(*ssa.Call); ok && l.invariant(x.Addr) {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && !l.carried(c.Call.Args[1], map[ssa.Value]bool{}) {
				if ld, ok := c.Call.Args[0].(*ssa.UnOp); ok && ld.Op == token.MUL && sameAddr(ld.X, x.Addr) {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						l.lists[al] = in
						l.partial = "collects a list"
						return
					}
				}
			}
		}
		l.bad(in, "overwrites the same place for several entries")
	case *ssa.Send:
		l.bad(in, "sends entries in turn")
	case *ssa.Defer:
		l.bad(in, "defers a call per entry")
	case *ssa.Call:
		l.call(x, once)
	}
}

// external: the change is to something other than the entry's own memory.
func (l *mapLoop) external(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		return !l.own(x.Map, 0)
	case *ssa.Store:
		return !isErr(x.Val.Type()) && !l.own(x.Addr, 0)
	}
	return false
}

// fixedList: a list held in a variable that the loop does not replace.
func (l *mapLoop) fixedList(v ssa.Value) ssa.Value {
	if l.invariant(v) {
		return v
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if al, ok := ld.X.(*ssa.Alloc); ok && l.invariant(al) && !l.stored[placePath(al)] {
			return al
		}
	}
	return nil
}

// lazy: an empty map or list put in place before its first use.
func (l *mapLoop) lazy(x *ssa.Store) bool {
	switch v := x.Val.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice:
		_ = v
	default:
		return false
	}
	if !l.sameAlways(x.Addr, 0) {
		return false
	}
	for d := x.Block(); d != nil && l.body[d]; d = d.Idom() {
		p := d.Idom()
		if p == nil || !l.body[p] || len(d.Preds) != 1 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if c, ok := iff.Cond.(*ssa.BinOp); ok && c.Op == token.EQL && p.Succs[0] == d {
			for _, side := range []ssa.Value{c.X, c.Y} {
				if ld, ok := side.(*ssa.UnOp); ok && ld.Op == token.MUL && sameAddr(ld.X, x.Addr) {
					return true
				}
			}
		}
	}
	return false
}

// sameAlways: an address that is the same in every iteration.
func (l *mapLoop) sameAlways(v ssa.Value, d int) bool {
	if !l.inBody(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return l.sameAlways(x.X, d+1)
	case *ssa.IndexAddr:
		return l.sameAlways(x.X, d+1) && l.sameAlways(x.Index, d+1)
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok && ok2 {
		return x.Field == y.Field && sameAddr(x.X, y.X)
	}
	i, ok := a.(*ssa.IndexAddr)
	j, ok2 := b.(*ssa.IndexAddr)
	return ok && ok2 && i.X == j.X && i.Index == j.Index
}

// adds: m[k] = m[k] + v
func (l *mapLoop) adds(v, m, k ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD || !isInt(b.Type()) {
		return false
	}
	for _, side := range []ssa.Value{b.X, b.Y} {
		if lk, ok := side.(*ssa.Lookup); ok && lk.X == m && lk.Index == k {
			return true
		}
	}
	return false
}

var plainCalls = regexp.MustCompile(`^(strings|strconv|errors|unicode|unicode/utf8|math|path|path/filepath|bytes|encoding/json|encoding/hex|encoding/base64|reflect|regexp)\.[A-Z]\w*$|^fmt\.(Sprint|Sprintf|Sprintln|Errorf)$|^sort\.(Search|IsSorted|SearchStrings)\w*$|^\(\*?regexp\.Regexp\)\.|^\(time\.Time\)\.|^\(reflect\.|^\(error\)\.Error$|^\(\*?go.uber.org/zap|ipfs/go-log`)

func (l *mapLoop) call(x *ssa.Call, once bool) {
	cc := &x.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if !l.own(cc.Args[0], 0) && !l.isKey(cc.Args[1]) && !l.invariant(cc.Args[1]) {
				l.partial = "removes entries"
			}
		case "copy":
			if !l.own(cc.Args[0], 0) && !once {
				l.bad(x, "copies entries to the same place")
			}
		case "close", "print", "println":
			l.bad(x, "calls %s", b.Name())
		}
		return
	}
	name := calleeName(cc)
	if plainCalls.MatchString(name) && !strings.HasPrefix(name, "encoding/json.Unmarshal") && !strings.HasPrefix(name, "encoding/hex.En") {
		return
	}
	if f := cc.StaticCallee(); f != nil && l.o.p.inRepo(f) && l.o.pure(f) {
		return
	}
	for _, a := range l.args(cc) {
		if !mutable(a.Type()) || l.own(a, 0) {
			continue
		}
		if _, c := a.(*ssa.Const); c {
			continue
		}
		if _, c := a.(*ssa.Function); c {
			continue
		}
		if once {
			continue
		}
		if name == "" {
			name = "a function"
		}
		l.bad(x, "hands every entry in turn to %s", name)
		return
	}
	if f := cc.StaticCallee(); f != nil && len(f.FreeVars) > 0 && !once {
		l.bad(x, "hands every entry in turn to a closure")
	}
	if f := cc.StaticCallee(); f == nil && !cc.IsInvoke() && !l.own(cc.Value, 0) && !once {
		l.bad(x, "hands every entry in turn to a function")
	}
}

// pure: the function changes nothing that existed before it was called.
func (o *orderCheck) pure(fn *ssa.Function) bool {
	switch o.pureFn[fn] {
	case 1, 2:
		return true // recursion adds nothing by itself
	case 3:
		return false
	}
	o.pureFn[fn] = 1
	f := newEffects(o.p)
	var names []string
	for i := range fn.Params {
		names = append(names, fmt.Sprintf("#%d", i))
	}
	ok := len(fn.FreeVars) == 0
	if ok {
		ok = f.root(fn, names) != nil
	}
	if ok {
		for l := range f.writes {
			if l.obj != nil && l.obj.in {
				ok = false
			}
		}
		for name := range f.unknown {
			if !plainCalls.MatchString(name) {
				ok = false
			}
		}
	}
	o.pureFn[fn] = 3
	if ok {
		o.pureFn[fn] = 2
	}
	return ok
}

// exits: leaving early must not depend on which entry came first.
func (l *mapLoop) exits(blocks []*ssa.BasicBlock) {
	early := map[string]ssa.Instruction{}
	for _, b := range blocks {
		for si, s := range b.Succs {
			if l.body[s] {
				continue
			}
			if b == l.head {
				continue // the end of the map
			}
			_ = si
			if l.guarded(b) || l.guarded(s) {
				continue
			}
			last := b.Instrs[len(b.Instrs)-1]
			sig := l.exitTo(b, s, last)
			if sig != "err" {
				early[sig] = last
			}
		}
		// values of an iteration used after the loop
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.head {
				continue
			}
			for _, ref := range *v.Referrers() {
				if ref.Block() == nil || l.body[ref.Block()] || isErr(v.Type()) {
					continue
				}
				if _, ok := ref.(*ssa.DebugRef); ok {
					continue
				}
				if l.guarded(b) || l.guarded(ref.Block()) || l.onlyErr(ref.Block()) {
					continue
				}
				if ph, ok := ref.(*ssa.Phi); ok {
					bad := false
					for i, e := range ph.Edges {
						if e == v && l.body[ph.Block().Preds[i]] && !l.guarded(ph.Block().Preds[i]) {
							bad = true
						}
					}
					if !bad {
						continue
					}
				}
				if l.invariant(v) {
					continue
				}
				l.bad(ref, "keeps a value of whichever entry came first")
			}
		}
	}
	if len(early) > 1 {
		for _, at := range early {
			l.bad(at, "ends early in more than one way")
			break
		}
	}
	if len(early) > 0 && l.partial != "" {
		for _, at := range early {
			l.bad(at, "%s, and stops early", l.partial)
		}
	}
}

// onlyErr: the block builds and returns an error.
func (l *mapLoop) onlyErr(b *ssa.BasicBlock) bool {
	for i := 0; i < 20 && b != nil; i++ {
		last := b.Instrs[len(b.Instrs)-1]
		switch x := last.(type) {
		case *ssa.Return:
			n := len(x.Results)
			return n > 0 && isErr(x.Results[n-1].Type()) && !isNilConst(x.Results[n-1])
		case *ssa.Panic:
			return true
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// exitTo describes an early exit by the constants it leads to.
func (l *mapLoop) exitTo(from, to *ssa.BasicBlock, at ssa.Instruction) string {
	if l.onlyErr(to) {
		return "err"
	}
	sig := fmt.Sprintf("block %d", to.Index)
	if ret, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return); ok && len(to.Preds) == 1 {
		sig = "return"
		for _, v := range ret.Results {
			sig += " " + v.String()
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == from {
				sig += " " + ph.Edges[i].String()
			}
		}
	}
	return sig
}

var sortCalls = regexp.MustCompile(`^sort\.(Sort|Stable|Slice|SliceStable|Strings|Ints|Float64s)$|^\(sort\.\w+\)\.Sort$|^slices\.Sort\w*$`)

// list: a list in random order must be sorted before anything else happens to it.
func (o *orderCheck) list(fn *ssa.Function, v ssa.Value, l *mapLoop, at ssa.Instruction, why string) {
	if pt, ok := v.Type().Underlying().(*types.Pointer); !isSlice(v.Type()) && !(ok && isSlice(pt.Elem())) {
		return
	}
	same := map[ssa.Value]bool{}
	var uses []ssa.Instruction
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if same[v] || v.Referrers() == nil {
			return
		}
		same[v] = true
		for _, ref := range *v.Referrers() {
			if l != nil && ref.Block() != nil && l.body[ref.Block()] {
				if ph, ok := ref.(*ssa.Phi); ok && ph.Block() == l.head {
					follow(ph)
				}
				continue
			}
			switch x := ref.(type) {
			case *ssa.Phi:
				follow(x)
			case *ssa.ChangeType:
				follow(x)
			case *ssa.MakeInterface:
				follow(x)
			case *ssa.Slice:
				follow(x)
			case *ssa.UnOp:
				follow(x)
			case *ssa.MakeClosure:
				follow(x)
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					if x.Val == v {
						follow(al)
					}
					continue
				}
				uses = append(uses, ref)
			case *ssa.DebugRef:
			default:
				if c, ok := ref.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && c.Call.Args[0] == v {
						follow(c)
						continue
					}
				}
				if l != nil && ref.Block() != nil && ref.Block() != l.head && ref.Block().Dominates(l.head) {
					continue // before the loop
				}
				uses = append(uses, ref)
			}
		}
	}
	follow(v)
	var sorts []ssa.Instruction
	var rest []ssa.Instruction
	for _, u := range uses {
		if c, ok := u.(*ssa.Call); ok {
			name := calleeName(&c.Call)
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if len(c.Call.Args) > 0 && same[c.Call.Args[0]] && sortCalls.MatchString(name) {
				sorts = append(sorts, u)
				continue
			}
			// sorted by a function of the repository
			if f := c.Call.StaticCallee(); f != nil && o.p.inRepo(f) {
				done := false
				for i, a := range c.Call.Args {
					if same[a] && i < len(f.Params) && o.sortsParam(f, i) {
						done = true
					}
				}
				if done {
					sorts = append(sorts, u)
					continue
				}
			}
		}
		rest = append(rest, u)
	}
	for _, u := range rest {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() && instrIndex(s) < instrIndex(u) || s.Block() != u.Block() && s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if ok {
			continue
		}
		if ret, ok := u.(*ssa.Return); ok {
			for i, x := range ret.Results {
				if same[x] {
					if o.tainted[fn] == nil {
						o.tainted[fn] = map[int]string{}
					}
					if o.tainted[fn][i] == "" {
						o.tainted[fn][i] = why
					}
				}
			}
			continue
		}
		if l != nil {
			l.failed = true
		}
		o.r.bad("order:"+shortName(fn)+":list", o.p.pos(fn, u), "%s uses a list in the order of a map without sorting it: %s", shortName(fn), why)
	}
}

// sortsParam: the function sorts the list before doing anything else with it.
func (o *orderCheck) sortsParam(f *ssa.Function, i int) bool {
	for _, ref := range *f.Params[i].Referrers() {
		c, ok := ref.(*ssa.Call)
		if ok && c.Block() == f.Blocks[0] && sortCalls.MatchString(calleeName(&c.Call)) {
			return true
		}
		if mi, ok := ref.(*ssa.MakeInterface); ok && mi.Block() == f.Blocks[0] {
			for _, r2 := range *mi.Referrers() {
				if c, ok := r2.(*ssa.Call); ok && sortCalls.MatchString(calleeName(&c.Call)) {
					return true
				}
			}
		}
	}
	return false
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// repoFuncs lists every function of the repository, closures included.
func (p *Program) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range p.Funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if f := p.Funcs[n]; f.Blocks != nil && p.inRepo(f) && f.Parent() == nil {
			add(f)
		}
	}
	return out
}
