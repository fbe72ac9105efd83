package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome of a call: the state after it and the results.
type Outcome struct {
	st  *State
	res []AV
}

type Exit struct {
	st    *State
	res   []AV
	panic bool
	site  ssa.Instruction
	fn    *ssa.Function
}

type StoreEvent struct {
	Obj, Path string
	Val       AV
	Old       AV
	Kind      string // store, mapset, mapdelete
	Pos       string
	Fn        string
}

// Engine is the flow-sensitive abstract interpreter.
type Engine struct {
	p           *Program
	steps       int
	maxSteps    int
	maxParts    int      // states kept apart per program point (default 150)
	laxStores   bool     // stores through unknown pointers are of no interest
	undecided   []string // budget, unsupported constructs reached
	stores      []StoreEvent
	storeSeen   map[string]bool
	stack       []*ssa.Function
	maxDepth    int
	extHook     func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, args []AV) ([]Outcome, bool)
	backwards   bool // maps are walked in descending order of their keys
	apart       bool // loops are walked once per length of the lists in memory
	constHook   func(x *ssa.Const) (AV, bool)
	arrays      bool // slices have capacities and share their arrays
	preInvoke   bool // preHook sees method calls on interfaces as well
	preHook     func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, args []AV) ([]Outcome, bool)
	inlineHook  func(fn *ssa.Function) bool // false = treat as opaque
	onStore     func(ev StoreEvent)
	events      map[string]bool // free-form facts recorded by models
	docs        map[string]*JDoc
	ctxs        map[string]string
	globals     map[*ssa.Global]AV
	calls       int
	inlined     map[string]bool
	extCalled   map[string]bool
	trace       bool
	nilPanics   []string
	crashes     map[string]bool
	streams     *streamCfg
	exactAppend bool // name appends to unknown slices exactly
}

func newEngine(p *Program) *Engine {
	return &Engine{p: p, maxSteps: 400000, storeSeen: map[string]bool{}, maxDepth: 14, events: map[string]bool{}, docs: map[string]*JDoc{},
		ctxs: map[string]string{}, inlined: map[string]bool{}, extCalled: map[string]bool{}}
}

var sharedInfos = map[*ssa.Function]*fnInfo{}
var infoMu sync.Mutex

type loopInfo struct {
	head   int
	blocks map[int]bool
}

type fnInfo struct {
	live   []map[ssa.Value]bool // live-in partitionable values per block
	all    []map[ssa.Value]bool // every live-in value
	loops  []*loopInfo
	inLoop [][]int // block -> loop indices
}

func partitionable(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	t := v.Type()
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0
	case *types.Slice:
		return true
	case *types.Interface:
		return isErrorType(t)
	}
	return false
}

// measured: values told apart by their length, where that is asked for.
func measured(v ssa.Value) bool {
	switch u := v.Type().Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	infoMu.Lock()
	defer infoMu.Unlock()
	if i := sharedInfos[fn]; i != nil {
		return i
	}
	n := len(fn.Blocks)
	fi := &fnInfo{live: make([]map[ssa.Value]bool, n), inLoop: make([][]int, n)}
	use := make([]map[ssa.Value]bool, n)
	def := make([]map[ssa.Value]bool, n)
	phiUse := make([]map[int]map[ssa.Value]bool, n) // block -> pred idx -> values
	for i, b := range fn.Blocks {
		use[i], def[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
		phiUse[i] = map[int]map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for k, ed := range ph.Edges {
					if phiUse[i][k] == nil {
						phiUse[i][k] = map[ssa.Value]bool{}
					}
					phiUse[i][k][ed] = true
				}
				def[i][ph] = true
				continue
			}
			var ops []*ssa.Value
			for _, op := range in.Operands(ops) {
				if *op != nil && !def[i][*op] {
					use[i][*op] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[i][v] = true
			}
		}
		fi.live[i] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					out[v] = true
				}
				for _, in := range s.Instrs {
					if ph, ok := in.(*ssa.Phi); ok {
						delete(out, ph)
					}
				}
				for k, pr := range s.Preds {
					if pr == b {
						for v := range phiUse[s.Index][k] {
							out[v] = true
						}
					}
				}
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				if !def[i][v] {
					in[v] = true
				}
			}
			for v := range use[i] {
				in[v] = true
			}
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					in[ph] = true
				}
			}
			if len(in) != len(fi.live[i]) {
				fi.live[i] = in
				ch = true
			}
		}
	}
	for i := range fi.live {
		m := make(map[ssa.Value]bool, len(fi.live[i]))
		for v := range fi.live[i] {
			m[v] = true
		}
		fi.all = append(fi.all, m)
		for v := range fi.live[i] {
			if !partitionable(v) {
				if _, ok := v.(*ssa.Range); !ok {
					delete(fi.live[i], v)
				}
			}
		}
	}
	// natural loops
	heads := map[int]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := heads[s.Index]
				if l == nil {
					l = &loopInfo{head: s.Index, blocks: map[int]bool{s.Index: true}}
					heads[s.Index] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x.Index] {
						continue
					}
					l.blocks[x.Index] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var hs []int
	for h := range heads {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	for _, h := range hs {
		fi.loops = append(fi.loops, heads[h])
		for b := range heads[h].blocks {
			fi.inLoop[b] = append(fi.inLoop[b], len(fi.loops)-1)
		}
	}
	sharedInfos[fn] = fi
	return fi
}

// ---- interpretation of one function -------------------------------------------------

type frame struct {
	fn       *ssa.Function
	ctx      string
	info     *fnInfo
	parts    []map[string]*State
	visits   []map[string]int
	queue    []qItem
	queued   map[qItem]bool
	collapse map[int]bool // loops whose integer counters are no longer partitioned
	exits    []Exit
	keysOf   map[int][]ssa.Value
	fv       []AV
}

type qItem struct {
	b   int
	key string
}

func (e *Engine) liveList(fr *frame, b int) []ssa.Value {
	if l, ok := fr.keysOf[b]; ok {
		return l
	}
	var l []ssa.Value
	for v := range fr.info.live[b] {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	fr.keysOf[b] = l
	return l
}

// lengths tells apart memories that hold lists of different lengths or other numbers.
func (st *State) lengths() string {
	var sum uint64
	for id, o := range st.heap {
		for p, v := range o.F {
			a := v.single()
			n := ""
			switch {
			case a == nil:
			case a.K == KSeq:
				n = itoa(len(a.Args))
			case a.K == KConst && a.C.Kind() == constant.Int:
				n = a.C.ExactString()
			}
			if n != "" {
				h := fnv.New64a()
				h.Write([]byte(id + p + ":" + n))
				sum += h.Sum64()
			}
		}
	}
	return fmt.Sprintf("#%x", sum)
}

func (e *Engine) partKey(fr *frame, b int, st *State) string {
	var sb strings.Builder
	sb.WriteString(st.tagKey())
	for _, d := range st.defers {
		sb.WriteString("d" + d.id)
	}
	noInt := false
	for _, li := range fr.info.inLoop[b] {
		if fr.collapse[li] {
			noInt = true
		}
	}
	if e.apart {
		for _, li := range fr.info.inLoop[b] {
			if fr.info.loops[li].head == b {
				sb.WriteString(st.lengths())
				break
			}
		}
	}
	for _, v := range e.liveList(fr, b) {
		av, ok := st.env[v]
		if !ok {
			continue
		}
		if !e.apart && measured(v) {
			continue
		}
		if _, isR := v.(*ssa.Range); isR {
			if a := av.single(); a != nil && a.K == KMark {
				if o := st.get(a.Obj); o != nil {
					sb.WriteString("|" + v.Name() + "@" + o.F[".pos"].Key() + o.F[".k"].Key())
				}
			}
			continue
		}
		if isErrorType(v.Type()) {
			switch st.isZero(av) {
			case T:
				sb.WriteString("|" + v.Name() + "=nil")
			case F:
				sb.WriteString("|" + v.Name() + "=err")
			}
			continue
		}
		if a := av.single(); a != nil && a.K == KConst {
			if a.C.Kind() == constant.Bool {
				sb.WriteString("|" + v.Name() + "=" + a.C.String())
			} else if !noInt {
				sb.WriteString("|" + v.Name() + "=" + a.C.ExactString())
			}
		} else if a != nil && a.K == KSeq && !a.Open && measured(v) {
			sb.WriteString("|" + v.Name() + "#" + itoa(len(a.Args)))
		}
	}
	return sb.String()
}

func (e *Engine) fail(msg string) {
	for _, m := range e.undecided {
		if m == msg {
			return
		}
	}
	e.undecided = append(e.undecided, msg)
}

// spent: the memory or time of the whole analysis is used up; nothing is decided any more.
var spent atomic.Bool

// watch ends the analysis in good order before the memory or the time runs out.
func watch(mem uint64, d time.Duration) {
	end := time.Now().Add(d)
	for !spent.Load() {
		time.Sleep(100 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > mem || time.Now().After(end) {
			spent.Store(true)
			debug.SetGCPercent(50)
		}
	}
}

// run interprets fn abstractly and returns its exits, merged per exit class.
func (e *Engine) run(fn *ssa.Function, args []AV, fv []AV, st *State, ctx string) []Exit {
	fr := &frame{fn: fn, ctx: ctx, info: e.info(fn), parts: make([]map[string]*State, len(fn.Blocks)), visits: make([]map[string]int, len(fn.Blocks)), queued: map[qItem]bool{}, collapse: map[int]bool{}, keysOf: map[int][]ssa.Value{}, fv: fv}
	e.stack = append(e.stack, fn)
	e.inlined[shortName(fn)] = true
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	s0 := st.clone()
	s0.env = map[ssa.Value]AV{}
	s0.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s0.env[p] = args[i]
		} else {
			s0.env[p] = Top
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(fv) {
			s0.env[f] = fv[i]
		} else {
			s0.env[f] = Top
		}
	}
	for i := range fr.parts {
		fr.parts[i] = map[string]*State{}
		fr.visits[i] = map[string]int{}
	}
	e.push(fr, 0, s0)
	for len(fr.queue) > 0 {
		// lowest block first approximates reverse postorder
		best := 0
		for i := range fr.queue {
			if fr.queue[i].b < fr.queue[best].b {
				best = i
			}
		}
		it := fr.queue[best]
		fr.queue = append(fr.queue[:best], fr.queue[best+1:]...)
		delete(fr.queued, it)
		in := fr.parts[it.b][it.key]
		fr.visits[it.b][it.key]++
		e.steps++
		if e.steps > e.maxSteps || spent.Load() {
			e.fail("analysis budget exhausted in " + shortName(fn))
			return nil
		}
		e.block(fr, fn.Blocks[it.b], in.clone())
	}
	return e.mergeExits(fn, fr.exits)
}

func (e *Engine) push(fr *frame, b int, st *State) {
	key := e.partKey(fr, b, st)
	lim := 150
	if e.maxParts > 0 {
		lim = e.maxParts
	}
	if len(fr.parts[b]) > lim {
		if _, ok := fr.parts[b][key]; !ok {
			key = st.tagKey() + "**"
		}
	}
	it := qItem{b, key}
	if cur, ok := fr.parts[b][key]; ok {
		if fr.visits[b][key] > 30 || e.byteMode() && fr.visits[b][key] > max(4, e.streams.bytes.rounds) {
			widen(cur, st)
		}
		if !joinInto(cur, st) {
			return
		}
		if fr.visits[b][key] > 400 {
			e.fail("no fixpoint in " + shortName(fr.fn))
			return
		}
	} else {
		fr.parts[b][key] = st
	}
	if !fr.queued[it] {
		fr.queued[it] = true
		fr.queue = append(fr.queue, it)
	}
}

// widen forces values that keep growing to Top so that the fixpoint terminates.
func widen(cur, in *State) {
	for k, v := range in.env {
		if o, ok := cur.env[k]; ok && union(o, v).Key() != o.Key() {
			in.env[k] = Top
		}
	}
	for id, so := range in.heap {
		if do := cur.get(id); do != nil && do != so {
			n := so.clone()
			ch := false
			for k, v := range so.F {
				dv, ok := do.F[k]
				if !ok || union(dv, v).Key() != dv.Key() {
					n.F[k] = Top
					ch = true
				}
			}
			for k, en := range so.Ents {
				de, ok := do.Ents[k]
				if !ok || unionEnt(de, en).Key() != de.Val.Key() {
					en.Val = Top
					n.Ents[k] = en
					ch = true
				}
			}
			if ch {
				in.heap[id] = n
			}
		}
	}
}

func (e *Engine) exitKey(fn *ssa.Function, x Exit) string {
	k := x.st.tagKey()
	if x.panic {
		return k + "PANIC"
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len() && i < len(x.res); i++ {
		t := rs.At(i).Type()
		if isErrorType(t) {
			switch x.st.isZero(x.res[i]) {
			case T:
				k += "|nil"
			case F:
				k += "|err"
			default:
				k += "|?"
			}
		} else if b, ok := boolConst(x.res[i]); ok {
			k += fmt.Sprintf("|%v", b)
		} else if _, ok := t.Underlying().(*types.Basic); ok {
			if x.res[i].single() != nil && x.res[i].single().K == KConst {
				k += "|c"
			} else {
				k += "|u"
			}
		} else {
			switch x.st.isZero(x.res[i]) {
			case T:
				k += "|z"
			case F:
				k += "|n"
			default:
				k += "|-"
			}
		}
	}
	return k
}

func (e *Engine) mergeExits(fn *ssa.Function, xs []Exit) []Exit {
	m := map[string]int{}
	var out []Exit
	for _, x := range xs {
		k := e.exitKey(fn, x)
		if i, ok := m[k]; ok {
			for j := range out[i].res {
				out[i].res[j] = union(out[i].res[j], x.res[j])
			}
			joinInto(out[i].st, x.st)
			continue
		}
		m[k] = len(out)
		out = append(out, Exit{st: x.st.clone(), res: append([]AV{}, x.res...), panic: x.panic, site: x.site, fn: x.fn})
	}
	return out
}

func (e *Engine) edge(fr *frame, from, to *ssa.BasicBlock, st *State) {
	var idx = -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []AV
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(fr, st, ph.Edges[idx]))
	}
	for i, ph := range phis {
		st.env[ph] = vals[i]
	}
	// keep the environment small: nothing but what may still be used
	live := fr.info.all[to.Index]
	env := make(map[ssa.Value]AV, len(live))
	for v := range live {
		if av, ok := st.env[v]; ok {
			env[v] = av
		}
	}
	st.env = env
	e.push(fr, to.Index, st)
}

func (e *Engine) val(fr *frame, st *State, v ssa.Value) AV {
	switch x := v.(type) {
	case *ssa.Const:
		if e.constHook != nil {
			if v, ok := e.constHook(x); ok {
				return v
			}
		}
		return constOf(x)
	case *ssa.Function:
		return mk(&Atom{K: KFunc, Fn: x, T: x.Signature})
	case *ssa.Global:
		return e.globalAddr(st, x)
	case *ssa.Builtin:
		return Top
	}
	if av, ok := st.env[v]; ok {
		return st.norm(av)
	}
	return Top
}

func (e *Engine) globalAddr(st *State, g *ssa.Global) AV {
	elem, _ := ptrElem(g.Type())
	id := "G:" + shortStr(g.String())
	if st.get(id) == nil {
		o := &Obj{ID: id, T: elem, Initial: true, F: map[string]AV{}}
		st.heap[id] = o
	}
	return ptr(id, "", elem)
}

// crash notes that an instruction panics on some path.
func (e *Engine) crash(fr *frame, ins ssa.Instruction) {
	if fr.fn.Pkg == nil && fr.fn.Parent() == nil || fr.fn.Name() == "init" || !e.p.inRepo(fr.fn) {
		return
	}
	if ta, ok := ins.(*ssa.TypeAssert); ok && types.AssignableTo(ta.X.Type(), ta.AssertedType) {
		return // a method value: that its receiver is nil may be the loss of a correlation
	}
	if e.crashes == nil {
		e.crashes = map[string]bool{}
	}
	e.crashes[e.p.pos(fr.fn, ins)+" in "+shortName(fr.fn)] = true
}

func (e *Engine) crashed() string {
	var l []string
	for c := range e.crashes {
		l = append(l, c)
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func (e *Engine) block(fr *frame, b *ssa.BasicBlock, in *State) {
	cur := []*State{in}
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if len(cur) == 0 {
			return
		}
		switch x := ins.(type) {
		case *ssa.If:
			for _, st := range cur {
				e.branch(fr, b, x, st)
			}
			return
		case *ssa.Jump:
			for _, st := range cur {
				e.edge(fr, b, b.Succs[0], st)
			}
			return
		case *ssa.Return:
			for _, st := range cur {
				var res []AV
				for _, r := range x.Results {
					res = append(res, e.val(fr, st, r))
				}
				fr.exits = append(fr.exits, Exit{st: st, res: res, site: x, fn: fr.fn})
			}
			return
		case *ssa.Panic:
			if len(cur) > 0 {
				e.crash(fr, ins)
			}
			for _, st := range cur {
				fr.exits = append(fr.exits, Exit{st: st, panic: true, site: x, fn: fr.fn})
			}
			return
		}
		var next []*State
		for _, st := range cur {
			n := e.instr(fr, ins, st)
			if _, isC := ins.(*ssa.Call); len(n) == 0 && !isC {
				e.crash(fr, ins)
			}
			next = append(next, n...)
		}
		if len(next) > 24 {
			next = e.collapseStates(fr, b, next)
		}
		cur = next
	}
}

func (e *Engine) collapseStates(fr *frame, b *ssa.BasicBlock, ss []*State) []*State {
	m := map[string]*State{}
	var order []string
	for _, s := range ss {
		k := s.tagKey()
		for v, av := range s.env {
			if isErrorType(v.Type()) {
				k += "" // order-insensitive summary below
				_ = av
			}
		}
		if o, ok := m[k]; ok {
			joinInto(o, s)
		} else {
			m[k] = s
			order = append(order, k)
		}
	}
	var out []*State
	for _, k := range order {
		out = append(out, m[k])
	}
	return out
}

func (e *Engine) branch(fr *frame, b *ssa.BasicBlock, x *ssa.If, st *State) {
	cond := e.val(fr, st, x.Cond)
	t := st.truth(cond)
	if t == U {
		// an undecided loop condition: stop separating iterations after a few
		for _, li := range fr.info.inLoop[b.Index] {
			l := fr.info.loops[li]
			if (l.head == b.Index || e.byteMode()) && (!l.blocks[b.Succs[0].Index] || !l.blocks[b.Succs[1].Index]) && len(fr.parts[l.head]) > 5 {
				fr.collapse[li] = true
			}
		}
	}
	if t != F {
		s := st
		if t == U {
			s = st.clone()
		}
		if t == T || s.refine(cond, true) {
			if t == U {
				e.refineOperands(fr, s, x.Cond, true)
			}
			e.edge(fr, b, b.Succs[0], s)
		}
	}
	if t != T {
		s := st
		if t == F || s.refine(cond, false) {
			if t == U {
				e.refineOperands(fr, s, x.Cond, false)
			}
			e.edge(fr, b, b.Succs[1], s)
		}
	}
}

// refineOperands narrows the registers (and the memory they were just loaded
// from) that a decided comparison talks about.
func (e *Engine) refineOperands(fr *frame, st *State, cond ssa.Value, truth bool) {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			e.refineOperands(fr, st, c.X, !truth)
		}
		if c.Op == token.MUL {
			e.narrow(fr, st, c, func(a *Atom) bool { t := st.truthAtom(a); return t == U || (t == T) == truth })
		}
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return
		}
		eq := truth == (c.Op == token.EQL)
		x, y := e.val(fr, st, c.X), e.val(fr, st, c.Y)
		e.narrow(fr, st, c.X, func(a *Atom) bool {
			t := st.eq(mk(a), y)
			return t == U || (t == T) == eq
		})
		e.narrow(fr, st, c.Y, func(a *Atom) bool {
			t := st.eq(x, mk(a))
			return t == U || (t == T) == eq
		})
	case *ssa.Extract, *ssa.Phi, *ssa.Parameter:
		e.narrow(fr, st, cond, func(a *Atom) bool { t := st.truthAtom(a); return t == U || (t == T) == truth })
		if ex, ok := cond.(*ssa.Extract); ok {
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk && ex.Index == 1 {
				e.narrowAssert(fr, st, ta, truth)
			}
		}
	}
}

func (e *Engine) narrowAssert(fr *frame, st *State, ta *ssa.TypeAssert, truth bool) {
	e.narrow(fr, st, ta.X, func(a *Atom) bool {
		if a.K == KIface {
			return typeMatches(a.T, ta.AssertedType) == truth
		}
		if a.K == KNil {
			return !truth
		}
		return true
	})
}

func typeMatches(dyn, asserted types.Type) bool {
	if it, ok := asserted.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, asserted)
}

func (e *Engine) narrow(fr *frame, st *State, v ssa.Value, keep func(a *Atom) bool) {
	av, ok := st.env[v]
	if !ok || av.top || len(av.atoms) < 2 {
		return
	}
	var out []*Atom
	for _, a := range av.atoms {
		if keep(a) {
			out = append(out, a)
		}
	}
	if len(out) == 0 || len(out) == len(av.atoms) {
		return
	}
	nv := mk(out...)
	old := av.Key()
	st.env[v] = nv
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if p := e.val(fr, st, ld.X).single(); p != nil {
			if o, path, t := st.target(p); o != nil && !o.Summary {
				if cur := st.read(o, path, t); cur.Key() == old {
					st.write(o.ID, path, t, nv, false)
				}
			}
		}
	}
	// other registers holding the very same set loaded from the same place
}

// ---- instructions ---------------------------------------------------------------------

func (e *Engine) set(st *State, v ssa.Value, av AV) []*State {
	st.env[v] = av
	return []*State{st}
}

func (e *Engine) site(fr *frame, ins ssa.Instruction) string {
	n := ""
	if v, ok := ins.(ssa.Value); ok {
		n = v.Name()
	} else {
		n = fmt.Sprintf("b%d", ins.Block().Index)
		for i, x := range ins.Block().Instrs {
			if x == ins {
				n += fmt.Sprintf(".%d", i)
			}
		}
	}
	return fr.ctx + ":" + n
}

func (e *Engine) unknown(fr *frame, st *State, ins ssa.Instruction, what string, t types.Type) AV {
	name, sum := st.fresh(what + "@" + e.site(fr, ins))
	return mk(&Atom{K: KSym, Name: name, T: t, Summary: sum})
}

func (e *Engine) instr(fr *frame, ins ssa.Instruction, st *State) []*State {
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		elem, _ := ptrElem(x.Type())
		if !x.Heap || onlyAppended(x) {
			// a local of the frame: running again zeroes the same storage
			id := "L:" + e.site(fr, x)
			st.heap[id] = &Obj{ID: id, T: elem, F: map[string]AV{}}
			return e.set(st, x, ptr(id, "", elem))
		}
		id, sum := st.fresh("A:" + e.site(fr, x))
		if sum && st.get(id) != nil {
			// reused summary object: contents become "old or zero"
			o := st.mut(id)
			o.Summary = true
		} else {
			st.heap[id] = &Obj{ID: id, T: elem, F: map[string]AV{}, Summary: sum}
		}
		return e.set(st, x, ptr(id, "", elem))
	case *ssa.UnOp:
		return e.unop(fr, x, st)
	case *ssa.BinOp:
		return e.set(st, x, e.binop(st, x.Op, e.val(fr, st, x.X), e.val(fr, st, x.Y), x.X.Type()))
	case *ssa.Store:
		e.store(fr, st, e.val(fr, st, x.Addr), e.val(fr, st, x.Val), x.Val.Type(), x)
		return []*State{st}
	case *ssa.FieldAddr:
		return e.fieldAddr(fr, x, st)
	case *ssa.Field:
		s, _ := x.X.Type().Underlying().(*types.Struct)
		f := s.Field(x.Field)
		v := e.val(fr, st, x.X)
		if isOpaqueStruct(x.X.Type()) {
			return e.set(st, x, app("field."+f.Name(), v))
		}
		return e.set(st, x, st.norm(project(v, f.Name(), f.Type())))
	case *ssa.IndexAddr:
		return e.indexAddr(fr, x, st)
	case *ssa.Index:
		return e.index(fr, x, st)
	case *ssa.Slice:
		return e.slice(fr, x, st)
	case *ssa.ChangeType:
		return e.set(st, x, e.val(fr, st, x.X))
	case *ssa.ChangeInterface:
		return e.set(st, x, e.val(fr, st, x.X))
	case *ssa.Convert:
		return e.set(st, x, e.convert(st, e.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return e.set(st, x, Top)
	case *ssa.SliceToArrayPointer:
		return e.set(st, x, Top)
	case *ssa.MakeInterface:
		v := e.val(fr, st, x.X)
		if v.top {
			id, sum := st.fresh("box@" + e.site(fr, x))
			v = mk(&Atom{K: KSym, Name: id, T: x.X.Type(), Summary: sum})
		}
		var out []*Atom
		for _, a := range v.atoms {
			out = append(out, &Atom{K: KIface, T: x.X.Type(), Args: []AV{mk(a)}})
		}
		return e.set(st, x, mk(out...))
	case *ssa.MakeMap:
		id, sum := st.fresh("M:" + e.site(fr, x))
		if o := st.get(id); o != nil && sum {
			n := st.mut(id)
			n.Summary = true
		} else {
			st.heap[id] = &Obj{ID: id, T: x.Type(), IsMap: true, F: map[string]AV{}, Ents: map[string]Ent{}, Summary: sum}
		}
		return e.set(st, x, mk(&Atom{K: KMap, Obj: id, T: x.Type()}))
	case *ssa.MakeSlice:
		n, ok := intConst(e.val(fr, st, x.Len))
		if ok && n < 0 {
			e.crash(fr, x)
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		if cp, is := intConst(e.val(fr, st, x.Cap)); e.arrays && is && ok && cp <= 64 {
			return e.set(st, x, e.newArray(st, e.site(fr, x), el, n, cp))
		}
		if ok && n <= 64 {
			// a backing array object, so that element stores are tracked
			id, sum := st.fresh("S:" + e.site(fr, x))
			st.heap[id] = &Obj{ID: id, T: types.NewArray(el, n), F: map[string]AV{}, Summary: sum}
			return e.set(st, x, mk(&Atom{K: KApp, Name: "slice", Args: []AV{ptr(id, "", types.NewArray(el, n)), cInt(0), cInt(n)}, T: x.Type(), NonNil: true}))
		}
		v := e.unknown(fr, st, x, "mkslice", x.Type())
		v.atoms[0].NonNil = true
		return e.set(st, x, v)
	case *ssa.MakeChan:
		v := e.unknown(fr, st, x, "chan", x.Type())
		v.atoms[0].NonNil = true
		return e.set(st, x, v)
	case *ssa.MakeClosure:
		var bs []AV
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, st, b))
		}
		return e.set(st, x, mk(&Atom{K: KFunc, Fn: x.Fn.(*ssa.Function), Args: bs, T: x.Type()}))
	case *ssa.MapUpdate:
		if m := e.val(fr, st, x.Map).single(); m != nil && m.K == KNil {
			e.crash(fr, x)
		}
		e.consumed(st, e.val(fr, st, x.Key), e.val(fr, st, x.Value), true)
		e.mapSet(fr, st, e.val(fr, st, x.Map), e.val(fr, st, x.Key), e.val(fr, st, x.Value), x.Map.Type(), x)
		return []*State{st}
	case *ssa.Lookup:
		return e.lookup(fr, x, st)
	case *ssa.Range:
		return e.rangeInit(fr, x, st)
	case *ssa.Next:
		return e.next(fr, x, st)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, x, st)
	case *ssa.Extract:
		tv := e.val(fr, st, x.Tuple)
		if a := tv.single(); a != nil && a.K == KTuple && x.Index < len(a.Args) {
			return e.set(st, x, st.norm(a.Args[x.Index]))
		}
		return e.set(st, x, Top)
	case *ssa.Call:
		outs := e.call(fr, st, &x.Call, x)
		var res []*State
		for _, o := range outs {
			switch len(o.res) {
			case 0:
				o.st.env[x] = Bottom
			case 1:
				o.st.env[x] = o.res[0]
			default:
				o.st.env[x] = tuple(o.res...)
			}
			res = append(res, o.st)
		}
		return res
	case *ssa.Defer:
		d := deferred{call: &x.Call, site: x, id: e.site(fr, x)}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(fr, st, a))
		}
		if !x.Call.IsInvoke() {
			d.fv = e.val(fr, st, x.Call.Value)
		} else {
			d.fv = e.val(fr, st, x.Call.Value)
		}
		nd := make([]deferred, len(st.defers)+1)
		copy(nd, st.defers)
		nd[len(st.defers)] = d
		if len(nd) > 12 {
			e.fail("too many deferred calls in " + shortName(fr.fn))
			nd = nd[:12]
		}
		st.defers = nd
		return []*State{st}
	case *ssa.RunDefers:
		cur := []*State{st}
		for len(cur) > 0 && len(cur[0].defers) > 0 {
			var next []*State
			done := true
			for _, s := range cur {
				if len(s.defers) == 0 {
					next = append(next, s)
					continue
				}
				done = false
				d := s.defers[len(s.defers)-1]
				s.defers = s.defers[:len(s.defers)-1]
				for _, o := range e.callWith(fr, s, d.call, d.site, d.fv, d.args) {
					next = append(next, o.st)
				}
			}
			cur = next
			if done {
				break
			}
		}
		return cur
	case *ssa.Go:
		return e.goCall(fr, x, st)
	case *ssa.Send:
		return []*State{st}
	case *ssa.Select:
		n := 2
		tt := x.Type().(*types.Tuple)
		vs := make([]AV, tt.Len())
		for i := range vs {
			vs[i] = Top
		}
		_ = n
		return e.set(st, x, tuple(vs...))
	}
	e.fail(fmt.Sprintf("unsupported instruction %T in %s", ins, shortName(fr.fn)))
	return []*State{st}
}

func (e *Engine) goCall(fr *frame, x *ssa.Go, st *State) []*State {
	for _, a := range x.Call.Args {
		e.havocReach(st, e.val(fr, st, a), map[string]bool{})
	}
	if !x.Call.IsInvoke() {
		e.havocReach(st, e.val(fr, st, x.Call.Value), map[string]bool{})
	}
	return []*State{st}
}

func (e *Engine) unop(fr *frame, x *ssa.UnOp, st *State) []*State {
	switch x.Op {
	case token.MUL: // load
		p := e.val(fr, st, x.X)
		v, ok := e.load(fr, st, p, x.Type(), x)
		if !ok {
			return nil // certain nil dereference on this path
		}
		return e.set(st, x, v)
	case token.NOT:
		v := e.val(fr, st, x.X)
		return e.set(st, x, notV(st, v))
	case token.SUB:
		v := e.val(fr, st, x.X)
		if a := v.single(); a != nil && a.K == KConst && isNum(a) {
			return e.set(st, x, mk(&Atom{K: KConst, C: constant.UnaryOp(token.SUB, a.C, 0)}))
		}
		return e.set(st, x, app("neg", v))
	case token.ARROW:
		v := e.unknown(fr, st, x, "recv", x.Type())
		if x.CommaOk {
			return e.set(st, x, tuple(Top, e.unknown(fr, st, x, "recvok", types.Typ[types.Bool])))
		}
		return e.set(st, x, v)
	}
	return e.set(st, x, Top)
}

func notV(st *State, v AV) AV {
	switch st.truth(v) {
	case T:
		return cBool(false)
	case F:
		return cBool(true)
	}
	if v.top {
		return Top
	}
	var out []*Atom
	for _, a := range v.atoms {
		if a.K == KConst {
			out = append(out, &Atom{K: KConst, C: constant.MakeBool(!constant.BoolVal(a.C))})
		} else if a.K == KApp && a.Name == "!" {
			out = append(out, a.Args[0].atoms...)
		} else {
			out = append(out, &Atom{K: KApp, Name: "!", Args: []AV{mk(a)}})
		}
	}
	return mk(out...)
}

func (e *Engine) load(fr *frame, st *State, p AV, t types.Type, ins ssa.Instruction) (AV, bool) {
	if p.top || p.isBottom() {
		return Top, true
	}
	out := Bottom
	any := false
	for _, a := range p.atoms {
		switch a.K {
		case KNil:
			continue
		case KPtr:
			o := st.get(a.Obj)
			if o == nil {
				return Top, true
			}
			any = true
			if g := e.globalVal(st, a); !g.isBottom() {
				out = union(out, g)
				continue
			}
			out = union(out, st.read(o, a.Path, t))
		case KSym:
			if st.isZeroAtom(a) == T {
				continue
			}
			o := st.symObj(a, t)
			any = true
			out = union(out, st.read(o, "", t))
		case KApp:
			if a.Name == "elemptr" {
				any = true
				out = union(out, elemOf(st, a.Args[0], a.Args[1], t))
				continue
			}
			return Top, true
		default:
			return Top, true
		}
	}
	if !any {
		e.nilPanics = append(e.nilPanics, e.p.pos(fr.fn, ins))
		return Bottom, false
	}
	return st.norm(out), true
}

// elemOf reads element i of a slice/array value.
// closedSeq: a list of known length.
func closedSeq(a *Atom) bool {
	for _, m := range a.Must {
		if !m {
			return false
		}
	}
	return !a.Open
}

func elemOf(st *State, s, i AV, t types.Type) AV {
	a := s.single()
	if a == nil {
		return Top
	}
	n, ok := intConst(i)
	switch a.K {
	case KSeq:
		if ok && !a.Open {
			allMust := true
			for k := 0; k <= int(n) && k < len(a.Args); k++ {
				if !a.Must[k] {
					allMust = false
				}
			}
			if allMust && int(n) < len(a.Args) && n >= 0 {
				return a.Args[n]
			}
		}
		if a.Open {
			return Top
		}
		out := Bottom
		for _, x := range a.Args {
			out = union(out, x)
		}
		if out.isBottom() {
			return Top
		}
		return out
	case KConst:
		if a.C.Kind() == constant.String && ok {
			if s := constant.StringVal(a.C); n >= 0 && int(n) < len(s) {
				return cInt(int64(s[n]))
			}
		}
	case KApp:
		if items, _, isB := byteParts(s); isB && ok && n >= 0 && int(n) < len(items) {
			return items[n]
		}
	case KSym:
		if st.get("DIRTY:"+a.Name) != nil {
			return Top
		}
		if ok {
			return st.norm(mk(&Atom{K: KSym, Name: a.Name + "[" + itoa(int(n)) + "]", T: t, Summary: a.Summary}))
		}
		if k := i.single(); k != nil && exact(k) {
			return st.norm(mk(&Atom{K: KSym, Name: a.Name + "[" + k.Key() + "]", T: t, Summary: a.Summary}))
		}
	}
	return Top
}

func (e *Engine) recordStore(fr *frame, st *State, id, path string, val, old AV, kind string, ins ssa.Instruction) {
	if fr == nil {
		return
	}
	ev := StoreEvent{Obj: id, Path: path, Val: val, Old: old, Kind: kind, Fn: shortName(fr.fn)}
	if ins != nil {
		ev.Pos = e.p.pos(fr.fn, ins)
	}
	k := kind + "|" + id + path + "|" + ev.Pos
	if !e.storeSeen[k] {
		e.storeSeen[k] = true
		e.stores = append(e.stores, ev)
	}
	if e.onStore != nil {
		e.onStore(ev)
	}
}

func (e *Engine) store(fr *frame, st *State, p, v AV, t types.Type, ins ssa.Instruction) {
	if p.top && e.laxStores {
		return
	}
	if p.top {
		e.fail("a store whose target is unknown at " + e.p.pos(fr.fn, ins))
		return
	}
	if p.isBottom() {
		return
	}
	weak := len(p.atoms) > 1
	for _, a := range p.atoms {
		switch a.K {
		case KPtr:
			if o := st.get(a.Obj); o != nil {
				old := AV{}
				if structOf(t) == nil && arrayOf(t) == nil {
					old = st.read(o, a.Path, t)
				}
				e.recordStore(fr, st, a.Obj, a.Path, v, old, "store", ins)
				st.write(a.Obj, a.Path, t, v, weak)
			}
		case KSym:
			o := st.symObj(a, t)
			old := AV{}
			if structOf(t) == nil && arrayOf(t) == nil {
				old = st.read(o, "", t)
			}
			e.recordStore(fr, st, o.ID, "", v, old, "store", ins)
			st.write(o.ID, "", t, v, weak)
		case KApp:
			if a.Name == "elemptr" {
				if s := a.Args[0].single(); s != nil {
					e.recordStore(fr, st, "elem:"+s.Key(), "", v, AV{}, "store", ins)
					if s.K == KSym {
						id := "DIRTY:" + s.Name
						st.heap[id] = &Obj{ID: id, T: t, F: map[string]AV{}}
					} else if s.K == KSeq {
						e.fail("an element of a list of unknown extent is overwritten")
					}
				}
			}
		}
	}
}

func (e *Engine) fieldAddr(fr *frame, x *ssa.FieldAddr, st *State) []*State {
	p := e.val(fr, st, x.X)
	elem, _ := ptrElem(x.X.Type())
	s := elem.Underlying().(*types.Struct)
	f := s.Field(x.Field)
	if p.top {
		return e.set(st, x, Top)
	}
	var out []*Atom
	for _, a := range p.atoms {
		switch a.K {
		case KPtr:
			out = append(out, &Atom{K: KPtr, Obj: a.Obj, Path: a.Path + "." + f.Name(), T: f.Type()})
		case KSym:
			if st.isZeroAtom(a) == T {
				continue
			}
			o := st.symObj(a, elem)
			out = append(out, &Atom{K: KPtr, Obj: o.ID, Path: "." + f.Name(), T: f.Type()})
			if len(p.atoms) == 1 {
				st.setZero(a, false)
			}
		case KNil:
		default:
			return e.set(st, x, Top)
		}
	}
	if len(out) == 0 {
		if len(p.atoms) > 0 {
			e.nilPanics = append(e.nilPanics, e.p.pos(fr.fn, x))
			return nil
		}
		return e.set(st, x, Top)
	}
	return e.set(st, x, mk(out...))
}

func (e *Engine) indexAddr(fr *frame, x *ssa.IndexAddr, st *State) []*State {
	p := e.val(fr, st, x.X)
	i := e.val(fr, st, x.Index)
	elem, _ := ptrElem(x.Type())
	n, ok := intConst(i)
	if p.top {
		return e.set(st, x, Top)
	}
	var out []*Atom
	direct := true // elements only loaded whole
	for _, r := range *x.Referrers() {
		switch r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			direct = false
		}
	}
	if !direct {
		p = AV{atoms: append([]*Atom{}, p.atoms...)}
		for k, a := range p.atoms {
			if a.K == KSeq && closedSeq(a) {
				p.atoms[k] = st.own(a, e.site(fr, x), elem)
			}
		}
	}
	for _, a := range p.atoms {
		switch {
		case a.K == KPtr: // pointer to array
			if at := arrayOf(a.T); ok && at != nil && n >= 0 && n < at.Len() {
				out = append(out, &Atom{K: KPtr, Obj: a.Obj, Path: a.Path + "[" + itoa(int(n)) + "]", T: elem})
			} else if at != nil && at.Len() <= 32 && !ok {
				for k := int64(0); k < at.Len(); k++ {
					out = append(out, &Atom{K: KPtr, Obj: a.Obj, Path: a.Path + "[" + itoa(int(k)) + "]", T: elem})
				}
			} else {
				if at != nil && ok {
					e.crash(fr, x)
				}
				return e.set(st, x, Top)
			}
		case a.K == KApp && a.Name == "slice":
			b := a.Args[0].single()
			lo, ok1 := intConst(a.Args[1])
			hi, ok2 := intConst(a.Args[2])
			if b != nil && b.K == KPtr && ok && ok1 && ok2 && n >= 0 && lo+n < hi {
				out = append(out, &Atom{K: KPtr, Obj: b.Obj, Path: b.Path + "[" + itoa(int(lo+n)) + "]", T: elem})
			} else if b != nil && b.K == KPtr && !ok && ok1 && ok2 && hi-lo <= 32 {
				for k := lo; k < hi; k++ {
					out = append(out, &Atom{K: KPtr, Obj: b.Obj, Path: b.Path + "[" + itoa(int(k)) + "]", T: elem})
				}
			} else {
				if ok && ok1 && ok2 && len(p.atoms) == 1 {
					e.crash(fr, x)
				}
				return e.set(st, x, Top)
			}
		case a.K == KNil:
		default:
			if ok && len(p.atoms) == 1 && (n < 0 || tooFar(a, n)) {
				e.crash(fr, x)
			}
			out = append(out, &Atom{K: KApp, Name: "elemptr", Args: []AV{mk(a), i}, NonNil: true})
		}
	}
	if len(out) == 0 {
		return nil // index of nil slice panics
	}
	return e.set(st, x, mk(out...))
}

// tooFar: a list or text of known length has no element n.
func tooFar(a *Atom, n int64) bool {
	switch {
	case a.K == KSeq:
		return closedSeq(a) && n >= int64(len(a.Args))
	case a.K == KConst && a.C.Kind() == constant.String || a.K == KApp && a.Name == "peeked":
		items, open, ok := byteParts(mk(a))
		return ok && !open && n >= int64(len(items))
	}
	return false
}

func (e *Engine) index(fr *frame, x *ssa.Index, st *State) []*State {
	v, i := e.val(fr, st, x.X), e.val(fr, st, x.Index)
	if s, ok := strConst(v); ok {
		if n, ok := intConst(i); ok && n >= 0 && n < int64(len(s)) {
			return e.set(st, x, cInt(int64(s[n])))
		} else if ok {
			e.crash(fr, x)
		}
	}
	if a := v.single(); a != nil && a.K == KStruct {
		if n, ok := intConst(i); ok && n >= 0 && int(n) < len(a.Args) {
			return e.set(st, x, a.Args[n])
		}
	}
	return e.set(st, x, app("index", v, i))
}

// sliceParts views a slice value as a sequence snapshot.
func (e *Engine) asSeq(st *State, v AV) *Atom {
	a := v.single()
	if a == nil {
		return nil
	}
	switch a.K {
	case KSeq:
		return a
	case KNil:
		return &Atom{K: KSeq}
	case KZero:
		return &Atom{K: KSeq}
	case KApp:
		if a.Name == "slice" {
			b := a.Args[0].single()
			lo, ok1 := intConst(a.Args[1])
			hi, ok2 := intConst(a.Args[2])
			if b == nil || b.K != KPtr || !ok1 || !ok2 {
				return nil
			}
			at := arrayOf(b.T)
			o := st.get(b.Obj)
			if at == nil || o == nil {
				return nil
			}
			out := &Atom{K: KSeq, T: a.T}
			for k := lo; k < hi; k++ {
				out.Args = append(out.Args, st.read(o, b.Path+"["+itoa(int(k))+"]", at.Elem()))
				out.Must = append(out.Must, true)
			}
			return out
		}
	}
	return nil
}

func (e *Engine) slice(fr *frame, x *ssa.Slice, st *State) []*State {
	v := e.val(fr, st, x.X)
	lo, hi := cInt(0), AV{}
	if x.Low != nil {
		lo = e.val(fr, st, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, st, x.High)
	}
	full := x.Low == nil && x.High == nil
	if s, ok := strConst(v); ok {
		l, ok1 := intConst(lo)
		h := int64(len(s))
		ok2 := true
		if x.High != nil {
			h, ok2 = intConst(hi)
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return e.set(st, x, cStr(s[l:h]))
		}
		if ok1 && ok2 {
			return nil // out of range: panics
		}
	}
	a := v.single()
	if a != nil && a.K == KPtr { // array
		at := arrayOf(a.T)
		l, ok1 := intConst(lo)
		var h int64
		ok2 := true
		if at != nil {
			h = at.Len()
		}
		if x.High != nil {
			h, ok2 = intConst(hi)
		}
		if at != nil && full {
			// a digest
			if o := st.get(a.Obj); o != nil && at.Len() == 32 {
				if d := st.read(o, a.Path, at).single(); d != nil && d.K == KStruct {
					whole := AV{}
					for i, b := range d.Args {
						y := b.single()
						if y == nil || y.K != KApp || y.Name != "byteof" || y.Args[1].Key() != cStr(itoa(i)).Key() || i > 0 && !sameAV(whole, y.Args[0]) {
							whole = AV{}
							break
						}
						whole = y.Args[0]
					}
					if w := whole.single(); w != nil {
						return e.set(st, x, app(w.Name, w.Args...))
					}
				}
			}
		}
		if at != nil && ok1 && ok2 {
			if l < 0 || l > h || h > at.Len() {
				e.crash(fr, x)
			}
			return e.set(st, x, mk(&Atom{K: KApp, Name: "slice", Args: []AV{v, cInt(l), cInt(h)}, T: x.Type(), NonNil: true}))
		}
		if at != nil {
			return e.set(st, x, mk(&Atom{K: KApp, Name: "subarr", Args: []AV{v, lo, orTop(hi)}, T: x.Type(), NonNil: true}))
		}
	}
	if a != nil && a.K == KApp && a.Name == "slice" {
		l0, _ := intConst(a.Args[1])
		h0, _ := intConst(a.Args[2])
		l, ok1 := intConst(lo)
		h := h0 - l0
		ok2 := true
		if x.High != nil {
			h, ok2 = intConst(hi)
		}
		if ok1 && ok2 {
			if b := a.Args[0].single(); l < 0 || l > h || b != nil && arrayOf(b.T) != nil && l0+h > arrayOf(b.T).Len() {
				e.crash(fr, x)
			}
			return e.set(st, x, mk(&Atom{K: KApp, Name: "slice", Args: []AV{a.Args[0], cInt(l0 + l), cInt(l0 + h)}, T: x.Type(), NonNil: true}))
		}
	}
	if a != nil && a.K == KSeq && !a.Open {
		l, ok1 := intConst(lo)
		h := int64(len(a.Args))
		ok2 := true
		all := true
		for _, m := range a.Must {
			all = all && m
		}
		if x.High != nil {
			h, ok2 = intConst(hi)
		}
		if ok1 && ok2 && all && l >= 0 && l <= h && int(h) <= len(a.Args) {
			return e.set(st, x, mk(&Atom{K: KSeq, T: a.T, Args: a.Args[l:h], Must: a.Must[l:h]}))
		}
		if ok1 && ok2 && all && (l < 0 || l > h) {
			e.crash(fr, x)
		}
	}
	if full {
		return e.set(st, x, v)
	}
	if v.top {
		return e.set(st, x, Top)
	}
	if a != nil && a.K == KApp && a.Name == "peeked" {
		items, _, _ := byteParts(v)
		l, ok1 := intConst(lo)
		h, ok2 := intConst(hi)
		switch {
		case ok1 && x.High == nil && l >= 0 && int(l) <= len(items):
			return e.set(st, x, peeked(items[l:], true))
		case ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(items):
			return e.set(st, x, peeked(items[l:h], false))
		case ok1 && (l < 0 || int(l) > len(items)) || ok1 && ok2 && l > h:
			if _, open, ok := byteParts(v); ok && !open {
				e.crash(fr, x)
			}
		}
		return e.set(st, x, Top)
	}
	return e.set(st, x, app("substr", v, lo, orTopSym(hi)))
}

func orTop(v AV) AV {
	if v.isBottom() {
		return Top
	}
	return v
}

func orTopSym(v AV) AV {
	if v.isBottom() {
		return mk(&Atom{K: KConst, C: constant.MakeString("end")})
	}
	return v
}

func isStringy(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte || b.Kind() == types.Uint8
		}
	}
	return false
}

func isRunes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (e *Engine) convert(st *State, v AV, from, to types.Type) AV {
	if isStringy(from) && isStringy(to) {
		if _, isSl := to.Underlying().(*types.Slice); isSl {
			// []byte(s) is never nil but content is what we track
			return v
		}
		if e.byteMode() {
			return e.bytesVal(st, e.seqView(st, v))
		}
		return v
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if isRunes(from) && ok2 && tb.Info()&types.IsString != 0 {
		if q := e.asSeq(st, v); q != nil && closedSeq(q) {
			s, ok := []rune{}, true
			for _, x := range q.Args {
				n, is := intConst(st.norm(x))
				s, ok = append(s, rune(n)), ok && is
			}
			if ok {
				return cStr(string(s))
			}
		}
	}
	if ok1 && isRunes(to) {
		if s, ok := strConst(v); ok {
			var out []AV
			for _, r := range s {
				out = append(out, cInt(int64(r)))
			}
			return seqOf(to, out...)
		}
	}
	if ok1 && ok2 {
		if a := v.single(); a != nil && a.K == KConst {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
				if n, ok := constant.Int64Val(constant.ToInt(a.C)); ok {
					return cStr(string(rune(n)))
				}
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				return wrapConst(a.C, tb)
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 {
				return foldFloat(a.C, tb)
			}
			if f, ok := constant.Float64Val(a.C); e.arrays && (ok || f != 0) && math.Abs(f) < 1<<52 && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
				return wrapConst(constant.MakeInt64(int64(f)), tb)
			}
			if e.byteMode() && fb.Kind() == types.Float32 && tb.Kind() == types.Float64 {
				return v
			}
		}
		if fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
			if fb.Kind() == tb.Kind() {
				return v
			}
			out := app("conv:"+tb.Name(), v)
			if a := v.single(); a != nil && a.NonNil && isInt64(fb) && isInt64(tb) {
				out.atoms[0].NonNil = true
			}
			return out
		}
		if tb.Info()&types.IsString != 0 {
			return app("string", v)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return app("conv:"+typeKey(to), v)
}

func lenOf(e *Engine, st *State, v AV) AV {
	a := v.single()
	if a == nil {
		if v.top {
			return Top
		}
		out := Bottom
		for _, x := range v.atoms {
			out = union(out, lenOf(e, st, mk(x)))
		}
		return out
	}
	if s, ok := strConst(v); ok {
		return cInt(int64(len(s)))
	}
	if items, open, ok := byteParts(v); ok && open {
		return mk(&Atom{K: KApp, Name: "len", Args: []AV{v}, T: types.Typ[types.Int], NonNil: len(items) > 0})
	}
	if a.K == KApp && a.Name == "line" {
		return mk(&Atom{K: KApp, Name: "len", Args: []AV{v}, T: types.Typ[types.Int], NonNil: true})
	}
	switch a.K {
	case KNil, KZero:
		return cInt(0)
	case KSeq:
		if !a.Open {
			all := true
			for _, m := range a.Must {
				all = all && m
			}
			if all {
				return cInt(int64(len(a.Args)))
			}
			for _, m := range a.Must {
				if m {
					return mk(&Atom{K: KApp, Name: "len", Args: []AV{v}, T: types.Typ[types.Int], NonNil: true})
				}
			}
		}
		return mk(&Atom{K: KApp, Name: "len", Args: []AV{v}, T: types.Typ[types.Int]})
	case KMap:
		o := st.get(a.Obj)
		if o != nil && !o.Havoc {
			n, exactN := 0, o.Rest == RNone
			must := false
			for _, en := range o.Ents {
				switch en.P {
				case PMust:
					n++
					must = true
				case PMay, PInit:
					exactN = false
				}
			}
			if exactN {
				return cInt(int64(n))
			}
			// length of a mutable object: not a pure function of its identity
			name, sum := st.fresh("len:" + a.Obj)
			return mk(&Atom{K: KSym, Name: name, T: types.Typ[types.Int], Summary: sum, NonNil: must})
		}
		return Top
	case KApp:
		if a.Name == "slice" {
			lo, ok1 := intConst(a.Args[1])
			hi, ok2 := intConst(a.Args[2])
			if ok1 && ok2 {
				return cInt(hi - lo)
			}
		}
	case KSym:
		if o := st.get(a.Name + "*"); o != nil && o.IsMap {
			for _, en := range o.Ents {
				if en.P == PMust {
					name, sum := st.fresh("len:" + o.ID)
					return mk(&Atom{K: KSym, Name: name, T: types.Typ[types.Int], Summary: sum, NonNil: true})
				}
			}
			if len(o.Ents) > 0 || o.Rest != RInit {
				name, sum := st.fresh("len:" + o.ID)
				return mk(&Atom{K: KSym, Name: name, T: types.Typ[types.Int], Summary: sum})
			}
		}
	}
	if isStringVal(a) && st.isZeroAtom(a) == F {
		return mk(&Atom{K: KApp, Name: "len", Args: []AV{v}, T: types.Typ[types.Int], NonNil: true})
	}
	return mk(&Atom{K: KApp, Name: "len", Args: []AV{v}, T: types.Typ[types.Int]})
}

func isStringVal(a *Atom) bool {
	if a.K == KApp && (a.Name == "cat") {
		return true
	}
	if a.T == nil {
		return false
	}
	b, ok := a.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) binop(st *State, op token.Token, x, y AV, t types.Type) AV {
	switch op {
	case token.EQL, token.NEQ:
		r := st.eq(x, y)
		if r == U {
			// len(s) compared with zero, for strings, is the string's own emptiness
			if z := lenZero(x, y); z != nil {
				v := app("==", mk(z), cStr(""))
				if st.isZeroAtom(z) != U {
					r = st.isZeroAtom(z)
				} else {
					if op == token.NEQ {
						return notV(st, v)
					}
					return v
				}
			}
		}
		if r != U {
			if op == token.NEQ {
				r = r.not()
			}
			return cBool(r == T)
		}
		if x.top || y.top {
			return Top
		}
		v := app("==", x, y)
		if op == token.NEQ {
			return notV(st, v)
		}
		return v
	case token.ADD:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return cat(x, y)
		}
	}
	xa, ya := x.single(), y.single()
	if xa != nil && ya != nil && xa.K == KConst && ya.K == KConst {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if xa.C.Kind() == ya.C.Kind() || isNum(xa) && isNum(ya) {
				return cBool(constant.Compare(xa.C, op, ya.C))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT, token.REM:
			if isNum(xa) && isNum(ya) {
				if op == token.REM && constant.Sign(ya.C) == 0 {
					return Top
				}
				if isFloat(t) && (isInf(xa.C) || isInf(ya.C)) {
					return Top
				}
				r := constant.BinaryOp(xa.C, op, ya.C)
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return wrapConst(r, b)
				}
				return foldFloat(r, t)
			}
		case token.QUO:
			if isNum(xa) && isNum(ya) && constant.Sign(ya.C) != 0 {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return wrapConst(constant.BinaryOp(constant.ToInt(xa.C), token.QUO_ASSIGN, constant.ToInt(ya.C)), b)
				}
				if isInf(xa.C) || isInf(ya.C) {
					return Top
				}
				return foldFloat(constant.BinaryOp(xa.C, token.QUO, ya.C), t)
			}
		case token.SHL, token.SHR:
			if isNum(xa) && isNum(ya) {
				if n, ok := constant.Uint64Val(constant.ToInt(ya.C)); ok && n < 64 {
					r := constant.Shift(constant.ToInt(xa.C), op, uint(n))
					if b, ok := t.Underlying().(*types.Basic); ok {
						return wrapConst(r, b)
					}
				}
			}
		}
		return Top
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if v, ok := e.lenCompare(st, op, x, y); ok {
			return v
		}
		if x.top || y.top {
			return Top
		}
		return app(op.String(), x, y)
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if x.top || y.top {
			return Top
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (op == token.ADD || op == token.SUB) {
			if v, ok := offset(op, x, y); ok {
				return v
			}
		}
		return app(op.String(), x, y)
	}
	return Top
}

// offset gives sums and differences with constants one form: x+c.
func offset(op token.Token, x, y AV) (AV, bool) {
	if op == token.ADD {
		if _, ok := intConst(x); ok {
			x, y = y, x
		}
	}
	c, ok := intConst(y)
	if !ok || c == -c && c != 0 {
		return AV{}, false
	}
	if op == token.SUB {
		c = -c
	}
	if a := x.single(); a != nil && a.K == KApp && a.Name == "+" && len(a.Args) == 2 {
		if d, ok := intConst(a.Args[1]); ok {
			c += d
			x = a.Args[0]
		}
	}
	switch {
	case c == 0:
		return x, true
	case c > 0 || op == token.ADD:
		return app("+", x, cInt(c)), true
	}
	return app("-", x, cInt(-c)), true
}

// lenZero recognises len(s) == 0 with s a string value, returning s.
func lenZero(x, y AV) *Atom {
	a, b := x.single(), y.single()
	if a == nil || b == nil {
		return nil
	}
	if a.K == KConst {
		a, b = b, a
	}
	if a.K == KApp && a.Name == "len" && b.K == KConst && isNum(b) && constant.Sign(b.C) == 0 {
		if s := a.Args[0].single(); s != nil && isStringVal(s) {
			return s
		}
	}
	return nil
}

// lenCompare: non-negative quantities compared with 0 or 1.
func (e *Engine) lenCompare(st *State, op token.Token, x, y AV) (AV, bool) {
	a, b := x.single(), y.single()
	if a == nil || b == nil {
		return AV{}, false
	}
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	if a.K == KConst && b.K != KConst {
		a, b = b, a
		x, y = y, x
		op = flip[op]
	}
	isLen := a.K != KConst && nonNeg(mk(a))
	if !isLen || b.K != KConst || !isNum(b) {
		return AV{}, false
	}
	n, ok := constant.Int64Val(constant.ToInt(b.C))
	if !ok {
		return AV{}, false
	}
	if a.K == KApp && a.Name == "len" {
		if items, open, ok := byteParts(a.Args[0]); ok && open && int64(len(items)) > 0 {
			// at least so many
			k := int64(len(items))
			switch {
			case op == token.GEQ && k >= n, op == token.GTR && k > n:
				return cBool(true), true
			case op == token.LSS && k >= n, op == token.LEQ && k > n:
				return cBool(false), true
			}
		}
	}
	nonzero := false
	switch {
	case op == token.GTR && n == 0, op == token.GEQ && n == 1:
		nonzero = true
	case op == token.LSS && n == 1, op == token.LEQ && n == 0:
	case op == token.GEQ && n == 0:
		return cBool(true), true
	case op == token.LSS && n == 0:
		return cBool(false), true
	default:
		return AV{}, false
	}
	z := e.binop(st, token.EQL, x, cInt(0), types.Typ[types.Int])
	if nonzero {
		z = notV(st, z)
	}
	return z, true
}

func (e *Engine) typeAssert(fr *frame, x *ssa.TypeAssert, st *State) []*State {
	v := e.val(fr, st, x.X)
	mkres := func(s *State, val AV, ok bool) *State {
		if x.CommaOk {
			s.env[x] = tuple(val, cBool(ok))
		} else {
			s.env[x] = val
		}
		return s
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if v.top {
		n, sum := st.fresh("assert@" + e.site(fr, x))
		val := mk(&Atom{K: KSym, Name: n, T: x.AssertedType, Summary: sum})
		if !x.CommaOk {
			return []*State{mkres(st, val, true)}
		}
		s2 := st.clone()
		return []*State{mkres(st, val, true), mkres(s2, zeroOf(x.AssertedType), false)}
	}
	var yes []*Atom
	no := false
	var yesSrc, noSrc []*Atom
	for _, a := range v.atoms {
		switch a.K {
		case KNil:
			no = true
			noSrc = append(noSrc, a)
		case KIface:
			if typeMatches(a.T, x.AssertedType) {
				if toIface {
					yes = append(yes, a)
				} else {
					yes = append(yes, a.Args[0].atoms...)
				}
				yesSrc = append(yesSrc, a)
			} else {
				no = true
				noSrc = append(noSrc, a)
			}
		case KSym, KApp:
			if toIface {
				if st.isZeroAtom(a) != T {
					yes = append(yes, a)
				}
				// an unknown implementation may or may not have the methods
				if a.T == nil || !implementsAll(a.T, x.AssertedType) || st.isZeroAtom(a) != F {
					no = true
				}
			} else {
				if nn := assertSym(st, a, x.AssertedType); nn != nil {
					yes = append(yes, nn)
				} else {
					n, sum := st.fresh("assert@" + e.site(fr, x))
					yes = append(yes, &Atom{K: KSym, Name: n, T: x.AssertedType, Summary: sum})
				}
				no = true
			}
			yesSrc = append(yesSrc, a)
			noSrc = append(noSrc, a)
		default:
			return e.set(st, x, Top)
		}
	}
	_ = yesSrc
	_ = noSrc
	var out []*State
	if len(yes) > 0 {
		s := st
		if no {
			s = st.clone()
		}
		out = append(out, mkres(s, mk(yes...), true))
	}
	if no {
		if x.CommaOk {
			out = append(out, mkres(st, zeroOf(x.AssertedType), false))
		}
	}
	return out
}

func implementsAll(static, asserted types.Type) bool {
	it, ok := asserted.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	return types.Implements(static, it)
}

// assertSym names the result of asserting an unknown interface value to T.
func assertSym(st *State, a *Atom, t types.Type) *Atom {
	if a.K == KSym && !a.Summary {
		if strings.HasSuffix(a.Name, ":any") {
			return &Atom{K: KSym, Name: strings.TrimSuffix(a.Name, ":any") + ":" + typeKey(t), T: t}
		}
		return &Atom{K: KSym, Name: a.Name + ".(" + typeKey(t) + ")", T: t}
	}
	return nil
}

// onlyAppended: the argument list of an append, whose elements are copied.
func onlyAppended(x *ssa.Alloc) bool {
	if x.Comment != "varargs" {
		return false
	}
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.Slice:
			for _, q := range *u.Referrers() {
				c, ok := q.(*ssa.Call)
				if !ok {
					return false
				}
				b, ok := c.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "append" || c.Call.Args[0] == ssa.Value(u) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// wrapConst: an integer of the given type, modulo its size.
func wrapConst(c constant.Value, b *types.Basic) AV {
	i := constant.ToInt(c)
	if i.Kind() != constant.Int {
		return Top
	}
	size := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		size = 8
	case types.Int16, types.Uint16:
		size = 16
	case types.Int32, types.Uint32:
		size = 32
	}
	one := constant.MakeInt64(1)
	mod := constant.Shift(one, token.SHL, size)
	i = constant.BinaryOp(i, token.AND, constant.BinaryOp(mod, token.SUB, one))
	if b.Info()&types.IsUnsigned == 0 && constant.Compare(i, token.GEQ, constant.Shift(one, token.SHL, size-1)) {
		i = constant.BinaryOp(i, token.SUB, mod)
	}
	return mk(&Atom{K: KConst, C: i})
}

// infinity stands for the infinity of the sign: a number greater than every float.
func infinity(sign int) constant.Value {
	v := constant.MakeFromLiteral("1e400", token.FLOAT, 0)
	if sign < 0 {
		return constant.UnaryOp(token.SUB, v, 0)
	}
	return v
}

func isInt64(b *types.Basic) bool {
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64:
		return true
	}
	return false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isInf(c constant.Value) bool {
	f, _ := constant.Float64Val(c)
	return math.IsInf(f, 0)
}

// foldFloat: a result of floating point arithmetic, rounded as the type has it.
func foldFloat(c constant.Value, t types.Type) AV {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Top
	}
	switch b.Kind() {
	case types.Float64:
		f, _ := constant.Float64Val(c)
		if math.IsInf(f, 0) {
			return mk(&Atom{K: KConst, C: infinity(constant.Sign(c))})
		}
		return mk(&Atom{K: KConst, C: constant.MakeFloat64(f)})
	case types.Float32:
		f, _ := constant.Float32Val(c)
		if math.IsInf(float64(f), 0) {
			return mk(&Atom{K: KConst, C: infinity(constant.Sign(c))})
		}
		return mk(&Atom{K: KConst, C: constant.MakeFloat64(float64(f))})
	}
	return mk(&Atom{K: KConst, C: c})
}
