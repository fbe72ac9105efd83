package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An inclusion-based, field-sensitive points-to and effect analysis of one
// exported function and everything it calls in the repository. Memory that
// existed before the call is named by the access path that leads to it from a
// parameter ("ds.Structure.Schema"), memory allocated during the call by its
// allocation site and calling context. The result is the set of memory written
// and what every place may hold afterwards. The analysis ignores the order of
// statements, so it finds every write, whatever path leads to it.

type loc struct {
	obj  *eobj
	path string
}

type pset map[loc]bool

// eval is the content of a register: for every pointer-like place in the value
// (path within the value), what it may point to.
type eval map[string]pset

func (v eval) add(path string, l loc) bool {
	s := v[path]
	if s == nil {
		s = pset{}
		v[path] = s
	}
	if s[l] {
		return false
	}
	s[l] = true
	return true
}

func (v eval) addAll(path string, from pset) bool {
	ch := false
	for l := range from {
		if v.add(path, l) {
			ch = true
		}
	}
	return ch
}

// sub is the value found at a place inside v.
func (v eval) sub(prefix string) eval {
	out := eval{}
	for p, s := range v {
		if strings.HasPrefix(p, prefix) {
			out[p[len(prefix):]] = s
		}
	}
	return out
}

type eobj struct {
	id      string
	in      bool // existed before the call
	depth   int
	typ     types.Type // of what it stores, when known
	dyn     types.Type // boxed in an interface with this dynamic type
	fn      *ssa.Function
	content map[string]pset
	site    string
	parent  *eobj  // where it was reached from
	via     string // the struct field it was reached through
	// volatile: library memory that the named library object reuses
	volatile string
	stored   map[string]pset // content put there by the analysed code
	kept     bool            // stored into memory that existed before the call
}

type write struct {
	at   loc
	site string
	fn   string
	how  string
}

type ectx struct {
	id   int
	fn   *ssa.Function
	args []eval
	env  map[ssa.Value]eval
	res  []eval
}

type effects struct {
	p       *Program
	objs    map[string]*eobj
	ctxs    map[string]*ectx
	order   []*ectx
	perFn   map[*ssa.Function][]*ectx
	writes  map[loc]write
	changed bool
	instrs  int
	over    map[*ssa.UnOp]bool
	unknown map[string]bool // external functions called
}

func newEffects(p *Program) *effects {
	return &effects{p: p, objs: map[string]*eobj{}, ctxs: map[string]*ectx{}, perFn: map[*ssa.Function][]*ectx{}, writes: map[loc]write{}, unknown: map[string]bool{}, over: map[*ssa.UnOp]bool{}}
}

const maxCtx = 16

// eleaf is a pointer-like place inside a value of some type.
type eleaf struct {
	path string
	t    types.Type
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func eleavesOf(t types.Type) []eleaf { return eleavesIn(t, "", 0) }

func eleavesIn(t types.Type, pre string, d int) []eleaf {
	if d > 8 {
		return nil
	}
	if pointerLike(t) {
		return []eleaf{{pre, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return nil // opaque library state
		}
		var out []eleaf
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, eleavesIn(u.Field(i).Type(), pre+"."+u.Field(i).Name(), d+1)...)
		}
		return out
	case *types.Array:
		return eleavesIn(u.Elem(), pre+"[]", d+1)
	case *types.Tuple:
		var out []eleaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, eleavesIn(u.At(i).Type(), fmt.Sprintf("#%d", i)+pre, d+1)...)
		}
		return out
	}
	return nil
}

func (f *effects) obj(id, site string) *eobj {
	o := f.objs[id]
	if o == nil {
		o = &eobj{id: id, content: map[string]pset{}, site: site}
		f.objs[id] = o
		f.changed = true
	}
	return o
}

// inObj names memory that existed before the call.
func (f *effects) inObj(id string, depth int, t types.Type) *eobj {
	o := f.obj(id, "")
	if !o.in {
		o.in, o.depth, o.typ = true, depth, t
	}
	return o
}

// at gives what a pointer-like place of an object may point to.
func (f *effects) at(l loc, t types.Type) pset {
	o := l.obj
	if o == nil {
		return nil
	}
	if o.in {
		if o.content[l.path] == nil {
			o.content[l.path] = pset{}
		}
		id := o.id + l.path
		if l.path == "" {
			id += "*"
		}
		if o.depth >= 9 {
			id = o.id // summary of everything further down
		}
		child := f.inObj(id, o.depth+1, t)
		if child != o && child.parent == nil {
			child.parent = o
			if o.typ != nil {
				child.via = viaName(o.typ, l.path)
			}
		}
		o.content[l.path][loc{child, ""}] = true
	}
	return o.content[l.path]
}

func (f *effects) load(ptr pset, t types.Type) eval {
	out := eval{}
	for _, lf := range eleavesOf(t) {
		for l := range ptr {
			for x := range f.at(loc{l.obj, l.path + lf.path}, lf.t) {
				out.add(lf.path, x)
			}
		}
	}
	return out
}

func (f *effects) put(ptr pset, v eval, t types.Type) {
	for _, lf := range eleavesOf(t) {
		src := v[lf.path]
		if len(src) == 0 {
			continue
		}
		for l := range ptr {
			o := l.obj
			if o == nil {
				continue
			}
			k := l.path + lf.path
			if o.content[k] == nil {
				o.content[k] = pset{}
			}
			for x := range src {
				if o.in {
					if o.stored == nil {
						o.stored = map[string]pset{}
					}
					if o.stored[k] == nil {
						o.stored[k] = pset{}
					}
					if !o.stored[k][x] {
						o.stored[k][x] = true
						f.changed = true
					}
					if t := x.obj; t != nil && !t.in && !t.kept {
						t.kept = true
						f.changed = true
					}
				}
				if !o.content[k][x] {
					o.content[k][x] = true
					f.changed = true
				}
			}
		}
	}
}

func (f *effects) wrote(ptr pset, suffix string, c *ectx, in ssa.Instruction, how string) {
	for l := range ptr {
		k := loc{l.obj, l.path + suffix}
		if _, ok := f.writes[k]; !ok {
			f.writes[k] = write{k, f.p.pos(c.fn, in), shortName(c.fn), how}
			f.changed = true
		}
	}
}

func shift(s pset, suffix string) pset {
	out := pset{}
	for l := range s {
		p := l.path + suffix
		if strings.Count(p, "[]") > 6 || len(p) > 200 {
			p = l.path
		}
		out[loc{l.obj, p}] = true
	}
	return out
}

// root analyses one function with every parameter holding memory of its own.
func (f *effects) root(fn *ssa.Function, names []string) *ectx {
	var args []eval
	for i, pa := range fn.Params {
		v := eval{}
		for _, lf := range eleavesOf(pa.Type()) {
			o := f.inObj(names[i]+lf.path, 0, lf.t)
			v.add(lf.path, loc{o, ""})
		}
		args = append(args, v)
	}
	c := f.context(fn, args)
	for round := 0; round < 60; round++ {
		f.changed = false
		for i := len(f.order) - 1; i >= 0; i-- {
			f.pass(f.order[i])
		}
		if !f.changed {
			return c
		}
	}
	return nil
}

func argKey(args []eval) string {
	var sb strings.Builder
	for i, a := range args {
		ps := make([]string, 0, len(a))
		for p, s := range a {
			ls := make([]string, 0, len(s))
			for l := range s {
				ls = append(ls, l.obj.id+"@"+l.path)
			}
			sort.Strings(ls)
			ps = append(ps, p+"="+strings.Join(ls, ","))
		}
		sort.Strings(ps)
		fmt.Fprintf(&sb, "%d{%s}", i, strings.Join(ps, ";"))
	}
	return sb.String()
}

func (f *effects) context(fn *ssa.Function, args []eval) *ectx {
	k := fn.String() + "/" + argKey(args)
	if c := f.ctxs[k]; c != nil {
		return c
	}
	if cs := f.perFn[fn]; len(cs) >= maxCtx {
		c := cs[len(cs)-1]
		for i := range args {
			for p, s := range args[i] {
				if c.args[i].addAll(p, s) {
					f.changed = true
				}
			}
		}
		return c
	}
	c := &ectx{id: len(f.order), fn: fn, env: map[ssa.Value]eval{}}
	for _, a := range args {
		n := eval{}
		for p, s := range a {
			n.addAll(p, s)
		}
		c.args = append(c.args, n)
	}
	n := fn.Signature.Results().Len()
	for i := 0; i < n; i++ {
		c.res = append(c.res, eval{})
	}
	f.ctxs[k] = c
	f.perFn[fn] = append(f.perFn[fn], c)
	f.order = append(f.order, c)
	f.changed = true
	return c
}

func (f *effects) val(c *ectx, v ssa.Value) eval {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		o := f.inObj("global "+shortStr(x.String()), 0, x.Type())
		return eval{"": pset{loc{o, ""}: true}}
	case *ssa.Function:
		o := f.obj("func "+x.String(), "")
		o.fn = x
		return eval{"": pset{loc{o, ""}: true}}
	case *ssa.Parameter:
		for i, p := range c.fn.Params {
			if p == x && i < len(c.args) {
				return c.args[i]
			}
		}
		return nil
	case *ssa.FreeVar:
		for i, p := range c.fn.FreeVars {
			if p == x && len(c.fn.Params)+i < len(c.args) {
				return c.args[len(c.fn.Params)+i]
			}
		}
		return nil
	}
	return c.env[v]
}

func (f *effects) set(c *ectx, v ssa.Value, x eval) {
	cur := c.env[v]
	if cur == nil {
		cur = eval{}
		c.env[v] = cur
	}
	for p, s := range x {
		if cur.addAll(p, s) {
			f.changed = true
		}
	}
}

func (f *effects) fresh(c *ectx, in ssa.Instruction, what string, t types.Type) eval {
	id := fmt.Sprintf("new#%d.%d.%d%s", c.id, in.Block().Index, instrIndex(in), what)
	o := f.obj(id, f.p.pos(c.fn, in))
	if o.typ == nil {
		o.typ = t
	}
	return eval{"": pset{loc{o, ""}: true}}
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (f *effects) pass(c *ectx) {
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			f.instrs++
			f.step(c, in)
		}
	}
}

func (f *effects) step(c *ectx, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		f.set(c, x, f.fresh(c, x, "", x.Type()))
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		f.set(c, x.(ssa.Value), f.fresh(c, in, "", x.(ssa.Value).Type()))
	case *ssa.MakeClosure:
		v := f.fresh(c, x, "fn", x.Type())
		for l := range v[""] {
			o := l.obj
			o.fn = x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				for p, s := range f.val(c, b) {
					k := fmt.Sprintf("b%d:%s", i, p)
					if o.content[k] == nil {
						o.content[k] = pset{}
					}
					for l := range s {
						if !o.content[k][l] {
							o.content[k][l] = true
							f.changed = true
						}
					}
				}
			}
		}
		f.set(c, x, v)
	case *ssa.MakeInterface:
		v := f.val(c, x.X)
		t := x.X.Type()
		if pointerLike(t) {
			f.set(c, x, v)
			return
		}
		box := f.fresh(c, x, "box", t)
		for l := range box[""] {
			l.obj.dyn = t
		}
		f.put(box[""], v, t)
		f.set(c, x, box)
	case *ssa.ChangeInterface:
		f.set(c, x, f.val(c, x.X))
	case *ssa.ChangeType:
		f.set(c, x, f.val(c, x.X))
	case *ssa.SliceToArrayPointer:
		f.set(c, x, f.val(c, x.X))
	case *ssa.Convert:
		if pointerLike(x.Type()) && !pointerLike(x.X.Type()) {
			f.set(c, x, f.fresh(c, x, "conv", x.Type()))
		} else if pointerLike(x.Type()) {
			f.set(c, x, f.val(c, x.X))
		}
	case *ssa.TypeAssert:
		v := f.val(c, x.X)[""]
		src := v
		if !types.IsInterface(x.AssertedType) {
			src = pset{}
			for l := range v {
				src[f.typed(l, x.AssertedType)] = true
			}
		}
		var r eval
		if pointerLike(x.AssertedType) {
			r = eval{"": src}
		} else {
			r = f.load(src, x.AssertedType)
		}
		if x.CommaOk {
			out := eval{}
			for p, s := range r {
				out["#0"+p] = s
			}
			r = out
		}
		f.set(c, x, r)
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.set(c, x, f.val(c, e))
		}
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f.set(c, x, eval{"": shift(f.val(c, x.X)[""], "."+st.Field(x.Field).Name())})
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		f.set(c, x, f.val(c, x.X).sub("."+st.Field(x.Field).Name()))
	case *ssa.IndexAddr:
		f.set(c, x, eval{"": shift(f.val(c, x.X)[""], "[]")})
	case *ssa.Index:
		f.set(c, x, f.val(c, x.X).sub("[]"))
	case *ssa.Slice:
		f.set(c, x, f.val(c, x.X))
	case *ssa.Lookup:
		m, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		r := f.load(shift(f.val(c, x.X)[""], "[]"), m.Elem())
		if x.CommaOk {
			out := eval{}
			for p, s := range r {
				out["#0"+p] = s
			}
			r = out
		}
		f.set(c, x, r)
	case *ssa.Range:
		f.set(c, x, f.val(c, x.X))
	case *ssa.Next:
		if x.IsString {
			return
		}
		m, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		src := f.val(c, x.Iter)[""]
		out := eval{}
		for p, s := range f.load(shift(src, "[k]"), m.Key()) {
			out["#1"+p] = s
		}
		for p, s := range f.load(shift(src, "[]"), m.Elem()) {
			out["#2"+p] = s
		}
		f.set(c, x, out)
	case *ssa.Extract:
		f.set(c, x, f.val(c, x.Tuple).sub(fmt.Sprintf("#%d", x.Index)))
	case *ssa.UnOp:
		switch x.Op.String() {
		case "*":
			if pointerLike(x.Type()) && f.overwritten(x) {
				// the place was assigned before on every path: what it held at the start is gone
				out := eval{}
				for l := range f.val(c, x.X)[""] {
					f.at(l, x.Type())
					if o := l.obj; o != nil && o.in {
						out.addAll("", o.stored[l.path])
					} else if o != nil {
						out.addAll("", o.content[l.path])
					}
				}
				f.set(c, x, out)
				return
			}
			f.set(c, x, f.load(f.val(c, x.X)[""], x.Type()))
		case "<-":
			ch := x.X.Type().Underlying().(*types.Chan)
			r := f.load(shift(f.val(c, x.X)[""], "[]"), ch.Elem())
			if x.CommaOk {
				out := eval{}
				for p, s := range r {
					out["#0"+p] = s
				}
				r = out
			}
			f.set(c, x, r)
		}
	case *ssa.Send:
		f.put(shift(f.val(c, x.Chan)[""], "[]"), f.val(c, x.X), x.X.Type())
	case *ssa.Store:
		ptr := f.val(c, x.Addr)[""]
		f.wrote(ptr, "", c, x, "assigned")
		f.put(ptr, f.val(c, x.Val), x.Val.Type())
	case *ssa.MapUpdate:
		ptr := f.val(c, x.Map)[""]
		f.wrote(ptr, "[]", c, x, "map entry set")
		f.put(shift(ptr, "[]"), f.val(c, x.Value), x.Value.Type())
		f.put(shift(ptr, "[k]"), f.val(c, x.Key), x.Key.Type())
	case *ssa.Return:
		for i, r := range x.Results {
			for p, s := range f.val(c, r) {
				if c.res[i].addAll(p, s) {
					f.changed = true
				}
			}
		}
	case *ssa.Call:
		f.set(c, x, f.call(c, x, x.Common()))
	case *ssa.Defer:
		f.call(c, x, x.Common())
	case *ssa.Go:
		f.call(c, x, x.Common())
	}
}

// overwritten: a store to the same field of the same base dominates the load.
func (f *effects) overwritten(x *ssa.UnOp) bool {
	fa, ok := x.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	if r, ok := f.over[x]; ok {
		return r
	}
	res := false
	for _, b := range x.Parent().Blocks {
		if !b.Dominates(x.Block()) {
			continue
		}
		for i, in := range b.Instrs {
			if b == x.Block() && i >= instrIndex(x) {
				break
			}
			if st, ok := in.(*ssa.Store); ok {
				if fb, ok := st.Addr.(*ssa.FieldAddr); ok && fb.X == fa.X && fb.Field == fa.Field {
					res = true
				}
			}
		}
	}
	f.over[x] = res
	return res
}

// typed separates what an interface may hold by dynamic type.
func (f *effects) typed(l loc, t types.Type) loc {
	o := l.obj
	if o == nil || !o.in || l.path != "" || o.typ == nil || !types.IsInterface(o.typ) {
		return l
	}
	id := o.id + "<" + shortStr(types.TypeString(t, nil)) + ">"
	n := f.inObj(id, o.depth, t)
	n.parent, n.via = o.parent, o.via
	return loc{n, ""}
}

func etuple(n int, res []eval) eval {
	if n == 1 {
		return res[0]
	}
	out := eval{}
	for i, r := range res {
		for p, s := range r {
			out[fmt.Sprintf("#%d%s", i, p)] = s
		}
	}
	return out
}

func (f *effects) call(c *ectx, in ssa.Instruction, cc *ssa.CallCommon) eval {
	var args []eval
	for _, a := range cc.Args {
		args = append(args, f.val(c, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return f.builtin(c, in, b.Name(), cc, args)
	}
	n := cc.Signature().Results().Len()
	if cc.IsInvoke() {
		out := eval{}
		recv := f.val(c, cc.Value)[""]
		external := len(recv) == 0
		for _, l := range sortedLocs(recv) {
			o := l.obj
			if o == nil {
				continue
			}
			var targets []*ssa.Function
			if dt := dynType(o, l); dt != nil && !o.in {
				if m := f.p.methodExact(dt, cc.Method.Name()); m != nil {
					targets = []*ssa.Function{m}
				} else {
					external = true
				}
			} else if o.in && o.typ != nil && !types.IsInterface(o.typ) {
				if m := f.p.methodExact(o.typ, cc.Method.Name()); m != nil {
					targets = []*ssa.Function{m}
				} else {
					external = true
				}
			} else {
				// a caller's own implementation; the repository's are analysed on their own
				external = true
			}
			for _, m := range targets {
				rt := m.Params[0].Type()
				ra := f.typed(l, rt)
				var rv eval
				if pointerLike(rt) {
					rv = eval{"": pset{ra: true}}
				} else {
					rv = f.load(pset{ra: true}, rt)
				}
				cal := f.context(m, append([]eval{rv}, args...))
				merge(out, etuple(n, cal.res))
			}
		}
		if external {
			merge(out, f.external(c, in, "invoke "+shortStr(cc.Value.Type().String())+"."+cc.Method.Name(), cc, append([]eval{f.val(c, cc.Value)}, args...)))
		}
		return out
	}
	if callee := cc.StaticCallee(); callee != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				args = append(args, f.val(c, b))
			}
		}
		if f.p.inRepo(callee) {
			return etuple(n, f.context(callee, args).res)
		}
		return f.external(c, in, callee.String(), cc, args)
	}
	out := eval{}
	for _, l := range sortedLocs(f.val(c, cc.Value)[""]) {
		o := l.obj
		if o == nil || o.fn == nil {
			continue
		}
		full := append([]eval{}, args...)
		for i := range o.fn.FreeVars {
			v := eval{}
			pre := fmt.Sprintf("b%d:", i)
			for k, s := range o.content {
				if strings.HasPrefix(k, pre) {
					v.addAll(k[len(pre):], s)
				}
			}
			full = append(full, v)
		}
		if f.p.inRepo(o.fn) {
			merge(out, etuple(n, f.context(o.fn, full).res))
		} else {
			merge(out, f.external(c, in, o.fn.String(), cc, full))
		}
	}
	return out
}

func merge(dst, src eval) {
	for p, s := range src {
		dst.addAll(p, s)
	}
}

func sortedLocs(s pset) []loc {
	out := make([]loc, 0, len(s))
	for l := range s {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].obj != out[j].obj {
			return out[i].obj.id < out[j].obj.id
		}
		return out[i].path < out[j].path
	})
	return out
}

func dynType(o *eobj, l loc) types.Type {
	if o.dyn != nil {
		return o.dyn
	}
	if l.path == "" {
		return o.typ
	}
	return nil
}

// methodExact: the method of exactly this type (T or *T as given).
func (p *Program) methodExact(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			fn := p.SSA.MethodValue(s)
			if fn != nil && p.inRepo(fn) {
				return fn
			}
		}
	}
	return nil
}

func (p *Program) sortedPkgs() []*ssa.Package {
	var paths []string
	for k := range p.ByPth {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	var out []*ssa.Package
	for _, k := range paths {
		out = append(out, p.ByPth[k])
	}
	return out
}

func (f *effects) builtin(c *ectx, in ssa.Instruction, name string, cc *ssa.CallCommon, args []eval) eval {
	switch name {
	case "append":
		v := f.fresh(c, in, "app", cc.Args[0].Type())
		out := eval{}
		merge(out, v)
		merge(out, args[0])
		el := sliceElem(cc.Args[0].Type())
		if el == nil {
			return out
		}
		// appending to a shortened slice overwrites what follows in the shared array
		if shortened(cc.Args[0], map[ssa.Value]bool{}) {
			f.wrote(args[0][""], "[]", c, in, "overwritten by append")
			f.put(shift(args[0][""], "[]"), f.load(shift(args[1][""], "[]"), el), el)
		}
		f.put(shift(v[""], "[]"), f.load(shift(args[0][""], "[]"), el), el)
		if len(args) > 1 && len(args[1]) > 0 {
			f.put(shift(v[""], "[]"), f.load(shift(args[1][""], "[]"), el), el)
			f.put(shift(args[0][""], "[]"), f.load(shift(args[1][""], "[]"), el), el)
		}
		return out
	case "copy":
		f.wrote(args[0][""], "[]", c, in, "copied into")
		if el := sliceElem(cc.Args[0].Type()); el != nil && sliceElem(cc.Args[1].Type()) != nil {
			f.put(shift(args[0][""], "[]"), f.load(shift(args[1][""], "[]"), el), el)
		}
	case "delete", "clear":
		f.wrote(args[0][""], "[]", c, in, "entry removed")
	}
	return nil
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// shortened: the slice may be a prefix of a longer one.
func shortened(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if x.High != nil && x.Max == nil {
			if _, isStr := x.X.Type().Underlying().(*types.Basic); !isStr {
				return true
			}
		}
		return shortened(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if shortened(e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return shortened(x.X, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return shortened(x.Call.Args[0], seen)
		}
	}
	return false
}

// external: library functions that write through an argument.
func mutatedArgs(name string, cc *ssa.CallCommon) []int {
	switch {
	case strings.HasPrefix(name, "sort.Search"), strings.HasPrefix(name, "sort.IsSorted"), strings.HasPrefix(name, "sort.Reverse"):
		return nil
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "(sort."):
		if strings.HasSuffix(name, ".Len") || strings.HasSuffix(name, ".Less") || strings.HasSuffix(name, "AreSorted") {
			return nil
		}
		return []int{0}
	case strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "slices.Reverse"), strings.HasPrefix(name, "slices.Compact"), strings.HasPrefix(name, "slices.Delete"), strings.HasPrefix(name, "slices.Insert"), strings.HasPrefix(name, "slices.Replace"):
		return []int{0}
	case strings.HasPrefix(name, "maps.DeleteFunc"), strings.HasPrefix(name, "maps.Copy"):
		return []int{0}
	case strings.HasSuffix(name, ".Unmarshal"):
		return []int{1}
	case strings.HasSuffix(name, ".Decode") && cc.Signature().Recv() != nil, strings.HasSuffix(name, ".Decode") && cc.IsInvoke():
		return []int{1}
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return []int{1}
	case name == "encoding/hex.Encode", name == "encoding/hex.Decode":
		return []int{0}
	case strings.Contains(name, "encoding/binary") && strings.Contains(name, "Put"):
		for i, a := range cc.Args {
			if sliceElem(a.Type()) != nil {
				return []int{i}
			}
		}
	case strings.HasSuffix(name, ".Read") && len(cc.Args) >= 1:
		n := len(cc.Args) - 1
		if sliceElem(cc.Args[n].Type()) == nil {
			return nil
		}
		if cc.IsInvoke() {
			n++ // the receiver comes first
		}
		return []int{n}
	}
	return nil
}

// aliasing library functions give back memory they were handed.
func givesBack(name string) bool {
	for _, p := range []string{"bytes.Trim", "bytes.Split", "bytes.Fields", "bytes.NewBuffer", "bytes.NewReader", "sort.StringSlice", "sort.Reverse", "slices.", "maps.", "io.TeeReader", "io.MultiReader", "io.LimitReader", "bufio.New", "reflect."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.Contains(name, "qfs.NewMemfile")
}

func (f *effects) external(c *ectx, in ssa.Instruction, name string, cc *ssa.CallCommon, args []eval) eval {
	f.unknown[name] = true
	for _, i := range mutatedArgs(name, cc) {
		if i < len(args) {
			f.wrote(args[i][""], "", c, in, "written by "+name)
			f.wrote(args[i][""], "[]", c, in, "written by "+name)
		}
	}
	// functions handed to the library are called by it
	for i, a := range args {
		var at types.Type
		if cc.IsInvoke() {
			if i == 0 {
				continue
			}
			at = cc.Args[i-1].Type()
		} else if i < len(cc.Args) {
			at = cc.Args[i].Type()
		}
		if at == nil {
			continue
		}
		if _, ok := at.Underlying().(*types.Signature); !ok {
			continue
		}
		for l := range a[""] {
			o := l.obj
			if o == nil || o.fn == nil || !f.p.inRepo(o.fn) {
				continue
			}
			full := make([]eval, len(o.fn.Params))
			for j := range full {
				full[j] = eval{}
			}
			for j := range o.fn.FreeVars {
				v := eval{}
				pre := fmt.Sprintf("b%d:", j)
				for k, s := range o.content {
					if strings.HasPrefix(k, pre) {
						v.addAll(k[len(pre):], s)
					}
				}
				full = append(full, v)
			}
			f.context(o.fn, full)
		}
	}
	n := cc.Signature().Results().Len()
	out := eval{}
	for i := 0; i < n; i++ {
		t := cc.Signature().Results().At(i).Type()
		pre := ""
		if n > 1 {
			pre = fmt.Sprintf("#%d", i)
		}
		for _, lf := range eleavesOf(t) {
			v := f.fresh(c, in, fmt.Sprintf("ext%d%s", i, lf.path), lf.t)
			if own := f.owned(name, cc, args, i, lf); len(own) > 0 {
				v = eval{"": own}
			}
			if volatileResult(name) && len(args) > 0 && f.outlives(args[0]) {
				for l := range v[""] {
					l.obj.volatile = name
				}
			}
			out.addAll(pre+lf.path, v[""])
			if givesBack(name) {
				for _, a := range args {
					out.addAll(pre+lf.path, a[""])
				}
			}
		}
	}
	return out
}

// volatileResult: the memory given is only good until the next call.
func volatileResult(name string) bool {
	for _, m := range []string{"(*bufio.Reader).Peek", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadLine", "(*bufio.Scanner).Bytes", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next"} {
		if name == m {
			return true
		}
	}
	return false
}

// outlives: the library object existed before the call, or is kept by something that did.
func (f *effects) outlives(v eval) bool {
	for l := range v[""] {
		if o := l.obj; o != nil && (o.in || o.kept) {
			return true
		}
	}
	return false
}

// owned: what a method of a caller's object gives back belongs to the caller.
func (f *effects) owned(name string, cc *ssa.CallCommon, args []eval, i int, lf eleaf) pset {
	out := pset{}
	if !cc.IsInvoke() {
		return out
	}
	for l := range args[0][""] {
		o := l.obj
		if o == nil || !o.in || o.depth > 8 {
			continue
		}
		n := f.inObj(fmt.Sprintf("%s%s.%s()#%d%s", o.id, l.path, cc.Method.Name(), i, lf.path), o.depth+1, lf.t)
		n.parent = o
		out[loc{n, ""}] = true
	}
	return out
}

// reach lists the objects reachable from a value.
func (f *effects) reach(v eval) map[*eobj]bool {
	seen := map[*eobj]bool{}
	var visit func(l loc)
	visit = func(l loc) {
		if l.obj == nil || seen[l.obj] {
			return
		}
		seen[l.obj] = true
		o := l.obj
		if o == nil {
			return
		}
		for _, s := range o.content {
			for x := range s {
				visit(x)
			}
		}
	}
	for _, s := range v {
		for l := range s {
			visit(l)
		}
	}
	return seen
}
