package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
)

// ---- C26: CBOR items are decoded to what they encode ------------------------------------------

type cItem struct {
	name  string
	bytes []int
	want  func(s *bScn, st *State, v AV) string // nil: an error
}

func wantConst(t types.Type, c constant.Value) func(s *bScn, st *State, v AV) string {
	return func(s *bScn, st *State, v AV) string {
		a := st.norm(v).single()
		if a == nil || a.K != KIface || !types.Identical(a.T, t) {
			return "it is decoded to " + clip(v.Key()) + ", expected a value of type " + t.String()
		}
		x := a.Args[0]
		if isStringy(t) {
			x = s.e.bytesVal(st, s.e.seqView(st, x))
		}
		if isZeroValue(x) {
			x = zeroConst(t)
		}
		k := x.single()
		if k == nil || k.K != KConst || k.C.Kind() == constant.String != (c.Kind() == constant.String) || !constant.Compare(k.C, token.EQL, c) {
			return fmt.Sprintf("it is decoded to %s, expected %s", clip(x.Key()), c)
		}
		return ""
	}
}

var boolT = types.Typ[types.Bool]

func isZeroValue(v AV) bool { a := v.single(); return a != nil && (a.K == KZero || a.K == KNil) }

func zeroConst(t types.Type) AV {
	switch {
	case isStringy(t):
		return cStr("")
	case types.Identical(t, boolT):
		return cBool(false)
	}
	return cInt(0)
}

func wantInt(n int64) func(s *bScn, st *State, v AV) string {
	return wantConst(i64T, constant.MakeInt64(n))
}

func wantStr(t string) func(s *bScn, st *State, v AV) string {
	return wantConst(types.Typ[types.String], constant.MakeString(t))
}

func wantFloat(f float64) func(s *bScn, st *State, v AV) string {
	return wantConst(f64T, constant.MakeFloat64(f))
}

func wantNil(s *bScn, st *State, v AV) string {
	if st.isZero(v) != T {
		return "it is decoded to " + clip(v.Key()) + ", expected nothing"
	}
	return ""
}

func wantList(items ...func(s *bScn, st *State, v AV) string) func(s *bScn, st *State, v AV) string {
	return func(s *bScn, st *State, v AV) string {
		a := st.norm(v).single()
		if a == nil || a.K != KIface || typeKey(a.T) != "[]interface{}" {
			return "it is decoded to " + clip(v.Key()) + ", expected a list"
		}
		if x := st.norm(a.Args[0]).single(); x != nil && x.K == KNil {
			return "it is decoded to no list at all, which is written as null"
		}
		q := s.e.asSeq(st, a.Args[0])
		if q == nil || q.Open || len(q.Args) != len(items) {
			return fmt.Sprintf("it is decoded to %s, expected a list of %d", clip(a.Args[0].Key()), len(items))
		}
		for i, w := range items {
			if !q.Must[i] {
				return "an element of the list may be missing"
			}
			if why := w(s, st, q.Args[i]); why != "" {
				return fmt.Sprintf("element %d: %s", i, why)
			}
		}
		return ""
	}
}

func wantMap(keys []string, vals ...func(s *bScn, st *State, v AV) string) func(s *bScn, st *State, v AV) string {
	return func(s *bScn, st *State, v AV) string {
		a := st.norm(v).single()
		if a == nil || a.K != KIface || typeKey(a.T) != "map[string]interface{}" {
			return "it is decoded to " + clip(v.Key()) + ", expected an object"
		}
		m := a.Args[0].single()
		if m == nil || m.K != KMap || st.get(m.Obj) == nil {
			return "it is decoded to an unknown object: " + clip(a.Args[0].Key())
		}
		o := st.get(m.Obj)
		n := 0
		for k, en := range o.Ents {
			if en.P == PAbsent {
				continue
			}
			n++
			hit := false
			for i, key := range keys {
				if k == cStr(key).Key() && en.P == PMust {
					hit = true
					if why := vals[i](s, st, en.Val); why != "" {
						return fmt.Sprintf("key %q: %s", key, why)
					}
				}
			}
			if !hit {
				return "it is decoded to an object with the key " + k
			}
		}
		if n != len(keys) || o.Rest != RNone {
			return fmt.Sprintf("it is decoded to an object of %d entries, expected %d", n, len(keys))
		}
		return ""
	}
}

func be(n uint64, k int) []int {
	out := make([]int, k)
	for i := k - 1; i >= 0; i-- {
		out[i] = int(n & 0xff)
		n >>= 8
	}
	return out
}

func cat2(parts ...[]int) []int {
	var out []int
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func bytesOf(t string) []int {
	var out []int
	for _, c := range []byte(t) {
		out = append(out, int(c))
	}
	return out
}

var cborHeads = []struct{ add, n int }{{0x18, 1}, {0x19, 2}, {0x1a, 4}, {0x1b, 8}}

// cborItems: items by initial byte, with what they stand for.
func cborItems() []cItem {
	var out []cItem
	add := func(name string, w func(s *bScn, st *State, v AV) string, parts ...[]int) {
		out = append(out, cItem{name, cat2(parts...), w})
	}
	for _, neg := range []bool{false, true} {
		base, of, name := 0x00, func(n uint64) int64 { return int64(n) }, "unsigned"
		if neg {
			base, of, name = 0x20, func(n uint64) int64 { return -1 - int64(n) }, "negative"
		}
		for n := 0; n < 0x18; n++ {
			add(name, wantInt(of(uint64(n))), []int{base + n})
		}
		for _, h := range cborHeads {
			max := uint64(math.MaxUint64) >> (64 - 8*h.n)
			for _, v := range []uint64{0, 1, 0x17, 0x18, 0x7f, 0x80, 0xff, 0x102, 0x7fff, 0x8000, 0xffff, 0x1020304, 0x7fffffff, 0x80000000, 0xffffffff, 0x102030405060708, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64} {
				if v > max {
					continue
				}
				w := wantInt(of(v))
				if v > math.MaxInt64 {
					w = nil
				}
				add(fmt.Sprintf("%s in %d bytes", name, h.n+1), w, []int{base + h.add}, be(v, h.n))
			}
		}
	}
	text := []string{"", "a", "ab", "\xff\x00c"}
	for _, kind := range []struct {
		base int
		name string
		t    types.Type
	}{{0x40, "bytes", byteSeqT}, {0x60, "text", types.Typ[types.String]}} {
		w := func(t string) func(s *bScn, st *State, v AV) string {
			return wantConst(kind.t, constant.MakeString(t))
		}
		for _, t := range text {
			add(kind.name, w(t), []int{kind.base + len(t)}, bytesOf(t))
			for _, h := range cborHeads {
				add(fmt.Sprintf("%s with a length in %d bytes", kind.name, h.n), w(t), []int{kind.base + h.add}, be(uint64(len(t)), h.n), bytesOf(t))
			}
		}
		add(kind.name+" in pieces", w(""), []int{kind.base + 0x1f, 0xff})
		add(kind.name+" in pieces", w("abc"), []int{kind.base + 0x1f, kind.base + 1, 'a', kind.base + 2, 'b', 'c', 0xff})
		add(kind.name+" in pieces", w("abc"), []int{kind.base + 0x1f, kind.base, kind.base + 2, 'a', 'b', kind.base + 0x18, 1, 'c', 0xff})
	}
	one, two, a := []int{0x01}, []int{0x20}, []int{0x61, 'a'}
	w1, w2, wa := wantInt(1), wantInt(-1), wantStr("a")
	lists := []struct {
		n     int
		items []int
		want  func(s *bScn, st *State, v AV) string
	}{{0, nil, wantList()}, {1, one, wantList(w1)}, {2, cat2(one, a), wantList(w1, wa)}, {3, cat2(a, two, []int{0xf6}), wantList(wa, w2, wantNil)}, {1, []int{0x81, 0x01}, wantList(wantList(w1))}, {2, []int{0xa1, 0x61, 'k', 0x02, 0x80}, wantList(wantMap([]string{"k"}, wantInt(2)), wantList())}}
	for _, l := range lists {
		add("list", l.want, []int{0x80 + l.n}, l.items)
		for _, h := range cborHeads {
			add(fmt.Sprintf("list with a length in %d bytes", h.n), l.want, []int{0x80 + h.add}, be(uint64(l.n), h.n), l.items)
		}
		add("list up to its break", l.want, []int{0x9f}, l.items, []int{0xff})
	}
	k1, k2 := []int{0x61, 'k'}, []int{0x62, 'k', 'l'}
	maps := []struct {
		n     int
		items []int
		want  func(s *bScn, st *State, v AV) string
	}{{0, nil, wantMap(nil)}, {1, cat2(k1, one), wantMap([]string{"k"}, w1)}, {2, cat2(k1, a, k2, two), wantMap([]string{"k", "kl"}, wa, w2)}, {1, cat2(k2, []int{0xa1}, k1, one), wantMap([]string{"kl"}, wantMap([]string{"k"}, w1))}, {1, cat2(k2, []int{0x81, 0x80}), wantMap([]string{"kl"}, wantList(wantList()))}}
	for _, m := range maps {
		add("object", m.want, []int{0xa0 + m.n}, m.items)
		for _, h := range cborHeads {
			add(fmt.Sprintf("object with a length in %d bytes", h.n), m.want, []int{0xa0 + h.add}, be(uint64(m.n), h.n), m.items)
		}
		add("object up to its break", m.want, []int{0xbf}, m.items, []int{0xff})
	}
	add("object with a long key", wantMap([]string{"ab"}, w1), []int{0xa1, 0x78, 2, 'a', 'b', 1})
	add("object with a key that is no text", nil, []int{0xa1, 0x01, 0x01})
	add("object with a key that is no text", nil, []int{0xa1, 0x41, 'a', 0x01})
	add("false", wantConst(boolT, constant.MakeBool(false)), []int{0xf4})
	add("true", wantConst(boolT, constant.MakeBool(true)), []int{0xf5})
	add("null", wantNil, []int{0xf6})
	add("undefined", wantNil, []int{0xf7})
	for _, f := range []float64{0, 1, -2, 65504, 0.5, 1.5, -0.25, 5.960464477539063e-08, 6.103515625e-05, 6.097555160522461e-05} {
		add("half-precision number", wantFloat(f), []int{0xf9}, be(uint64(half(f)), 2))
	}
	for _, f := range []float32{0, 1, -2, 1.5, 0.1, 3.4028235e38, 1e-45, -100000} {
		add("single-precision number", wantFloat(float64(f)), []int{0xfa}, be(uint64(math.Float32bits(f)), 4))
	}
	for _, f := range []float64{0, 1, -2, 1.5, 0.1, 1e300, -5e-324, 123456.789} {
		add("double-precision number", wantFloat(f), []int{0xfb}, be(math.Float64bits(f), 8))
	}
	for n := 0; n < 0x18; n++ {
		add("tagged item", w1, []int{0xc0 + n}, one)
	}
	for _, h := range cborHeads {
		add("tagged item", wa, []int{0xc0 + h.add}, be(1, h.n), a)
	}
	add("tagged item", w2, []int{0xc1, 0xd8, 0x20}, two)
	add("tagged item in a list", wantList(w1, wa), []int{0x82, 0xc1}, one, []int{0xd8, 0x20}, a)
	reserved := func(from, to int) {
		for b := from; b <= to; b++ {
			add("reserved", nil, []int{b})
		}
	}
	for _, m := range []int{0x00, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0} {
		reserved(m+0x1c, m+0x1e)
	}
	reserved(0x1f, 0x1f)
	reserved(0x3f, 0x3f)
	reserved(0xdf, 0xdf)
	reserved(0xe0, 0xf3)
	reserved(0xf8, 0xf8)
	reserved(0xfc, 0xff)
	return out
}

// half: the half-precision form of a number that has one.
func half(f float64) uint16 {
	for h := 0; h < 1<<16; h++ {
		e, m := (h>>10)&0x1f, float64(h&0x3ff)
		if e == 0x1f {
			continue
		}
		v := math.Ldexp(m+1024, e-25)
		if e == 0 {
			v = math.Ldexp(m, -24)
		}
		if h&0x8000 != 0 {
			v = -v
		}
		if v == f {
			return uint16(h)
		}
	}
	panic("no half-precision form")
}

func checkCborItems(p *Program) *Report {
	r := newReport("C26")
	r.Rule = "Abstract interpretation of the CBOR reader over a source whose next bytes are known, for every initial byte of an item with each width of its argument: the value of the entry, constant-folded through the code, must be what the item encodes in the Go type the other readers use, reserved bytes and integers outside int64 must be errors, and exactly the bytes of the item may be consumed."
	fn := p.fn("dsio.NewEntryReader")
	if !r.need(fn != nil, "dsio.NewEntryReader") {
		return r
	}
	items := cborItems()
	var jobs []func(r *Report)
	for _, tlt := range []string{"array", "object"} {
		const parts = 4
		for k := 0; k < parts; k++ {
			jobs = append(jobs, func(r *Report) {
				s := &bScn{wScn: wScn{p: p, format: "cbor", tlt: tlt}, follow: true}
				why := s.openBytes(r)
				r.check(why == "", "made:"+s.label(), p.fpos(fn), "%s", why)
				if why != "" {
					return
				}
				for i := k; i < len(items); i += parts {
					s.item(r, items[i])
				}
				r.engine(s.e)
			})
		}
	}
	r.run(jobs)
	r.atLeast(r.Counters["items"], 700, "items")
	return r
}

// framed: an item as entry n of a document, up to its end, and what follows it.
func (s *bScn) framed(n int, item []int) (pre, more []int) {
	obj := s.tlt == "object"
	if s.format == "cbor" {
		head, key := []int{0x83}, []int(nil)
		if obj {
			head, key = []int{0xa3}, []int{0x62, 'i', 'd'}
		}
		if n > 0 {
			head = nil
		}
		return cat2(head, key, item), []int{0x00, 0x00}
	}
	head := "["
	if obj {
		head = "{"
	}
	if n > 0 {
		head = ","
	}
	if obj {
		return cat2(bytesOf(head+"\"id\":"), item), bytesOf(",\"x\":0}")
	}
	return cat2(bytesOf(head), item), bytesOf(",0]")
}

func (s *bScn) item(r *Report, it cItem) {
	r.Counters["items"]++
	bad := func(why string) {
		r.bad(s.label()+":"+it.name, s.pos(), "%s: %s", bRun{bs(it.bytes...), ""}.name(), why)
	}
	// as the first and as the second of three
	st := s.st0
	for n := 0; n < 2; n++ {
		pre, more := s.framed(n, it.bytes)
		xs, why := s.read(st, bs(append(append([]int{}, pre...), more...)...), "any")
		if why != "" {
			bad(why)
			return
		}
		if it.want == nil {
			for _, x := range xs {
				if errClass(x.st, x.res[1]) != "err" {
					bad("it is accepted, or taken for the end: " + clip(project(x.res[0], "Value", anyTy).Key()))
					return
				}
			}
			r.ok(s.label() + ":" + it.name)
			return
		}
		var ok []Exit
		for _, x := range xs {
			if errClass(x.st, x.res[1]) == "ok" {
				ok = append(ok, x)
			}
		}
		if len(ok) != len(xs) || len(ok) == 0 {
			bad("it is refused")
			return
		}
		for _, x := range ok {
			if why := it.want(s, x.st, x.st.norm(project(x.res[0], "Value", anyTy))); why != "" {
				bad(why)
				return
			}
			if x.st.tags[tagPos] != itoa(len(pre)) {
				bad(fmt.Sprintf("%s bytes are consumed of %d", x.st.tags[tagPos], len(pre)))
				return
			}
			if s.tlt == "object" {
				if k := s.e.bytesVal(x.st, x.st.norm(project(x.res[0], "Key", strT))); !sameAV(k, cStr("id")) {
					bad("the key of the entry is " + clip(k.Key()) + `, expected "id"`)
					return
				}
			} else if ix, isC := intConst(x.st.norm(project(x.res[0], "Index", intT))); !isC || ix != int64(n) {
				bad(fmt.Sprintf("the index of the entry is %s, expected %d", clip(project(x.res[0], "Index", intT).Key()), n))
				return
			}
		}
		n2 := s.settled(ok[0].st)
		for _, x := range ok[1:] {
			joinInto(n2, s.settled(x.st))
		}
		st = n2
	}
	r.ok(s.label() + ":" + it.name)
}
