package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- byte sources --------------------------------------------------------------------------
//
// With streamCfg.bytes set, a buffered reader delivers a few known bytes and then
// a tail: any number of unknown bytes followed by the end of the data or a
// failure ("any"), the end ("eof") or a failure ("err") right away. The position
// is part of the path (tags), so that paths on which the source ran out are told
// from the others. Recursive calls of the reader are answered from the outcomes
// its own runs had so far, until nothing new appears.

type byteCfg struct {
	rounds int // times a block is analysed before its states are joined
	pre    []AV
	tail   string
	any    AV // an unknown byte
	follow bool
	rec    map[string]map[string]bool // recursive function / state of the source -> outcomes
	grew   bool
	done   map[string]bool // summaries computed in this round
	recs   map[*ssa.Function]bool
	mods   map[*ssa.Function]map[string]bool
}

const (
	tagPos  = "src.pos"  // known bytes consumed
	tagTail = "src.tail" // "" any bytes may follow, "eof", "err"
	tagBuf  = "src.buf"  // "0" nothing buffered, "1" something buffered, "" unknown
	tagLine = "src.line" // what the last line read was like
)

// nonSpace is a byte that is no space between the tokens of JSON.
var nonSpace = mk(&Atom{K: KSym, Name: "byte!space", T: types.Typ[types.Byte], Summary: true})

func init() {
	symNotConst["byte!space"] = func(c *Atom) bool {
		n, ok := intConst(mk(c))
		return ok && (n == ' ' || n == '\t' || n == '\n' || n == '\r')
	}
}

func (b *byteCfg) start(st *State) {
	for _, t := range []string{tagPos, tagTail, tagBuf, tagLine} {
		delete(st.tags, t)
	}
	st.tags[tagPos] = "0"
	st.tags[tagBuf] = "0"
	if b.tail != "any" {
		st.tags[tagTail] = b.tail
	}
}

func (b *byteCfg) left(st *State) []AV {
	var n int
	fmt.Sscan(st.tags[tagPos], &n)
	if n > len(b.pre) {
		n = len(b.pre)
	}
	return b.pre[n:]
}

func (b *byteCfg) take(st *State, k int) {
	var n int
	fmt.Sscan(st.tags[tagPos], &n)
	st.tags[tagPos] = itoa(n + k)
	if n+k >= len(b.pre) && st.tags[tagBuf] == "1" {
		delete(st.tags, tagBuf)
	}
}

// lost: some unknown amount was consumed.
func (b *byteCfg) lost(st *State) {
	st.tags[tagPos] = itoa(len(b.pre))
	delete(st.tags, tagBuf)
}

func (b *byteCfg) end(st *State) (AV, bool) {
	switch st.tags[tagTail] {
	case "eof":
		return eofAV(), true
	case "err":
		return symNN("fault@source", errT()), true
	}
	return AV{}, false
}

// fill: at least one byte is there, or the source has run out.
func (b *byteCfg) fill(st *State) (some, none []*State) {
	if len(b.left(st)) > 0 {
		st.tags[tagBuf] = "1"
		return []*State{st}, nil
	}
	if _, ended := b.end(st); ended {
		st.tags[tagBuf] = "0"
		return nil, []*State{st}
	}
	if st.tags[tagBuf] == "1" {
		return []*State{st}, nil
	}
	for _, t := range []string{"eof", "err"} {
		n := st.clone()
		n.tags[tagTail] = t
		n.tags[tagBuf] = "0"
		none = append(none, n)
	}
	st.tags[tagBuf] = "1"
	return []*State{st}, none
}

var byteSeqT = types.NewSlice(types.Typ[types.Byte])

// peeked: bytes of which the first few are known.
func peeked(items []AV, open bool) AV {
	if len(items) > 120 {
		return Top
	}
	s := &Atom{K: KSeq, T: byteSeqT, Args: items}
	for range items {
		s.Must = append(s.Must, true)
	}
	if !open {
		return mk(s)
	}
	return mk(&Atom{K: KApp, Name: "peeked", Args: []AV{mk(s)}, NonNil: true, T: byteSeqT})
}

// byteParts: the known leading bytes of a byte slice, and whether more follow.
func byteParts(v AV) (items []AV, open, ok bool) {
	a := v.single()
	if a == nil {
		return nil, false, false
	}
	switch {
	case a.K == KNil || a.K == KZero:
		return nil, false, true
	case a.K == KConst && a.C.Kind() == constant.String:
		for _, c := range []byte(constant.StringVal(a.C)) {
			items = append(items, cInt(int64(c)))
		}
		return items, false, true
	case a.K == KSeq && closedSeq(a):
		return a.Args, false, true
	case a.K == KApp && a.Name == "peeked":
		return a.Args[0].single().Args, true, true
	}
	return nil, false, false
}

func (e *Engine) byteMode() bool { return e.streams != nil && e.streams.bytes != nil }

// isOurs: the reader was made on the modelled source.
func (e *Engine) isOurs(st *State, v AV) bool {
	for i := 0; i < 8; i++ {
		a := v.single()
		switch {
		case a == nil:
			return false
		case a.K == KIface:
			v = a.Args[0]
		case a.K == KPtr && strings.HasPrefix(a.Obj, "STREAM:") && st.get(a.Obj) != nil:
			v = st.get(a.Obj).F["#w"]
		case a.K == KSym:
			return a.Name == sinkName
		case a.K == KApp && len(a.Args) > 0:
			v = a.Args[0]
		default:
			return false
		}
	}
	return false
}

type byteModel func(e *Engine, b *byteCfg, st *State, site ssa.Instruction, a []AV) ([]Outcome, bool)

func bm(f byteModel) Model {
	return func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		if !e.byteMode() || len(a) == 0 || !e.isOurs(st, a[0]) {
			return nil, false
		}
		return f(e, e.streams.bytes, st, site, a)
	}
}

func byteModels() map[string]Model {
	one := func(st *State, res ...AV) Outcome { return Outcome{st: st, res: res} }
	line := func(text bool, keepsDelim bool) Model {
		return bm(func(e *Engine, b *byteCfg, st *State, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			val := func(empty bool) AV {
				if empty {
					if text {
						return cStr("")
					}
					return peeked(nil, false)
				}
				t := types.Type(byteSeqT)
				if text {
					t = strT
				}
				return mk(&Atom{K: KApp, Name: "line", NonNil: true, T: t})
			}
			var outs []Outcome
			if _, ended := b.end(st); !ended {
				n := st.clone()
				b.lost(n)
				n.tags[tagLine] = "full"
				outs = append(outs, one(n, val(false), vNil()))
				for _, t := range []string{"eof", "err"} {
					n := st.clone()
					b.lost(n)
					n.tags[tagTail], n.tags[tagLine] = t, "rest"
					er, _ := b.end(n)
					outs = append(outs, one(n, val(false), er))
					n = st.clone()
					n.tags[tagTail], n.tags[tagLine] = t, "none"
					outs = append(outs, one(n, val(true), er))
				}
				return outs, true
			}
			er, _ := b.end(st)
			st.tags[tagLine] = "none"
			return []Outcome{one(st, val(true), er)}, true
		})
	}
	m := map[string]Model{
		"(*bufio.Reader).Peek": bm(func(e *Engine, b *byteCfg, st *State, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			n, isC := intConst(a[1])
			if isC && n == 0 {
				return []Outcome{one(st, peeked(nil, false), vNil())}, true
			}
			if isC {
				some, none := b.fill(st)
				var outs []Outcome
				for _, s := range none {
					er, _ := b.end(s)
					outs = append(outs, one(s, peeked(nil, false), er))
				}
				for _, s := range some {
					l := b.left(s)
					er, ended := b.end(s)
					switch {
					case len(l) >= int(n):
						outs = append(outs, one(s, peeked(l[:n], false), vNil()))
					case ended:
						outs = append(outs, one(s, peeked(l, false), er))
					case len(l) == 0 && n == 1:
						outs = append(outs, one(s, peeked([]AV{b.any}, false), vNil()))
					case len(l) == 0:
						outs = append(outs, one(s, peeked([]AV{b.any}, true), Top))
					default:
						outs = append(outs, one(s, peeked(l, true), Top))
					}
				}
				return outs, true
			}
			// as much as is buffered
			switch {
			case st.tags[tagBuf] == "0":
				return []Outcome{one(st, peeked(nil, false), vNil())}, true
			case st.tags[tagTail] != "":
				return []Outcome{one(st, peeked(b.left(st), false), vNil())}, true
			}
			l := b.left(st)
			if len(l) == 0 && st.tags[tagBuf] == "1" {
				l = []AV{b.any}
			}
			return []Outcome{one(st, peeked(l, true), vNil())}, true
		}),
		"(*bufio.Reader).Buffered": bm(func(e *Engine, b *byteCfg, st *State, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			switch {
			case st.tags[tagBuf] == "0":
				return []Outcome{one(st, cInt(0))}, true
			case st.tags[tagTail] != "":
				return []Outcome{one(st, cInt(int64(len(b.left(st)))))}, true
			}
			l := b.left(st)
			if len(l) == 0 && st.tags[tagBuf] == "" {
				no := st.clone()
				no.tags[tagBuf] = "0"
				st.tags[tagBuf] = "1"
				return []Outcome{one(no, cInt(0)), one(st, lenOf(e, st, peeked([]AV{b.any}, true)))}, true
			}
			if len(l) == 0 && st.tags[tagBuf] == "1" {
				l = []AV{b.any}
			}
			return []Outcome{one(st, lenOf(e, st, peeked(l, true)))}, true
		}),
		"(*bufio.Reader).Discard": bm(func(e *Engine, b *byteCfg, st *State, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			l := b.left(st)
			n, isC := intConst(a[1])
			switch {
			case isC && n >= 0 && int(n) <= len(l):
				b.take(st, int(n))
				if st.tags[tagTail] != "" && len(l) == int(n) {
					st.tags[tagBuf] = "0"
				}
				return []Outcome{one(st, a[1], vNil())}, true
			case st.tags[tagTail] != "":
				var outs []Outcome
				for k := 0; k <= len(l); k++ {
					s := st.clone()
					b.take(s, k)
					if k == len(l) {
						s.tags[tagBuf] = "0"
					}
					outs = append(outs, one(s, Top, Top))
				}
				return outs, true
			case isC && n == 1 && st.tags[tagBuf] == "1":
				b.lost(st)
				return []Outcome{one(st, a[1], vNil())}, true
			}
			all := false
			if x := a[1].single(); x != nil && x.K == KApp && x.Name == "len" {
				if y := x.Args[0].single(); y != nil && y.K == KApp && y.Name == "peeked" {
					all = true
				}
			}
			b.lost(st)
			if all {
				st.tags[tagBuf] = "0"
			}
			return []Outcome{one(st, Top, Top)}, true
		}),
		"(*bufio.Reader).ReadByte": bm(func(e *Engine, b *byteCfg, st *State, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			some, none := b.fill(st)
			var outs []Outcome
			for _, s := range none {
				er, _ := b.end(s)
				outs = append(outs, one(s, cInt(0), er))
			}
			for _, s := range some {
				if l := b.left(s); len(l) > 0 {
					b.take(s, 1)
					outs = append(outs, one(s, l[0], vNil()))
					continue
				}
				b.lost(s)
				outs = append(outs, one(s, b.any, vNil()))
			}
			return outs, true
		}),
		"(*bufio.Reader).UnreadByte": bm(func(e *Engine, b *byteCfg, st *State, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			var n int
			fmt.Sscan(st.tags[tagPos], &n)
			if n > 0 && st.tags[tagBuf] != "" {
				st.tags[tagPos] = itoa(n - 1)
			}
			st.tags[tagBuf] = "1"
			return []Outcome{one(st, vNil())}, true
		}),
		"(*bufio.Reader).ReadBytes":  line(false, true),
		"(*bufio.Reader).ReadString": line(true, true),
		"io.CopyN": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			if !e.byteMode() || !e.isOurs(st, a[1]) {
				return nil, false
			}
			return e.readN(st, a[2], eofAV(), func(s *State, items []AV, known bool, er AV) Outcome {
				var content AV = Top
				if known {
					content = e.bytesVal(s, peeked(items, false))
				}
				s, _ = e.sinkWrite(s, a[0], content)
				return one(s, Top, er)
			}), true
		},
		"io.ReadFull": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			if !e.byteMode() || !e.isOurs(st, a[0]) {
				return nil, false
			}
			return e.readN(st, lenOf(e, st, a[1]), symNN("G:io.ErrUnexpectedEOF", errT()), func(s *State, items []AV, known bool, er AV) Outcome {
				if !known || !e.storeBytes(s, a[1], items) {
					e.havocReach(s, a[1], map[string]bool{})
				}
				return one(s, Top, er)
			}), true
		},
		"bytes.Compare": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			if r, ok := compareBytes(e.seqView(st, a[0]), e.seqView(st, a[1])); ok {
				return ret(st, cInt(int64(r)))
			}
			return nil, false
		},
		"bytes.Equal": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			if r, ok := compareBytes(e.seqView(st, a[0]), e.seqView(st, a[1])); ok {
				return ret(st, cBool(r == 0))
			}
			return nil, false
		},
		"bytes.HasPrefix": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			x, open, ok := byteParts(e.seqView(st, a[0]))
			y, open2, ok2 := byteParts(e.seqView(st, a[1]))
			if !ok || !ok2 || open2 {
				return nil, false
			}
			for i := range y {
				if i >= len(x) {
					if open {
						return nil, false
					}
					return ret(st, cBool(false))
				}
				p, ok1 := intConst(x[i])
				q, ok2 := intConst(y[i])
				if !ok1 || !ok2 {
					return nil, false
				}
				if p != q {
					return ret(st, cBool(false))
				}
			}
			return ret(st, cBool(true))
		},
		"bytes.Repeat": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			items, open, ok := byteParts(e.seqView(st, a[0]))
			n, isC := intConst(a[1])
			if !e.byteMode() || !ok || open || !isC || n < 0 || n > 16 {
				return nil, false
			}
			var out []AV
			for i := int64(0); i < n; i++ {
				out = append(out, items...)
			}
			return ret(st, peeked(out, false))
		},
		"bytes.Join": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			s := e.asSeq(st, a[0])
			sep, open, ok := byteParts(e.seqView(st, a[1]))
			if !e.byteMode() || s == nil || s.Open || !ok || open {
				return nil, false
			}
			var out []AV
			for i, x := range s.Args {
				it, open, ok := byteParts(e.seqView(st, x))
				if !ok || open || !s.Must[i] {
					return nil, false
				}
				if i > 0 {
					out = append(out, sep...)
				}
				out = append(out, it...)
			}
			return ret(st, peeked(out, false))
		},
	}
	fold := func(name string, f func(n uint64) float64) {
		m[name] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			x := a[0].single()
			if !e.byteMode() || x == nil || x.K != KConst {
				return nil, false
			}
			n, ok := constant.Uint64Val(constant.ToInt(x.C))
			v := f(n)
			if !ok || math.IsNaN(v) || math.IsInf(v, 0) {
				return nil, false
			}
			return ret(st, mk(&Atom{K: KConst, C: constant.MakeFloat64(v)}))
		}
	}
	fold("math.Float32frombits", func(n uint64) float64 { return float64(math.Float32frombits(uint32(n))) })
	fold("math.Float64frombits", math.Float64frombits)
	m["math.Ldexp"] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		x := a[0].single()
		k, isC := intConst(a[1])
		if !e.byteMode() || x == nil || x.K != KConst || !isC {
			return nil, false
		}
		f, _ := constant.Float64Val(constant.ToFloat(x.C))
		return ret(st, mk(&Atom{K: KConst, C: constant.MakeFloat64(math.Ldexp(f, int(k)))}))
	}
	for _, ft := range []struct {
		n string
		k int
	}{{"Uint16", 2}, {"Uint32", 4}, {"Uint64", 8}} {
		m["(encoding/binary.bigEndian)."+ft.n] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			if !e.byteMode() {
				return nil, false
			}
			t := types.Typ[map[int]types.BasicKind{2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[ft.k]]
			items, open, ok := byteParts(e.seqView(st, a[1]))
			if !ok || open || len(items) < ft.k {
				return ret(st, Top)
			}
			v := constant.MakeInt64(0)
			for _, x := range items[:ft.k] {
				n, isC := intConst(x)
				if !isC {
					return ret(st, mk(&Atom{K: KApp, Name: "bigendian", Args: items[:ft.k], T: t}))
				}
				v = constant.BinaryOp(constant.Shift(v, token.SHL, 8), token.OR, constant.MakeInt64(n))
			}
			return ret(st, mk(&Atom{K: KConst, C: v}))
		}
	}
	return m
}

// seqView: arrays sliced whole are lists of their elements.
func (e *Engine) seqView(st *State, v AV) AV {
	if a := v.single(); a != nil && a.K == KApp && a.Name == "slice" {
		if s := e.asSeq(st, v); s != nil {
			return mk(s)
		}
	}
	return v
}

// storeBytes writes known bytes into a slice of a tracked array.
func (e *Engine) storeBytes(st *State, dst AV, items []AV) bool {
	a := dst.single()
	if a == nil || a.K != KApp || a.Name != "slice" {
		return false
	}
	b := a.Args[0].single()
	lo, ok1 := intConst(a.Args[1])
	hi, ok2 := intConst(a.Args[2])
	if b == nil || b.K != KPtr || !ok1 || !ok2 || st.get(b.Obj) == nil || st.get(b.Obj).Summary {
		return false
	}
	for i, x := range items {
		if lo+int64(i) < hi {
			st.mut(b.Obj).F[b.Path+"["+itoa(int(lo)+i)+"]"] = x
		}
	}
	return true
}

func compareBytes(x, y AV) (int, bool) {
	a, o1, ok1 := byteParts(x)
	b, o2, ok2 := byteParts(y)
	if !ok1 || !ok2 {
		return 0, false
	}
	for i := 0; ; i++ {
		switch {
		case i >= len(a) && o1 || i >= len(b) && o2:
			return 0, false
		case i >= len(a) && i >= len(b):
			return 0, true
		case i >= len(a):
			return -1, true
		case i >= len(b):
			return 1, true
		}
		p, ok1 := intConst(a[i])
		q, ok2 := intConst(b[i])
		if !ok1 || !ok2 {
			return 0, false
		}
		if p < q {
			return -1, true
		}
		if p > q {
			return 1, true
		}
	}
}

// readN reads exactly n bytes, or runs out.
func (e *Engine) readN(st *State, n AV, partial AV, f func(s *State, items []AV, known bool, er AV) Outcome) []Outcome {
	b := e.streams.bytes
	k, isC := intConst(n)
	l := b.left(st)
	_, ended := b.end(st)
	switch {
	case isC && k <= 0:
		return []Outcome{f(st, nil, true, vNil())}
	case isC && int(k) <= len(l):
		b.take(st, int(k))
		return []Outcome{f(st, l[:k], true, vNil())}
	}
	var outs []Outcome
	if !ended || !isC {
		// there is enough (of an unknown number, perhaps none)
		s := st.clone()
		if ended {
			for i := 0; i <= len(l); i++ {
				s := st.clone()
				b.take(s, i)
				outs = append(outs, f(s, nil, false, vNil()))
			}
		} else {
			b.lost(s)
			outs = append(outs, f(s, nil, false, vNil()))
		}
	}
	for _, t := range []string{"eof", "err"} {
		if ended && st.tags[tagTail] != t {
			continue
		}
		s := st.clone()
		s.tags[tagTail] = t
		s.tags[tagBuf] = "0"
		s.tags[tagPos] = itoa(len(b.pre))
		er, _ := b.end(s)
		outs = append(outs, f(s, nil, false, er))
		if t == "eof" && !sameAV(partial, er) {
			outs = append(outs, f(s.clone(), nil, false, partial))
		}
	}
	return outs
}

// ---- recursion -------------------------------------------------------------------------------

func srcClass(st *State) string { return st.tags[tagTail] }

// errClasses: the kinds of error er may be.
func errClasses(st *State, er AV) []string {
	if er.top {
		return []string{"?"}
	}
	ks := map[string]bool{}
	if st.isZero(er) != F {
		if st.isZero(er) == T {
			return []string{"ok"}
		}
		ks["ok"] = true
	}
	for _, a := range er.atoms {
		if a.K == KNil || a.K == KZero {
			continue
		}
		switch st.eqAtom(a, eofAV().single()) {
		case T:
			ks["eof"] = true
		case F:
			ks["err"] = true
		default:
			ks["?"] = true
		}
	}
	return sortedKeys(ks)
}

func errClass(st *State, er AV) string {
	if ks := errClasses(st, er); len(ks) == 1 {
		return ks[0]
	}
	return "?"
}

// summable: a method of the reader whose results tell nothing about single bytes.
func (e *Engine) summable(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || !e.p.inRepo(fn) || fn.Name() == "ReadEntry" {
		return false
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Basic, *types.Interface, *types.Map:
		case *types.Slice:
			if isStringy(u) && !e.recursive(fn) && !isErrorType(rs.At(rs.Len()-1).Type()) {
				return false
			}
		default:
			return false
		}
	}
	return rs.Len() > 0
}

// consumes: fn, or what it calls, touches the source.
func (e *Engine) consumes(fn *ssa.Function) (src, fields bool) {
	recv, _ := ptrElem(fn.Signature.Recv().Type())
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if !e.p.inRepo(f) {
			src = src || e.streamName(f)
			return
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if t, ok := ptrElem(x.X.Type()); ok && recv != nil && types.Identical(t, recv) {
						if _, basic := structOf(t).Field(x.Field).Type().Underlying().(*types.Basic); basic {
							fields = true
						}
					}
				case ssa.CallInstruction:
					walk(x.Common().StaticCallee())
				}
			}
		}
	}
	walk(fn)
	return
}

func (e *Engine) streamName(f *ssa.Function) bool {
	_, ok := streamModels[shortName(f)]
	return ok
}

func numericResult(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if basicNum(rs.At(i).Type()) {
			return true
		}
	}
	return false
}

func allConst(vs []AV) bool {
	for _, v := range vs {
		if a := v.single(); a == nil || a.K != KConst {
			return false
		}
	}
	return len(vs) > 0
}

func recKey(fn *ssa.Function, st *State, args []AV) string {
	k := shortName(fn)
	for _, a := range args[1:] {
		if x := a.single(); x != nil && x.K == KConst {
			k += "," + x.Key()
		} else {
			k += ",?"
		}
	}
	return k + "/" + srcClass(st) + "/" + st.tags[tagBuf]
}

// summary answers a call of a function that is part of a recursion and reads
// unknown bytes from the outcomes of its runs on any state of the reader; a call
// that is already being answered is answered by what is known so far.
func (e *Engine) summary(fr *frame, st *State, fn *ssa.Function, c *ssa.CallCommon, site ssa.Instruction, args []AV) ([]Outcome, bool) {
	b := e.streams.bytes
	if b.recs == nil || len(args) == 0 || !e.summable(fn) || len(b.left(st)) > 0 {
		return nil, false
	}
	recv := args[0].single()
	if recv == nil || recv.K != KPtr || st.get(recv.Obj) == nil {
		return nil, false
	}
	if !e.recursive(fn) {
		src, fields := e.consumes(fn)
		if !src || fields || numericResult(fn) && allConst(args[1:]) {
			return nil, false
		}
	}
	key := recKey(fn, st, args)
	if !b.done[key] {
		b.done[key] = true
		g := st.clone()
		g.facts = map[string]Fact{}
		for t := range g.tags {
			if !strings.HasPrefix(t, "src.") {
				delete(g.tags, t)
			}
		}
		for f := range e.modFields(fn) {
			g.mut(recv.Obj).F[recv.Path+"."+f] = Top
		}
		if t, ok := ptrElem(fn.Signature.Recv().Type()); ok && structOf(t) != nil {
			for i := 0; i < structOf(t).NumFields(); i++ {
				if _, basic := structOf(t).Field(i).Type().Underlying().(*types.Basic); basic {
					g.mut(recv.Obj).F[recv.Path+"."+structOf(t).Field(i).Name()] = Top
				}
			}
		}
		ga := append([]AV{}, args...)
		for i := range ga[1:] {
			if x := ga[i+1].single(); x == nil || x.K != KConst {
				ga[i+1] = Top
			}
		}
		xs := e.run(fn, ga, nil, g, "summary:"+shortName(fn))
		e.learn(fn, key, xs)
	}
	rs := fn.Signature.Results()
	var outs []Outcome
	for _, k := range sortedKeys(b.rec[key]) {
		p := strings.Split(k, "/")
		s := st.clone()
		if p[0] != "" {
			s.tags[tagTail] = p[0]
		}
		if p[1] == "" {
			delete(s.tags, tagBuf)
		} else {
			s.tags[tagBuf] = p[1]
		}
		for f := range e.modFields(fn) {
			s.mut(recv.Obj).F[recv.Path+"."+f] = Top
		}
		var res []AV
		for i := 0; i < rs.Len(); i++ {
			n, _ := s.fresh("nested@" + e.site(fr, site))
			v := mk(&Atom{K: KSym, Name: n, T: rs.At(i).Type(), Summary: true})
			switch p[i+2] {
			case "ok", "nil":
				v = vNil()
			case "eof":
				v = eofAV()
			case "err":
				v = symNN("fault@nested", errT())
			case "?":
				v = Top
			case "true":
				v = cBool(true)
			case "false":
				v = cBool(false)
			case "number":
				v = iface(types.Typ[types.Int64], Top)
			}
			res = append(res, v)
		}
		outs = append(outs, Outcome{st: s, res: res})
	}
	return outs, true
}

// learn records how a run of fn ended.
func (e *Engine) learn(fn *ssa.Function, key string, xs []Exit) {
	b := e.streams.bytes
	rs := fn.Signature.Results()
	for _, x := range xs {
		if x.panic {
			continue
		}
		ks := []string{srcClass(x.st) + "/" + x.st.tags[tagBuf]}
		for i := 0; i < rs.Len(); i++ {
			cs := []string{""}
			t := rs.At(i).Type()
			if v, ok := boolConst(x.res[i]); ok && t.Underlying() == types.Typ[types.Bool] {
				cs = []string{fmt.Sprint(v)}
			} else if isErrorType(t) {
				cs = errClasses(x.st, x.res[i])
			} else if types.IsInterface(t) && numberOrNil(x.res[i]) {
				cs = []string{"number"}
			}
			var next []string
			for _, k := range ks {
				for _, c := range cs {
					next = append(next, k+"/"+c)
				}
			}
			ks = next
		}
		if b.rec[key] == nil {
			b.rec[key] = map[string]bool{}
		}
		for _, k := range ks {
			if !b.rec[key][k] {
				b.rec[key][k] = true
				b.grew = true
			}
		}
	}
}

func numberOrNil(v AV) bool {
	if v.top || v.isBottom() {
		return false
	}
	for _, a := range v.atoms {
		if a.K == KNil || a.K == KIface && basicNum(a.T) {
			continue
		}
		return false
	}
	return true
}

// recursive: fn can reach itself through static calls.
func (e *Engine) recursive(fn *ssa.Function) bool {
	b := e.streams.bytes
	if v, ok := b.recs[fn]; ok {
		return v
	}
	seen := map[*ssa.Function]bool{}
	found := false
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || !e.p.inRepo(f) || found {
			return
		}
		var callees []*ssa.Function
		callees = append(callees, f.AnonFuncs...)
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callees = append(callees, g)
					}
				}
			}
		}
		for _, g := range callees {
			if g == fn {
				found = true
			}
			if !seen[g] {
				seen[g] = true
				walk(g)
			}
		}
	}
	walk(fn)
	b.recs[fn] = found
	return found
}

// modFields: the fields of the receiver's type stored by fn or what it calls.
func (e *Engine) modFields(fn *ssa.Function) map[string]bool {
	b := e.streams.bytes
	if m, ok := b.mods[fn]; ok {
		return m
	}
	m := map[string]bool{}
	b.mods[fn] = m
	recv, _ := ptrElem(fn.Signature.Recv().Type())
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !e.p.inRepo(f) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if t, ok := ptrElem(fa.X.Type()); ok && recv != nil && types.Identical(t, recv) {
							m[structOf(t).Field(fa.Field).Name()] = true
						}
					}
				case ssa.CallInstruction:
					walk(x.Common().StaticCallee())
				}
			}
		}
	}
	walk(fn)
	return m
}

// opaqueHelper: a function of bytes, text and numbers alone that cannot fail has
// no part in where a document ends; its result is any value.
func (e *Engine) opaqueHelper(fn *ssa.Function) bool {
	if !e.p.inRepo(fn) || fn.Signature.Recv() != nil || len(fn.FreeVars) > 0 || fn.Signature.Results().Len() == 0 {
		return false
	}
	plain := func(tu *types.Tuple, texty bool) bool {
		for i := 0; i < tu.Len(); i++ {
			t := tu.At(i).Type()
			if _, ok := t.Underlying().(*types.Basic); !ok && !isStringy(t) {
				return false
			}
		}
		return true
	}
	if !plain(fn.Signature.Params(), false) || !plain(fn.Signature.Results(), true) {
		return false
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if b, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Store); ok {
				for _, g := range in.Operands(nil) {
					if _, isG := (*g).(*ssa.Global); isG {
						return false
					}
				}
			}
		}
	}
	return true
}
