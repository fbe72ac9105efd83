package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C34: readers around readers pass on what they read ------------------------------------------
//
// The source is a known sequence of bytes followed by its end or a failure. How much of
// it was taken is part of the path (tags). A buffered reader around it gives the same
// bytes whatever its size; a direct read gives them one at a time.

type wrapSrc struct {
	in  string
	end string // "eof", "err"
	p   *Program

	chunk int  // bytes given at a time, 1 if not set
	with  bool // the end comes with the last bytes
}

func (w *wrapSrc) pos(st *State) int { return len(st.tags["pos"]) }

func (w *wrapSrc) ended() AV {
	if w.end == "eof" {
		return eofAV()
	}
	return symNN("fault@source", errT())
}

func (w *wrapSrc) ours(v AV) bool {
	a := stripIface(v).single()
	return a != nil && a.K == KSym && (a.Name == "rd" || a.Name == "BR")
}

// at: the next k bytes, all of them if there are as many.
func (w *wrapSrc) at(st *State, k int) (string, bool) {
	l := w.in[w.pos(st):]
	if len(l) < k {
		return l, false
	}
	return l[:k], true
}

func (w *wrapSrc) take(st *State, k int) { st.tags["pos"] += strings.Repeat(".", k) }

func (w *wrapSrc) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	switch name {
	case "bufio.NewReader", "bufio.NewReaderSize":
		if !w.ours(a[0]) {
			e.fail("a reader of something else is made: " + clip(a[0].Key()))
		}
		return ret(st, symNN("BR", resultTypes(c)[0]))
	}
	if (name == "io.ReadAll" || name == "io/ioutil.ReadAll") && w.ours(a[0]) {
		b, _ := w.at(st, len(w.in)+1)
		w.take(st, len(b))
		er := vNil()
		if w.end == "err" {
			er = w.ended()
		}
		return ret(st, peeked(str2bs(b), false), er)
	}
	if (name == "io.ReadFull" || name == "io.ReadAtLeast") && w.ours(a[0]) {
		n, ok := intConst(lenOf(e, st, a[1]))
		if !ok {
			return nil, false
		}
		if isBR := stripIface(a[0]).single().Name == "BR"; isBR {
			st.tags["buffered"] = "yes"
		} else if st.tags["buffered"] != "" {
			e.fail("the source is read both directly and through a buffer")
		}
		min := n
		if name == "io.ReadAtLeast" {
			if min, ok = intConst(a[2]); !ok {
				return nil, false
			}
			if min > n {
				return ret(st, cInt(0), symNN("G:io.ErrShortBuffer", errT()))
			}
		}
		b, _ := w.at(st, int(n))
		if b != "" && !e.storeBytes(st, a[1], str2bs(b)) {
			return nil, false
		}
		w.take(st, len(b))
		er := vNil()
		switch {
		case int64(len(b)) >= min:
		case w.end == "eof" && len(b) > 0:
			er = symNN("G:io.ErrUnexpectedEOF", errT())
		default:
			er = w.ended()
		}
		return ret(st, cInt(int64(len(b))), er)
	}
	if !strings.HasPrefix(name, "(*bufio.Reader).") || len(a) == 0 || !w.ours(a[0]) {
		return nil, false
	}
	st.tags["buffered"] = "yes"
	defer func() { st.tags["last"] = "" }()
	switch name[len("(*bufio.Reader)."):] {
	case "ReadByte":
		b, ok := w.at(st, 1)
		if !ok {
			return ret(st, cInt(0), w.ended())
		}
		w.take(st, 1)
		return ret(st, cInt(int64(b[0])), vNil())
	case "ReadRune":
		b, ok := w.at(st, 1)
		if !ok {
			return ret(st, cInt(0), cInt(0), w.ended())
		}
		if b[0] >= 0x80 {
			return nil, false
		}
		w.take(st, 1)
		return ret(st, cInt(int64(b[0])), cInt(1), vNil())
	case "UnreadByte", "UnreadRune":
		if w.pos(st) == 0 {
			return nil, false
		}
		st.tags["pos"] = st.tags["pos"][1:]
		return ret(st, vNil())
	case "Peek":
		n, ok := intConst(a[1])
		if !ok {
			return nil, false
		}
		b, all := w.at(st, int(n))
		er := vNil()
		if !all {
			er = w.ended()
		}
		return ret(st, peeked(str2bs(b), false), er)
	case "Discard":
		n, ok := intConst(a[1])
		if !ok {
			return nil, false
		}
		b, all := w.at(st, int(n))
		w.take(st, len(b))
		er := vNil()
		if !all {
			er = w.ended()
		}
		return ret(st, cInt(int64(len(b))), er)
	case "Read":
		return w.read(e, st, a[1])
	}
	return nil, false
}

// read: one byte at a time, the end on its own.
func (w *wrapSrc) read(e *Engine, st *State, p AV) ([]Outcome, bool) {
	n, ok := intConst(lenOf(e, st, p))
	if !ok {
		return nil, false
	}
	if n == 0 {
		return ret(st, cInt(0), vNil())
	}
	b, _ := w.at(st, min(max(1, w.chunk), int(n)))
	if b == "" {
		return ret(st, cInt(0), w.ended())
	}
	if !e.storeBytes(st, p, str2bs(b)) {
		return nil, false
	}
	w.take(st, len(b))
	er := vNil()
	if w.with && w.pos(st) == len(w.in) {
		er = w.ended()
	}
	return ret(st, cInt(int64(len(b))), er)
}

func (w *wrapSrc) source(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	if len(a) == 2 && w.ours(a[0]) && strings.HasSuffix(name, ".Read") {
		if st.tags["buffered"] != "" {
			e.fail("the source is read both directly and through a buffer")
		}
		return w.read(e, st, a[1])
	}
	return nil, false
}

func completed(in string) string {
	out := ""
	for i := 0; i < len(in); i++ {
		out += in[i : i+1]
		if in[i] == '\r' && (i+1 == len(in) || in[i+1] != '\n') {
			out += "\n"
		}
	}
	return out
}

// chain reads a reader to its end with buffers of the given sizes, in turn.
func (w *wrapSrc) chain(r *Report, mkFn *ssa.Function, sizes []int, id string) {
	e := newEngine(w.p)
	e.streams = &streamCfg{}
	e.preHook, e.extHook = w.hook, w.source
	e.apart = true
	st := baseState(w.p)
	args := []AV{symNN("rd", mkFn.Signature.Params().At(0).Type())}
	if mkFn.Signature.Params().Len() > 1 {
		args = append(args, cInt(16))
	}
	bad := func(why string) { r.bad(id, w.p.fpos(mkFn), "%s", why) }
	xs := normalExits(e.run(mkFn, args, nil, st, "open"))
	r.engine(e)
	if len(e.undecided) > 0 || len(xs) != 1 {
		bad(undecidedWhy(e, "the reader cannot be made"))
		return
	}
	cur, rd := xs[0].st, xs[0].res[0]
	want, got, after := completed(w.in), "", 0
	for i := 0; ; i++ {
		if i > 3*len(want)+6 {
			bad("reading does not get to the end")
			return
		}
		k := sizes[i%len(sizes)]
		if after > 0 {
			k = 2
		}
		at := types.NewArray(types.Typ[types.Byte], int64(k))
		oid := "P" + itoa(i)
		cur = cur.clone()
		cur.heap[oid] = &Obj{ID: oid, T: at, F: map[string]AV{}}
		p := mk(&Atom{K: KApp, Name: "slice", Args: []AV{ptr(oid, "", at), cInt(0), cInt(int64(k))}, T: byteSeqT, NonNil: true})
		xs, fn := e.method(cur, rd, "Read", "r"+itoa(i), p)
		if fn == nil {
			bad("the reader cannot be read")
			return
		}
		if len(e.undecided) > 0 || len(xs) != 1 {
			bad(undecidedWhy(e, fmt.Sprintf("read %d ends in %d ways", i, len(xs))))
			return
		}
		x := xs[0]
		cur = x.st
		n, ok := intConst(cur.norm(x.res[0]))
		if !ok || n < 0 || int(n) > k {
			bad(fmt.Sprintf("a read into %d bytes gives %s", k, clip(x.res[0].Key())))
			return
		}
		for j := 0; j < int(n); j++ {
			c, ok := intConst(cur.norm(cur.read(cur.get(oid), "["+itoa(j)+"]", types.Typ[types.Byte])))
			if !ok {
				bad("a byte read is unknown")
				return
			}
			got += string([]byte{byte(c)})
		}
		er := cur.norm(x.res[1])
		ended := cur.isZero(er) != T
		if k := errClass(cur, er); k != "ok" && k != w.end || ended != (k != "ok") {
			bad("the error is " + clip(er.Key()))
			return
		}
		if !strings.HasPrefix(want, got) {
			bad(fmt.Sprintf("%q is read as %q, expected %q (buffers of %v)", w.in, got, want, sizes))
			return
		}
		switch {
		case !ended && n == 0 && k > 0:
			bad("a read gives nothing and no error")
			return
		case ended && got != want && !(w.end == "err" && strings.HasSuffix(w.in, "\r") && got+"\n" == want):
			bad(fmt.Sprintf("%q is read as %q and the end, expected %q (buffers of %v)", w.in, got, want, sizes))
			return
		case !ended && after > 0:
			bad("reading goes on after the end")
			return
		}
		if ended {
			if after++; after == 3 {
				break
			}
		}
	}
	r.ok(id)
}

func undecidedWhy(e *Engine, why string) string {
	if len(e.undecided) > 0 {
		return "undecided: " + e.undecided[0]
	}
	return why
}

func checkWrappers(p *Program) *Report {
	r := newReport("C34")
	r.Rule = "Folding of the readers that wrap readers: the reader that completes carriage returns is read to its end over all inputs of up to four bytes out of a letter, CR and LF, ending or failing, with buffers of ten patterns of sizes; the concatenation of what it gives must be the input with a line feed after every lone carriage return. The counting reader is read over all sequences of up to two answers of its source."
	var jobs []func(r *Report)
	patterns := [][]int{{1}, {2}, {3}, {4}, {5}, {12}, {1, 2}, {2, 1}, {3, 1}, {0, 1, 0, 2}}
	for _, name := range []string{"dsio/replacecr.Reader", "dsio/replacecr.ReaderWithSize"} {
		fn := p.fn(name)
		if !r.need(fn != nil, name) {
			continue
		}
		var rec func(in string)
		rec = func(in string) {
			for _, end := range []string{"eof", "err"} {
				for _, sizes := range patterns {
					w := &wrapSrc{in: in, end: end, p: p}
					sizes := sizes
					jobs = append(jobs, func(r *Report) {
						w.chain(r, fn, sizes, fmt.Sprintf("%s %q %s %v", name, w.in, w.end, sizes))
					})
				}
			}
			if len(in) == 4 {
				return
			}
			for _, c := range []string{"x", "\r", "\n"} {
				rec(in + c)
			}
		}
		rec("")
	}
	p.counting(r, &jobs)
	r.run(jobs)
	r.atLeast(len(jobs), 4000, "inputs")
	return r
}

// counting: the reader that counts is its source otherwise.
func (p *Program) counting(r *Report, jobs *[]func(r *Report)) {
	mkFn := p.fn("dsio.NewTrackedReader")
	if !r.need(mkFn != nil, "dsio.NewTrackedReader") {
		return
	}
	type answer struct {
		n   int
		end string
	}
	var all []answer
	for _, n := range []int{0, 1, 4} {
		for _, end := range []string{"ok", "eof", "err"} {
			all = append(all, answer{n, end})
		}
	}
	kinds := map[string]AV{"ok": vNil(), "eof": eofAV(), "err": symNN("fault@source", errT())}
	std := func(pkg, name string) types.Type {
		if sp := p.SSA.ImportedPackage(pkg); sp != nil {
			if t, ok := sp.Members[name].(*ssa.Type); ok {
				return types.NewPointer(t.Type())
			}
		}
		return nil
	}
	closerT, plainT := std("os", "File"), std("bytes", "Buffer")
	if !r.need(closerT != nil && plainT != nil, "os.File and bytes.Buffer as sources") {
		return
	}
	one := func(answers []answer, srcT types.Type) {
		answers = append([]answer{}, answers...)
		id := fmt.Sprint("counting ", answers, " ", srcT)
		*jobs = append(*jobs, func(r *Report) {
			e := newEngine(p)
			e.streams = &streamCfg{}
			e.apart = true
			e.preHook = func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
				if len(a) == 0 {
					return nil, false
				}
				x := stripIface(a[0]).single()
				if x == nil || x.Name != "rd" {
					return nil, false
				}
				switch {
				case strings.HasSuffix(name, ".Read") && len(a) == 2:
					k := len(st.tags["reads"])
					st.tags["reads"] += "."
					st.tags["into"] = a[1].Key()
					if k >= len(answers) {
						return nil, false
					}
					return ret(st, cInt(int64(answers[k].n)), kinds[answers[k].end])
				case strings.HasSuffix(name, ".Close"):
					st.tags["closed"] += "."
					return ret(st, symNN("fault@closing", errT()))
				}
				return nil, false
			}
			bad := func(why string) { r.bad(id, p.fpos(mkFn), "%s", why) }
			xs := normalExits(e.run(mkFn, []AV{iface(srcT, symNN("rd", srcT))}, nil, baseState(p), "open"))
			r.engine(e)
			if len(e.undecided) > 0 || len(xs) != 1 {
				bad(undecidedWhy(e, "the reader cannot be made"))
				return
			}
			cur, rd := xs[0].st, xs[0].res[0]
			call := func(name string, args ...AV) (Exit, bool) {
				fn := p.method(dsioPkg, "TrackedReader", name)
				if fn == nil {
					bad("the reader has no " + name)
					return Exit{}, false
				}
				n := cur.clone()
				n.env = map[ssa.Value]AV{}
				xs := normalExits(e.run(fn, append([]AV{rd}, args...), nil, n, name+cur.tags["reads"]))
				if len(e.undecided) > 0 || len(xs) == 0 {
					bad(undecidedWhy(e, name+" does not return"))
					return Exit{}, false
				}
				if len(xs) != 1 {
					bad(fmt.Sprintf("%s ends in %d ways", name, len(xs)))
					return Exit{}, false
				}
				cur = xs[0].st
				return xs[0], true
			}
			count := func(want int) bool {
				x, ok := call("BytesRead")
				if !ok {
					return false
				}
				if n, ok := intConst(cur.norm(x.res[0])); !ok || int(n) != want {
					bad(fmt.Sprintf("the count is %s, expected %d", clip(x.res[0].Key()), want))
					return false
				}
				return true
			}
			sum := 0
			for _, an := range answers {
				if !count(sum) {
					return
				}
				at := types.NewArray(types.Typ[types.Byte], 4)
				cur = cur.clone()
				cur.heap["P"] = &Obj{ID: "P", T: at, F: map[string]AV{}}
				buf := mk(&Atom{K: KApp, Name: "slice", Args: []AV{ptr("P", "", at), cInt(0), cInt(4)}, T: byteSeqT, NonNil: true})
				x, ok := call("Read", buf)
				if !ok {
					return
				}
				sum += an.n
				n, known := intConst(cur.norm(x.res[0]))
				if !known || int(n) != an.n || errClass(cur, x.res[1]) != an.end {
					bad(fmt.Sprintf("the source gives %v, the reader %s and %s", an, clip(x.res[0].Key()), clip(x.res[1].Key())))
					return
				}
				if cur.tags["into"] != buf.Key() {
					bad("the source is read into " + cur.tags["into"])
					return
				}
			}
			if !count(sum) {
				return
			}
			x, ok := call("Close")
			if !ok {
				return
			}
			want, n := "ok", 0
			if srcT == closerT {
				want, n = "err", 1
			}
			if k := errClass(cur, x.res[0]); k != want || len(cur.tags["closed"]) != n {
				bad(fmt.Sprintf("closing gives %s with %d calls of the source's Close", clip(x.res[0].Key()), len(cur.tags["closed"])))
				return
			}
			r.ok(id)
		})
	}
	var rec func(an []answer)
	rec = func(an []answer) {
		one(an, closerT)
		one(an, plainT)
		if len(an) == 2 {
			return
		}
		for _, x := range all {
			rec(append(append([]answer{}, an...), x))
		}
	}
	rec(nil)
}
