package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C22: the end of the data is only reported when it was read -------------------------------

type bScn struct {
	wScn
	st0 *State // right after construction
	rd  AV
	rec map[string]map[string]bool
	seq int
	fn  string

	mods map[*ssa.Function]map[string]bool
	recs map[*ssa.Function]bool
	done map[string]bool

	follow bool // helpers are followed
}

func (s *bScn) label() string { return s.format + "/" + s.tlt }

func (s *bScn) openBytes(r *Report) string {
	s.e = newEngine(s.p)
	s.rec = map[string]map[string]bool{}
	s.mods, s.recs, s.done = map[*ssa.Function]map[string]bool{}, map[*ssa.Function]bool{}, map[string]bool{}
	s.e.streams = &streamCfg{src: &srcCfg{}}
	st := baseState(s.p)
	if s.follow {
		st.maxFresh = 150
	}
	sp := s.structure(st)
	fn := s.p.fn("dsio.NewEntryReader")
	if fn == nil {
		return "dsio.NewEntryReader is gone"
	}
	var ok []Exit
	for _, x := range normalExits(s.e.run(fn, []AV{sp, sinkAV}, nil, st, "open")) {
		if x.st.isZero(x.res[1]) == T {
			ok = append(ok, x)
		} else if x.st.isZero(x.res[1]) == U {
			return "it is undecided whether construction fails"
		}
	}
	if len(s.e.undecided) > 0 {
		return "undecided: " + s.e.undecided[0]
	}
	if len(ok) != 1 {
		return fmt.Sprintf("construction succeeds in %d ways, expected 1", len(ok))
	}
	s.st0, s.rd = ok[0].st, ok[0].res[0]
	if a := s.rd.single(); a == nil || a.K != KIface {
		return "the reader is unknown"
	} else {
		s.fn = typeKey(a.T)
	}
	return ""
}

// read runs ReadEntry on a source of the given bytes and tail.
func (s *bScn) read(st *State, pre []AV, tail string) ([]Exit, string) {
	for i := 0; i < 12; i++ {
		b := &byteCfg{pre: pre, tail: tail, any: Top, follow: s.follow, rec: s.rec, mods: s.mods, recs: s.recs, done: s.done}
		if s.format == "json" {
			b.any = nonSpace
		}
		s.e.streams.bytes = b
		n := st.clone()
		n.tags = map[string]string{}
		b.start(n)
		s.seq++
		s.e.events = map[string]bool{}
		s.e.steps = 0
		xs, fn := s.e.method(n, s.rd, "ReadEntry", fmt.Sprintf("b%d", s.seq))
		s.e.streams.bytes = nil
		if fn == nil {
			return nil, "the reader has no ReadEntry"
		}
		if len(s.e.undecided) > 0 {
			why := "undecided: " + s.e.undecided[0]
			s.e.undecided = nil
			return nil, why
		}
		if !b.grew {
			return xs, ""
		}
		for k := range s.done {
			delete(s.done, k)
		}
	}
	return nil, "undecided: the outcomes of recursive calls do not settle"
}

type bWant struct {
	eof  string // "only": every outcome is the end, "never": none is
	ok   bool   // an entry may be delivered
	need bool   // an entry is delivered on some path

	whole bool // the bytes may be a whole entry
}

func (s *bScn) judge(xs []Exit, w bWant) string {
	got := false
	if len(xs) == 0 {
		return "no outcome at all"
	}
	for _, x := range xs {
		er := x.res[len(x.res)-1]
		k := errClass(x.st, er)
		end := x.st.tags[tagTail]
		switch {
		case k == "?":
			return "it cannot be excluded that the error is io.EOF: " + clip(er.Key())
		case w.eof == "only" && k != "eof":
			return fmt.Sprintf("the outcome is %s, not the end of the data", kindText(k))
		case w.eof == "never" && k == "eof":
			why := "the end of the data (io.EOF) is reported although the document is not complete"
			if end != "" {
				why += ", the source ended inside it"
			}
			return why
		case k == "ok" && !w.ok:
			return "an entry is delivered without the document going on"
		case k == "ok":
			got = true
			if end != "" && !w.whole && !s.maySurvive(x) {
				return fmt.Sprintf("an entry is delivered although the source %s inside it: %s", map[string]string{"eof": "ended", "err": "failed"}[end], clip(project(x.res[0], "Value", anyTy).Key()))
			}
		}
	}
	if w.need && !got {
		return "no entry can be delivered"
	}
	return ""
}

func kindText(k string) string {
	return map[string]string{"ok": "an entry", "err": "an error", "eof": "the end of the data"}[k]
}

// maySurvive: a number, or nothing, as the last thing before the source ended.
func (s *bScn) maySurvive(x Exit) bool {
	if s.format != "json" {
		return false
	}
	return numberOrNil(x.st.norm(project(x.res[0], "Value", anyTy)))
}

// anyEntries joins the states after one or more entries.
func (s *bScn) anyEntries(first, later []AV) (*State, string) {
	var acc *State
	st, pre := s.st0, first
	for i := 0; i < 8; i++ {
		xs, why := s.read(st, pre, "any")
		if why != "" {
			return nil, why
		}
		grew := false
		for _, x := range xs {
			if errClass(x.st, x.res[1]) != "ok" || x.st.tags[tagTail] != "" {
				continue
			}
			n := x.st.clone()
			n.tags = map[string]string{}
			n = s.settled(n)
			if acc == nil {
				acc = n
				grew = true
				continue
			}
			if i >= 3 {
				widen(acc, n)
			}
			before := dump(acc)
			joinInto(acc, n)
			if dump(acc) != before {
				grew = true
			}
		}
		if acc == nil {
			return nil, "no entry is ever delivered"
		}
		if !grew {
			return acc, ""
		}
		st, pre = acc.clone(), later
	}
	return nil, "undecided: the state of the reader does not settle"
}

// settled keeps what outlives a call: the objects that were there before it.
func (s *bScn) settled(n *State) *State {
	out := n.clone()
	out.tags = map[string]string{}
	out.env, out.facts = s.st0.env, s.st0.facts
	known := func(v AV) bool {
		ok := true
		for _, a := range v.atoms {
			if a.Obj != "" && s.st0.get(a.Obj) == nil {
				ok = false
			}
		}
		return ok
	}
	for id := range out.heap {
		if s.st0.get(id) == nil {
			delete(out.heap, id)
			continue
		}
		for k, v := range out.get(id).F {
			if !known(v) {
				out.mut(id).F[k] = Top
			}
		}
	}
	return out
}

func bs(ss ...int) []AV {
	var out []AV
	for _, c := range ss {
		out = append(out, cInt(int64(c)))
	}
	return out
}

func str2bs(t string, more ...int) []AV {
	var out []AV
	for _, c := range []byte(t) {
		out = append(out, cInt(int64(c)))
	}
	return append(out, bs(more...)...)
}

func checkTruncation(p *Program) *Report {
	r := newReport("C22")
	r.Rule = "Abstract interpretation of every byte-level reader (JSON, CBOR and NDJSON, list and object documents) over a buffered source that delivers a few known bytes (every possible next byte in turn) and then any bytes, the end, or a failure; recursive calls are answered from the outcomes found so far until nothing new appears. io.EOF may be returned exactly when the document's own end was read, and then on every later call; a source that runs out or fails before is an error other than io.EOF, and nothing but a number can be delivered from the cut place. The state after any number of entries is the fixpoint of the reader's own transitions."
	fn := p.fn("dsio.NewEntryReader")
	if !r.need(fn != nil, "dsio.NewEntryReader") {
		return r
	}
	var jobs []func(r *Report)
	for _, c := range []struct{ f, t string }{{"json", "array"}, {"json", "object"}, {"cbor", "array"}, {"cbor", "object"}, {"ndjson", "array"}} {
		jobs = append(jobs, func(r *Report) {
			s := &bScn{wScn: wScn{p: p, format: c.f, tlt: c.t}}
			why := s.openBytes(r)
			r.check(why == "", "made:"+s.label(), p.fpos(fn), "%s", why)
			if why == "" {
				switch c.f {
				case "json":
					s.json(r)
				case "cbor":
					s.cbor(r)
				default:
					s.ndjson(r)
				}
			}
			r.engine(s.e)
		})
	}
	r.run(jobs)
	r.atLeast(r.Counters["reads"], 2000, "reads")
	return r
}

func (s *bScn) pos() string {
	a := s.rd.single()
	if fn := s.p.SSA.MethodSets.MethodSet(a.T).Lookup(nil, "ReadEntry"); fn != nil {
		if f := s.p.SSA.MethodValue(fn); f != nil {
			return s.p.fpos(f)
		}
	}
	return ""
}

// expect reads from each of the states and judges the outcomes, one finding per
// group of bytes.
func (s *bScn) group(r *Report, id string, st *State, w bWant, runs []bRun) {
	bad := map[string][]string{}
	for _, ru := range runs {
		xs, why := s.read(st, ru.pre, ru.tail)
		if why == "" {
			w := w
			if s.format == "cbor" && len(ru.pre) > 0 {
				b, _ := intConst(ru.pre[len(ru.pre)-1])
				w.whole = wholeItem(int(b))
			}
			why = s.judge(xs, w)
		}
		r.Counters["reads"]++
		if why != "" {
			bad[why] = append(bad[why], ru.name())
		}
		if strings.HasPrefix(why, "undecided") {
			break
		}
	}
	var whys []string
	for k := range bad {
		whys = append(whys, k)
	}
	sort.Strings(whys)
	if len(whys) == 0 {
		r.ok(s.label() + ":" + id)
		return
	}
	for _, k := range whys {
		r.bad(s.label()+":"+id, s.pos(), "%s, on %s", k, clip(strings.Join(bad[k], " | ")))
	}
}

type bRun struct {
	pre  []AV
	tail string
}

func (ru bRun) name() string {
	out := ""
	for _, x := range ru.pre {
		n, _ := intConst(x)
		if n >= 0x20 && n < 0x7f {
			out += string(rune(n))
		} else {
			out += fmt.Sprintf("\\x%02x", n)
		}
	}
	return out + map[string]string{"any": "…", "eof": "<end>", "err": "<failure>"}[ru.tail]
}

var tails = []string{"any", "eof", "err"}

// each possible byte but those
func eachByte(pre []AV, except string, tails ...string) []bRun {
	var out []bRun
	for b := 0; b < 256; b++ {
		if strings.IndexByte(except, byte(b)) >= 0 {
			continue
		}
		for _, t := range tails {
			out = append(out, bRun{append(append([]AV{}, pre...), cInt(int64(b))), t})
		}
	}
	return out
}

func all(pre []AV, tails ...string) []bRun {
	var out []bRun
	for _, t := range tails {
		out = append(out, bRun{pre, t})
	}
	return out
}

const wsBytes = " \t\r\n"

// ended: after the end was reported it is reported again, whatever follows.
func (s *bScn) ended(r *Report, id string, st *State, pre []AV) {
	xs, why := s.read(st, pre, "any")
	if why == "" {
		why = s.judge(xs, bWant{eof: "only"})
	}
	if why == "" {
		for _, x := range xs {
			n := x.st.clone()
			n.env = st.env
			for _, t := range tails {
				ys, w := s.read(n, nil, t)
				if w == "" {
					w = s.judge(ys, bWant{eof: "only"})
				}
				r.Counters["reads"]++
				if w != "" {
					why = "after the end was reported, the next read: " + w
				}
			}
		}
	}
	r.check(why == "", s.label()+":"+id, s.pos(), "%s", why)
}

func (s *bScn) json(r *Report) {
	open, clos, in := "[", "]", ""
	if s.tlt == "object" {
		open, clos, in = "{", "}", "\"k\":"
	}
	never := bWant{eof: "never", ok: true}
	fails := bWant{eof: "never"}
	s.group(r, "nothing but the opening bracket starts a document", s.st0, fails, eachByte(nil, open+wsBytes, "any"))
	s.group(r, "an empty body is not a document", s.st0, fails, all(nil, "eof", "err"))
	s.group(r, "an opened document is not complete", s.st0, never, all(str2bs(open), "eof", "err"))
	s.group(r, "the first entry", s.st0, never, eachByte(str2bs(open), clos+wsBytes, tails...))
	s.ended(r, "an empty document ends, for good", s.st0, str2bs(open+clos))
	for _, c := range wsBytes {
		s.group(r, "an empty document with space ends", s.st0, bWant{eof: "only"}, all(str2bs(string(c)+open+string(c)+clos), tails...))
	}
	for _, c := range wsBytes {
		for _, n := range "[{" {
			s.group(r, "space does not end a nested value", s.st0, fails, all(str2bs(open+in+string(n)+string(c)), "eof", "err"))
		}
	}
	st, why := s.anyEntries(str2bs(open), str2bs(","))
	r.check(why == "", s.label()+":any number of entries", s.pos(), "%s", why)
	if why != "" {
		return
	}
	s.group(r, "a document cut short between entries", st, fails, all(nil, "eof", "err"))
	s.group(r, "only a comma or the closing bracket follows an entry", st, fails, eachByte(nil, clos+","+wsBytes, "any"))
	s.group(r, "the next entry", st, never, append(eachByte(str2bs(","), wsBytes+clos, tails...), all(str2bs(","), tails...)...))
	s.group(r, "an entry follows a comma", st, bWant{eof: "never", ok: true, need: true}, all(str2bs(","), "any"))
	s.ended(r, "the document ends at its closing bracket, for good", st, str2bs(clos))
	for _, c := range wsBytes {
		s.group(r, "the document ends after space", st, bWant{eof: "only"}, all(str2bs(string(c)+clos), tails...))
		s.group(r, "space does not end a document", st, fails, all(str2bs(string(c)), "eof", "err"))
	}
}

// wholeItem: a data item of CBOR that consists of this byte alone.
func wholeItem(b int) bool {
	n := b & 0x1f
	switch b >> 5 {
	case 0, 1:
		return n < 0x18
	case 2, 3, 4, 5:
		return n == 0
	case 7:
		return n < 0x18
	}
	return false
}

func (s *bScn) cbor(r *Report) {
	base := 0x80
	if s.tlt == "object" {
		base = 0xa0
	}
	never := bWant{eof: "never", ok: true}
	fails := bWant{eof: "never"}
	heads := ""
	for b := base; b < base+0x20; b++ {
		heads += string([]byte{byte(b)})
	}
	s.group(r, "only the header of its type starts a document", s.st0, fails, eachByte(nil, heads, "any"))
	s.group(r, "an empty body is not a document", s.st0, fails, all(nil, "eof", "err"))
	var cut []bRun
	for b := base; b < base+0x20; b++ {
		if b != base && b != base+0x1f {
			cut = append(cut, all(bs(b), tails...)...)
		}
		if n := map[int]int{0x18: 1, 0x19: 2, 0x1a: 4, 0x1b: 8}[b-base]; n > 0 {
			for k := 1; k <= n; k++ {
				cut = append(cut, all(append(bs(b), bs(make([]int, k-1)...)...), "eof", "err")...)
			}
		}
	}
	// a declared number of entries, however it is spelled
	var lens []bRun
	for _, b := range cut {
		h, _ := intConst(b.pre[0])
		if !(h-int64(base) >= 0x18 && h-int64(base) <= 0x1b && b.tail == "any") {
			lens = append(lens, b)
		}
	}
	s.group(r, "a header announces entries", s.st0, never, lens)
	spell := [][]int{{base + 1}, {base + 2}, {base + 3}, {base + 0x18, 2}, {base + 0x19, 0, 2}, {base + 0x1a, 0, 0, 0, 2}, {base + 0x1b, 0, 0, 0, 0, 0, 0, 0, 2}}
	for _, h := range spell {
		n := h[len(h)-1]
		if len(h) == 1 {
			n = h[0] - base
		}
		id := fmt.Sprintf("%d entries declared in %d bytes", n, len(h))
		st, pre, why := s.st0, bs(h...), ""
		for k := 0; k < n && why == ""; k++ {
			s.group(r, id+": cut short", st, fails, all(pre, "eof", "err"))
			if k > 0 {
				s.group(r, id+": entry", st, never, eachByte(pre, "", "any"))
			}
			st, why = s.after(st, pre)
			pre = nil
		}
		r.check(why == "", s.label()+":"+id, s.pos(), "%s", why)
		if why == "" {
			s.ended(r, id+": and no more", st, nil)
			s.group(r, id+": and no more, whatever follows", st, bWant{eof: "only"}, eachByte(nil, "", "any"))
		}
	}
	// any number of entries
	brk := bs(0xff)
	s.ended(r, "an empty document ends at its break, for good", s.st0, append(bs(base+0x1f), brk...))
	st, why := s.anyEntries(bs(base+0x1f), nil)
	r.check(why == "", s.label()+":any number of entries", s.pos(), "%s", why)
	if why == "" {
		s.group(r, "an opened document is not complete", s.st0, fails, all(bs(base+0x1f), "eof", "err"))
		s.group(r, "the first entry", s.st0, never, eachByte(bs(base+0x1f), "\xff", tails...))
		s.group(r, "a document cut short between entries", st, fails, all(nil, "eof", "err"))
		s.group(r, "the next entry", st, never, eachByte(nil, "\xff", tails...))
		s.group(r, "an entry follows", st, bWant{eof: "", ok: true, need: true}, all(nil, "any"))
		s.ended(r, "the document ends at its break, for good", st, brk)
	}
	// entries after a declared length of zero go on until the data ends
	s.group(r, "a declared length of zero, and nothing else", s.st0, bWant{eof: "only"}, all(bs(base), "eof"))
	s.group(r, "a declared length of zero, failing", s.st0, fails, all(bs(base), "err"))
	s.group(r, "an entry after a declared length of zero", s.st0, never, eachByte(bs(base), "", tails...))
}

// after: the state in which an entry was delivered.
func (s *bScn) after(st *State, pre []AV) (*State, string) {
	xs, why := s.read(st, pre, "any")
	if why != "" {
		return nil, why
	}
	var acc *State
	for _, x := range xs {
		if errClass(x.st, x.res[1]) != "ok" {
			continue
		}
		n := x.st.clone()
		n.tags = map[string]string{}
		n = s.settled(n)
		if acc == nil {
			acc = n
		} else {
			joinInto(acc, n)
		}
	}
	if acc == nil {
		return nil, "no entry can be delivered"
	}
	return acc, ""
}

func (s *bScn) ndjson(r *Report) {
	line := mk(&Atom{K: KApp, Name: "line", NonNil: true, T: byteSeqT})
	judge := func(xs []Exit, tail string, idx AV) string {
		entry := false
		for _, x := range xs {
			k, l := errClass(x.st, x.res[1]), x.st.tags[tagLine]
			end := x.st.tags[tagTail]
			switch {
			case k == "?":
				return "it is undecided what the error is: " + clip(x.res[1].Key())
			case l == "":
				return "no line is read"
			case k == "eof" && (l != "none" || end != "eof"):
				return "the end of the data is reported although a line was read, or the source failed"
			case l == "none" && end == "eof" && k != "eof":
				return "the end of the source is not reported as the end of the data but as " + kindText(k)
			case end == "err" && k != "err":
				return "a failing source gives " + kindText(k)
			case k == "ok":
				v := x.st.norm(project(x.res[0], "Value", anyTy)).single()
				if v == nil || v.K != KApp || v.Name != "jsondoc" || !sameAV(v.Args[0], line) && !strings.Contains(v.Args[0].Key(), "line") {
					return "the entry is not the decoded line: " + clip(project(x.res[0], "Value", anyTy).Key())
				}
				if ix := x.st.norm(project(x.res[0], "Index", intT)); idx.atoms != nil && !same(x.st, ix, idx) {
					return "the index of the entry is " + clip(ix.Key()) + ", expected " + clip(idx.Key())
				}
				entry = true
			case k == "err" && l != "none" && end != "err":
				bad := false
				for t, v := range x.st.tags {
					bad = bad || strings.HasPrefix(t, "parse:json") && v == "bad"
				}
				if !bad {
					return "a line that can be decoded is refused"
				}
			}
		}
		if tail == "any" && !entry {
			return "no entry can be delivered"
		}
		return ""
	}
	st := s.st0
	for k := 0; k < 4; k++ {
		for _, t := range tails {
			xs, why := s.read(st, nil, t)
			if why == "" {
				why = judge(xs, t, cInt(int64(k)))
			}
			r.Counters["reads"]++
			r.check(why == "", fmt.Sprintf("%s:entry %d, %s", s.label(), k, t), s.pos(), "%s", why)
		}
		var why string
		if st, why = s.after(st, nil); why != "" {
			return
		}
	}
	wid, why := s.anyEntries(nil, nil)
	r.check(why == "", s.label()+":any number of entries", s.pos(), "%s", why)
	if why != "" {
		return
	}
	for _, t := range tails {
		xs, why := s.read(wid, nil, t)
		if why == "" {
			why = judge(xs, t, AV{})
		}
		r.Counters["reads"]++
		r.check(why == "", fmt.Sprintf("%s:any entry, %s", s.label(), t), s.pos(), "%s", why)
	}
}

func basicNum(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// dump: what the objects hold.
func dump(st *State) string {
	var out []string
	for id, o := range st.heap {
		for k, v := range o.F {
			out = append(out, id+k+"="+v.Key())
		}
		for k, v := range o.Ents {
			out = append(out, id+"["+k+"]="+v.Val.Key())
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
