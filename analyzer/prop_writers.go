package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- writing entries -----------------------------------------------------------------
//
// A writer scenario opens a writer over an unknown destination, offers it entries
// with unknown contents, closes it, and looks at what the destination received.

type wScn struct {
	p      *Program
	e      *Engine
	format string // csv, json, ndjson, cbor, xlsx
	tlt    string
	comp   string
	pretty bool
	header bool
	sep    string
	sheet  string
	seq    int
	faults bool     // constructing it may meet failures
	made   []*State // ... and went on after one
}

func (s *wScn) id() string {
	x := s.format + ":" + s.tlt
	if s.comp != "" {
		x += "+" + s.comp
	}
	if s.pretty {
		x += ",pretty"
	}
	if s.header {
		x += ",header"
	}
	if s.sep != "" {
		x += ",sep" + s.sep
	}
	if s.sheet != "" {
		x += ",sheet"
	}
	return x
}

var (
	strT   = types.Typ[types.String]
	boolTy = types.Typ[types.Bool]
	intT   = types.Typ[types.Int]
	anyTy  = types.NewInterfaceType(nil, nil)
	anyMap = types.NewMap(strT, anyTy)
	anySeq = types.NewSlice(anyTy)
)

// newMap makes a map object with exactly the given entries.
func newMap(st *State, id string, t types.Type, kv ...AV) AV {
	o := &Obj{ID: id, T: t, IsMap: true, F: map[string]AV{}, Ents: map[string]Ent{}}
	for i := 0; i+1 < len(kv); i += 2 {
		o.Ents[kv[i].single().Key()] = Ent{Key: kv[i], Val: kv[i+1], P: PMust}
	}
	st.heap[id] = o
	return mk(&Atom{K: KMap, Obj: id, T: t})
}

var colTitles = []string{"first", "", "third"}

// tableSchema is a schema of three columns, the second without a title.
func tableSchema(st *State, colTypes []string) AV {
	var cols []AV
	for i, t := range colTypes {
		kv := []AV{cStr("type"), iface(strT, cStr(t))}
		if i != 1 {
			kv = append(kv, cStr("title"), iface(strT, sym(fmt.Sprintf("title%d", i), strT)))
		}
		cols = append(cols, iface(anyMap, newMap(st, fmt.Sprintf("SCH:col%d", i), anyMap, kv...)))
	}
	items := newMap(st, "SCH:items", anyMap, cStr("type"), iface(strT, cStr("array")), cStr("items"), iface(anySeq, seqOf(anySeq, cols...)))
	return newMap(st, "SCH:top", anyMap, cStr("type"), iface(strT, cStr("array")), cStr("items"), iface(anyMap, items))
}

func (s *wScn) structure(st *State) AV {
	t := s.p.typ(dsPkg, "Structure")
	pt := types.NewPointer(t)
	o := st.symObj(symNN("st", pt).single(), t)
	st.write(o.ID, ".Format", strT, cStr(s.format), false)
	st.write(o.ID, ".Compression", strT, cStr(s.comp), false)
	var sch AV
	switch s.format {
	case "csv", "xlsx":
		sch = tableSchema(st, []string{"string", "number", "object"})
	default:
		sch = newMap(st, "SCH:top", anyMap, cStr("type"), iface(strT, cStr(s.tlt)))
		st.mut("SCH:top").Rest = RTop
	}
	st.write(o.ID, ".Schema", anyMap, sch, false)
	var kv []AV
	if s.header {
		kv = append(kv, cStr("headerRow"), iface(boolTy, cBool(true)))
	}
	if s.sep != "" {
		kv = append(kv, cStr("separator"), iface(strT, cStr(s.sep)))
	}
	if s.sheet != "" {
		kv = append(kv, cStr("sheetName"), iface(strT, cStr(s.sheet)))
	}
	cfg := vNil()
	if len(kv) > 0 {
		cfg = newMap(st, "CFG", anyMap, kv...)
	}
	st.write(o.ID, ".FormatConfig", anyMap, cfg, false)
	return symNN("st", pt)
}

const sinkName = "dest"

var sinkAV = symNN(sinkName, types.NewInterfaceType(nil, nil))

// open constructs the writer; the failing exits (codec construction) are dropped
// when they return an error.
func (s *wScn) open(r *Report) (*State, AV, string) {
	s.e = newEngine(s.p)
	s.e.streams = &streamCfg{faults: s.faults}
	st := baseState(s.p)
	sp := s.structure(st)
	fn := s.p.fn("dsio.NewEntryWriter")
	args := []AV{sp, sinkAV}
	if s.pretty {
		fn = s.p.fn("dsio.NewJSONPrettyWriter")
		st.assumeZero("indent", false)
		args = append(args, sym("indent", strT))
	}
	if fn == nil {
		return nil, AV{}, "the constructor of writers is gone"
	}
	xs := normalExits(s.e.run(fn, args, nil, st, "open"))
	var ok []Exit
	for _, x := range xs {
		switch x.st.isZero(x.res[1]) {
		case T:
			if f := x.st.tags["fault"]; f != "" && s.faults {
				s.made = append(s.made, x.st)
				continue
			}
			ok = append(ok, x)
		case U:
			return nil, AV{}, "it is undecided whether construction fails: " + clip(x.res[1].Key())
		}
	}
	if len(s.e.undecided) > 0 {
		return nil, AV{}, "undecided: " + s.e.undecided[0]
	}
	if len(ok) != 1 {
		return nil, AV{}, fmt.Sprintf("construction succeeds in %d ways, expected 1", len(ok))
	}
	w := ok[0].res[0]
	if s.pretty {
		w = iface(fn.Signature.Results().At(0).Type(), w)
	}
	a := w.single()
	if a == nil || a.K != KIface {
		return nil, AV{}, "the writer is unknown: " + clip(w.Key())
	}
	return ok[0].st, w, ""
}

// method calls a method of an interface value of known dynamic type.
func (e *Engine) method(st *State, recv AV, name, ctx string, args ...AV) ([]Exit, *ssa.Function) {
	a := recv.single()
	if a == nil || a.K != KIface {
		return nil, nil
	}
	ms := e.p.SSA.MethodSets.MethodSet(a.T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn := e.p.SSA.MethodValue(ms.At(i))
			n := st.clone()
			n.env = map[ssa.Value]AV{}
			return normalExits(e.run(fn, append([]AV{a.Args[0]}, args...), nil, n, ctx)), fn
		}
	}
	return nil, nil
}

func (p *Program) entry(index, key, val AV) AV {
	t := p.typ(dsioPkg, "Entry")
	a := &Atom{K: KStruct, T: t}
	for _, f := range fieldsOf(t) {
		a.Names = append(a.Names, f.name)
		switch f.name {
		case "Index":
			a.Args = append(a.Args, index)
		case "Key":
			a.Args = append(a.Args, key)
		case "Value":
			a.Args = append(a.Args, val)
		default:
			a.Args = append(a.Args, zeroOf(f.t))
		}
	}
	return AV{atoms: []*Atom{a}}
}

// wEntry is one offered entry and what is expected of it.
type wEntry struct {
	key, val AV
	reject   bool   // must be refused
	lax      bool   // may be refused or written faithfully
	want     []AV   // cells, for tabular formats
	what     string // for messages
}

type wPath struct {
	st   *State
	done []wEntry
}

// play offers the entries in order. Every exit of WriteEntry is followed.
func (s *wScn) play(st *State, w AV, ents []wEntry) ([]wPath, string) {
	paths := []wPath{{st: st}}
	for _, en := range ents {
		s.seq++
		var next []wPath
		for _, pa := range paths {
			xs, fn := s.e.method(pa.st, w, "WriteEntry", fmt.Sprintf("w%d", s.seq), s.p.entry(sym(fmt.Sprintf("idx%d", s.seq), intT), en.key, en.val))
			if fn == nil {
				return nil, "WriteEntry is gone"
			}
			if len(s.e.undecided) > 0 {
				return nil, "undecided: " + s.e.undecided[0]
			}
			if len(xs) == 0 {
				return nil, "WriteEntry never returns for " + en.what
			}
			reject := en.reject
			if s.tlt == "object" && !s.tabular() {
				if c, ok := strConst(en.key); ok && c == "" {
					reject = true
				}
				for _, d := range pa.done {
					reject = reject || sameAV(d.key, en.key)
				}
			}
			for _, x := range xs {
				failed := x.st.tags["marshal"] == "failed"
				z := x.st.isZero(x.res[0])
				n := x.st.clone()
				n.tags = map[string]string{}
				switch {
				case z == U:
					return nil, fmt.Sprintf("it is undecided whether %s is refused: %s", en.what, clip(x.res[0].Key()))
				case failed && z == T:
					return nil, fmt.Sprintf("%s cannot be encoded, but no error is returned", en.what)
				case reject && z == T:
					return nil, fmt.Sprintf("%s is accepted", en.what)
				case !reject && !failed && !en.lax && z == F:
					return nil, fmt.Sprintf("%s is refused: %s", en.what, clip(x.res[0].Key()))
				case z == F:
					next = append(next, wPath{st: n, done: pa.done})
				default:
					next = append(next, wPath{st: n, done: append(append([]wEntry{}, pa.done...), en)})
				}
			}
		}
		if len(next) > 100 {
			return nil, "too many distinguishable outcomes"
		}
		paths = next
	}
	return paths, ""
}

// finish closes the writer and gives the destination's content per path.
func (s *wScn) finish(st *State, w AV) ([]Exit, string) {
	s.seq++
	xs, fn := s.e.method(st, w, "Close", fmt.Sprintf("w%d", s.seq))
	if fn == nil {
		return nil, "Close is gone"
	}
	if len(s.e.undecided) > 0 {
		return nil, "undecided: " + s.e.undecided[0]
	}
	if len(xs) == 0 {
		return nil, "Close never returns"
	}
	for _, x := range xs {
		if x.st.isZero(x.res[0]) != T {
			return nil, "closing fails: " + clip(x.res[0].Key())
		}
	}
	return xs, ""
}

// ---- what was written ------------------------------------------------------------------

// tokens splits written content into comparable tokens. JSON whitespace between
// tokens is dropped when ws is set; indentation and plain encoding are the same.
func tokens(st *State, v AV, ws bool) []string {
	parts, ok := catParts(v)
	if !ok {
		return []string{"unknown content " + clip(v.Key())}
	}
	var out []string
	for _, pt := range parts {
		pt = st.norm(pt)
		if c, ok := strConst(pt); ok {
			if !ws {
				for _, ch := range c {
					out = append(out, string(ch))
				}
				continue
			}
			for _, ch := range c {
				if ch != ' ' && ch != '\t' && ch != '\n' && ch != '\r' {
					out = append(out, string(ch))
				}
			}
			continue
		}
		a := pt.single()
		if a == nil {
			return append(out, "unknown content "+clip(pt.Key()))
		}
		if ws && a.K == KSym && a.Name == "indent" {
			continue
		}
		if a.K == KApp && (a.Name == "json" || ws && a.Name == "jsonindent") {
			arg := st.norm(stripIface(a.Args[0]))
			if arg.single() != nil && arg.single().K == KNil {
				out = append(out, "n", "u", "l", "l")
				continue
			}
			out = append(out, "json("+arg.Key()+")")
			continue
		}
		out = append(out, cellNorm(pt).Key())
	}
	return out
}

// cellNorm gives spellings of the same text one name.
func cellNorm(v AV) AV {
	a := v.single()
	if a == nil || a.K != KApp && a.K != KIface && a.K != KSeq {
		return v
	}
	if a.K == KIface {
		return cellNorm(a.Args[0])
	}
	n := *a
	n.key = ""
	n.Args = make([]AV, len(a.Args))
	for i, x := range a.Args {
		n.Args[i] = cellNorm(x)
	}
	if a.K == KApp {
		switch {
		case a.Name == "conv:int" || a.Name == "conv:int64":
			return n.Args[0]
		case a.Name == "strconv.Itoa" || a.Name == "fmt:int":
			return app("decimal", n.Args[0])
		case a.Name == "strconv.FormatInt":
			if b, ok := intConst(n.Args[1]); ok && b == 10 {
				return app("decimal", n.Args[0])
			}
		case a.Name == "strconv.FormatBool":
			if b, ok := boolConst(n.Args[0]); ok {
				return cStr(fmt.Sprint(b))
			}
		case a.Name == "strconv.FormatFloat":
			f, _ := intConst(n.Args[1])
			pr, ok := intConst(n.Args[2])
			bits, _ := intConst(n.Args[3])
			if f == 'f' && ok && pr == -1 && bits == 64 {
				return app("float", n.Args[0])
			}
		}
	}
	return mk(&n)
}

func diffTokens(got, want []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("after %q, %q is missing", strings.Join(got, ""), want[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("%q is written where %q is expected (after %q)", clip(got[i]), clip(want[i]), strings.Join(want[:i], ""))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%q is written in excess", clip(strings.Join(got[len(want):], "")))
	}
	return ""
}

// expected tokens of the document holding the given entries.
func (s *wScn) wantTokens(st *State, ents []wEntry) []string {
	var out []string
	js := func(v AV) {
		v = st.norm(stripIface(v))
		if a := v.single(); a != nil && a.K == KNil {
			out = append(out, "n", "u", "l", "l")
			return
		}
		out = append(out, "json("+v.Key()+")")
	}
	row := func(cells []AV) {
		sep := int64(',')
		if s.sep != "" {
			sep = int64([]rune(s.sep)[0])
		}
		var cs []AV
		for _, c := range cells {
			cs = append(cs, cellNorm(st.norm(c)))
		}
		out = append(out, app("csvrow", cInt(sep), cBool(false), mk(&Atom{K: KSeq, Args: cs, Must: allTrue(len(cs))})).Key())
	}
	switch s.format {
	case "json":
		open, cl := "[", "]"
		if s.tlt == "object" {
			open, cl = "{", "}"
		}
		out = append(out, open)
		for i, en := range ents {
			if i > 0 {
				out = append(out, ",")
			}
			if s.tlt == "object" {
				js(en.key)
				out = append(out, ":")
			}
			js(en.val)
		}
		out = append(out, cl)
	case "ndjson":
		for _, en := range ents {
			js(en.val)
			out = append(out, "\n")
		}
	case "csv":
		if s.header {
			row([]AV{sym("title0", strT), cStr("col_1"), sym("title2", strT)})
		}
		for _, en := range ents {
			row(en.want)
		}
	}
	return out
}

func allTrue(n int) []bool {
	m := make([]bool, n)
	for i := range m {
		m[i] = true
	}
	return m
}

// payload unwraps the compression of the destination's content.
func (s *wScn) payload(v AV) (AV, string) {
	if s.comp == "" {
		return v, ""
	}
	kind := map[string]string{"gzip": "gzip", "gz": "gzip", "zst": "zstd", "zstd": "zstd"}[s.comp]
	a := v.single()
	if a == nil || a.K != KApp || a.Name != kind {
		return v, fmt.Sprintf("the destination holds %s, not one complete %s stream", clip(v.Key()), kind)
	}
	return a.Args[0], ""
}

// document decides whether the destination holds the document of the entries.
func (s *wScn) document(x Exit, ents []wEntry) (bool, string) {
	got := x.st.norm(s.e.sinkContent(x.st, sinkAV))
	got, why := s.payload(got)
	if why != "" {
		return false, why
	}
	switch s.format {
	case "cbor":
		return s.cborDoc(x, got, ents)
	case "xlsx":
		return s.xlsxDoc(x, got, ents)
	}
	d := diffTokens(tokens(x.st, got, s.format == "json"), s.wantTokens(x.st, ents))
	return d == "", d
}

func (s *wScn) cborDoc(x Exit, got AV, ents []wEntry) (bool, string) {
	a := got.single()
	if a == nil || a.K != KApp || a.Name != "cbor" {
		return false, "the destination holds " + clip(got.Key()) + ", not one CBOR value"
	}
	if b, ok := boolConst(a.Args[0]); !ok || !b {
		return false, "the CBOR encoding is not canonical"
	}
	v := stripIface(a.Args[1])
	va := v.single()
	if s.tlt != "object" {
		seq := s.e.asSeq(x.st, v)
		if seq == nil || seq.Open {
			return false, "the encoded value is " + clip(v.Key()) + ", not the list of entries"
		}
		if x.st.isZero(v) == T {
			return false, "a nil list is encoded as null"
		}
		if len(seq.Args) != len(ents) {
			return false, fmt.Sprintf("%d values are encoded, expected %d", len(seq.Args), len(ents))
		}
		for i, en := range ents {
			if !seq.Must[i] || !sameFile(x.st, seq.Args[i], en.val) {
				return false, fmt.Sprintf("value %d is %s, expected %s", i, clip(seq.Args[i].Key()), clip(en.val.Key()))
			}
		}
		return true, ""
	}
	if va == nil || va.K != KMap {
		return false, "the encoded value is " + clip(v.Key()) + ", not the entries by key"
	}
	o := x.st.get(va.Obj)
	if o == nil || o.Havoc || o.Rest != RNone {
		return false, "the encoded map holds unknown entries"
	}
	n := 0
	for _, en := range o.Ents {
		if en.P != PAbsent {
			n++
		}
	}
	if n != len(ents) {
		return false, fmt.Sprintf("%d keys are encoded, expected %d", n, len(ents))
	}
	for _, en := range ents {
		v, has := s.e.mapGet(x.st, o, en.key, anyTy)
		if b, ok := boolConst(has); !ok || !b || !sameFile(x.st, v, en.val) {
			return false, fmt.Sprintf("key %s holds %s, expected %s", en.key, clip(v.Key()), clip(en.val.Key()))
		}
	}
	return true, ""
}

func (s *wScn) xlsxDoc(x Exit, got AV, ents []wEntry) (bool, string) {
	a := got.single()
	if a == nil || a.K != KApp || a.Name != "xlsx" {
		return false, "the destination holds " + clip(got.Key()) + ", not one workbook"
	}
	want := map[string]AV{}
	sheet := "Sheet1"
	if s.sheet != "" {
		sheet = s.sheet
	}
	for i, en := range ents {
		for j, c := range en.want {
			want[fmt.Sprintf("%s!%s%d", sheet, colLetters(j), i+1)] = cellNorm(x.st.norm(c))
		}
	}
	have := map[string]AV{}
	for i, n := range a.Names {
		have[n] = cellNorm(x.st.norm(stripIface(a.Args[i])))
	}
	for k, v := range want {
		h, ok := have[k]
		if !ok {
			if c, isC := strConst(v); isC && c == "" {
				continue // an empty cell need not exist
			}
			return false, fmt.Sprintf("cell %s is not written", k)
		}
		if h.Key() != v.Key() {
			return false, fmt.Sprintf("cell %s holds %s, expected %s", k, clip(h.Key()), clip(v.Key()))
		}
	}
	for k := range have {
		if _, ok := want[k]; !ok {
			return false, fmt.Sprintf("cell %s is written without an entry for it", k)
		}
	}
	return true, ""
}

// ---- scenarios ---------------------------------------------------------------------------

func (s *wScn) tabular() bool { return s.format == "csv" || s.format == "xlsx" }

// normal gives the i-th ordinary entry.
func (s *wScn) normal(st *State, i int) wEntry {
	k := sym(fmt.Sprintf("k%d", i), strT)
	en := wEntry{key: k, what: fmt.Sprintf("entry %d", i)}
	if s.tabular() {
		cells := []AV{iface(strT, sym(fmt.Sprintf("s%d", i), strT)), iface(types.Typ[types.Float64], sym(fmt.Sprintf("f%d", i), types.Typ[types.Float64])), iface(intT, sym(fmt.Sprintf("n%d", i), intT))}
		en.val = iface(anySeq, seqOf(anySeq, cells...))
		en.want = []AV{sym(fmt.Sprintf("s%d", i), strT), app("float", sym(fmt.Sprintf("f%d", i), types.Typ[types.Float64])), app("decimal", sym(fmt.Sprintf("n%d", i), intT))}
		return en
	}
	en.val = sym(fmt.Sprintf("v%d", i), anyTy)
	st.assumeZero(fmt.Sprintf("k%d", i), false)
	for j := 0; j < i; j++ {
		st.facts[pairKey(fmt.Sprintf("$k%d", i), fmt.Sprintf("$k%d", j))] = Fact{Z: 2}
	}
	return en
}

func writerScenarios(comp string) []*wScn {
	var out []*wScn
	for _, tlt := range []string{"array", "object"} {
		for _, pretty := range []bool{false, true} {
			out = append(out, &wScn{format: "json", tlt: tlt, pretty: pretty, comp: comp})
		}
		out = append(out, &wScn{format: "cbor", tlt: tlt, comp: comp})
	}
	out = append(out, &wScn{format: "ndjson", tlt: "array", comp: comp})
	for _, h := range []bool{false, true} {
		for _, sep := range []string{"", ";", "\t"} {
			out = append(out, &wScn{format: "csv", tlt: "array", header: h, sep: sep, comp: comp})
		}
	}
	if comp == "" {
		out = append(out, &wScn{format: "xlsx", tlt: "array"}, &wScn{format: "xlsx", tlt: "array", sheet: "My data"})
	}
	return out
}

func (s *wScn) copyFor(p *Program) *wScn {
	n := *s
	n.p = p
	return &n
}

// runScenario plays a whole scenario and checks the document at the end.
func (s *wScn) runScenario(r *Report, id string, mkEnts func(st *State) []wEntry) {
	st, w, why := s.open(r)
	pos := ""
	if why == "" {
		if a := w.single(); a != nil {
			if n := namedOf(a.T); n != "" {
				if fn := s.p.method(dsioPkg, n, "WriteEntry"); fn != nil {
					pos = s.p.fpos(fn)
				}
			}
		}
		var paths []wPath
		paths, why = s.play(st, w, mkEnts(st))
		for _, pa := range paths {
			if why != "" {
				break
			}
			var xs []Exit
			xs, why = s.finish(pa.st, w)
			for _, x := range xs {
				if why == "" {
					var ok bool
					if ok, why = s.document(x, pa.done); ok {
						why = ""
					} else if why == "" {
						why = "the document differs"
					}
				}
			}
		}
		r.Counters["paths followed"] += len(paths)
	}
	if s.e != nil {
		r.engine(s.e)
	}
	r.check(why == "", id, pos, "%s", why)
}

func namedOf(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// ---- C30: the document written is the entries, in order ------------------------------------

func checkFraming(p *Program) *Report {
	r := newReport("C30")
	r.Rule = "Abstract interpretation of constructor, n calls of WriteEntry (unknown keys and values) and Close for every writer and configuration; what the destination received must be, token by token, the one document of the format holding exactly the entries in order. Proven for n = 0..4 directly and for every larger n by induction: the state after two entries is widened to any number of entries, one more WriteEntry must append exactly one more entry and stay within that state, and Close must finish the document."
	var jobs []func(r *Report)
	scns := writerScenarios("")
	for _, c := range []string{"gzip", "zst"} {
		scns = append(scns, writerScenarios(c)...)
	}
	for _, s0 := range scns {
		for n := 0; n <= 4; n++ {
			jobs = append(jobs, func(r *Report) {
				s := s0.copyFor(p)
				s.runScenario(r, fmt.Sprintf("document:%s:%d entries", s.id(), n), func(st *State) []wEntry {
					var es []wEntry
					for i := 0; i < n; i++ {
						es = append(es, s.normal(st, i))
					}
					return es
				})
			})
		}
		jobs = append(jobs, func(r *Report) {
			s := s0.copyFor(p)
			why := s.induct(r)
			if s.e != nil {
				r.engine(s.e)
			}
			r.check(why == "", "any-length:"+s.id(), "", "%s", why)
		})
	}
	r.run(jobs)
	r.atLeast(len(jobs), 80, "scenarios")
	return r
}

// induct: after any number (two or more) of entries, one more entry adds one
// more entry to the document and Close finishes it.
func (s *wScn) induct(r *Report) string {
	st, w, why := s.open(r)
	if why != "" {
		return why
	}
	wid, ents, changed, okPath, why := s.widened(st, w)
	if why != "" {
		return why
	}
	s.e.exactAppend = true
	defer func() { s.e.exactAppend = false }()
	next, why := okPath(wid, ents[3])
	if why != "" {
		return "after any number of entries: " + why
	}
	again := map[string]bool{}
	if why := s.widenDiff(next.clone(), wid, next, ents[3].key, again); why != "" {
		return "after any number of entries: " + why
	}
	for k := range again {
		if !changed[k] {
			return "after any number of entries the writer changes in a new way: " + k
		}
	}
	// what one entry appends, here and at the third entry
	for _, c := range []struct {
		st   *State
		ents []wEntry
	}{{wid, nil}, {next, []wEntry{ents[3]}}} {
		xs, why := s.finish(c.st, w)
		if why != "" {
			return why
		}
		for _, x := range xs {
			if ok, why := s.widDocument(x, c.ents); !ok {
				return fmt.Sprintf("after any number of entries and %d more: %s", len(c.ents), why)
			}
		}
	}
	return ""
}

// widened is the writer's state after any number (two or more) of entries, with
// four entries that may follow.
func (s *wScn) widened(st *State, w AV) (*State, []wEntry, map[string]bool, func(*State, wEntry) (*State, string), string) {
	okPath := func(st *State, en wEntry) (*State, string) {
		ps, why := s.play(st, w, []wEntry{en})
		if why != "" {
			return nil, why
		}
		for _, p := range ps {
			if len(p.done) == 1 {
				return p.st, ""
			}
		}
		return nil, "no entry is ever accepted"
	}
	var ents []wEntry
	var why string
	for i := 0; i < 4; i++ {
		ents = append(ents, s.normal(st, i))
	}
	var sts []*State
	cur := st
	for i := 0; i < 3; i++ {
		if cur, why = okPath(cur, ents[i]); why != "" {
			return nil, nil, nil, nil, why
		}
		sts = append(sts, cur)
	}
	// widen what differs between two and three entries
	wid := sts[1].clone()
	changed := map[string]bool{}
	if why := s.widenDiff(wid, sts[1], sts[2], ents[3].key, changed); why != "" {
		return nil, nil, nil, nil, why
	}
	if len(changed) == 0 {
		return nil, nil, nil, nil, "an entry leaves no trace in the writer or its destination"
	}
	return wid, ents, changed, okPath, ""
}

// widenDiff replaces in wid whatever differs between a and b by "any such value".
func (s *wScn) widenDiff(wid, a, b *State, newKey AV, changed map[string]bool) string {
	for id, oa := range a.heap {
		ob := b.get(id)
		if ob == nil || ob == oa {
			continue
		}
		if strings.HasPrefix(id, "it@") {
			continue
		}
		for k, va := range oa.F {
			vb, ok := ob.F[k]
			if !ok || sameAV(va, vb) {
				continue
			}
			loc := id + k
			x, y := va.single(), vb.single()
			nm := "len:any " + loc
			changed[loc] = true
			switch {
			case k == "#buf" || strings.HasSuffix(k, ".#buf"):
				wid.mut(id).F[k] = cat(symNN("PREFIX", strT))
			case x != nil && y != nil && x.K == KConst && isNum(x) && isNum(y), y != nil && y.K == KApp && y.Name == "+":
				wid.mut(id).F[k] = mk(&Atom{K: KSym, Name: nm, T: intT, NonNil: true})
			case s.e.asSeq(a, va) != nil && (y != nil && (y.K == KSeq || y.K == KApp)), y != nil && y.K == KApp && y.Name == "append":
				wid.mut(id).F[k] = mk(&Atom{K: KSym, Name: "SEQ", T: anySeq, NonNil: true})
			case x != nil && y != nil && x.K == KConst && y.K == KConst && isStringConst(x) && isStringConst(y):
				wid.mut(id).F[k] = symNN("any "+loc, strT)
			case strings.HasPrefix(k, "cell:"):
			default:
				return fmt.Sprintf("the effect of an entry on the writer is not understood: %s goes from %s to %s", loc, clip(va.Key()), clip(vb.Key()))
			}
		}
		for k := range ob.F {
			if _, ok := oa.F[k]; !ok && !strings.HasPrefix(k, "cell:") {
				return fmt.Sprintf("an entry adds %s%s", id, k)
			}
		}
		if oa.IsMap && (len(oa.Ents) != len(ob.Ents) || oa.Rest != ob.Rest) {
			changed[id] = true
			n := wid.mut(id)
			n.Rest = RTop
			n.Ents = map[string]Ent{newKey.single().Key(): {Key: newKey, P: PAbsent}}
		}
		if strings.Contains(id, "STREAM:xlsx") {
			changed[id] = true
			n := wid.mut(id)
			for k := range n.F {
				if strings.HasPrefix(k, "cell:") {
					delete(n.F, k)
				}
			}
		}
	}
	return ""
}

func isStringConst(a *Atom) bool { _, ok := strConst(mk(a)); return ok }

// widDocument checks the document after an unknown prefix of entries.
func (s *wScn) widDocument(x Exit, ents []wEntry) (bool, string) {
	got := x.st.norm(s.e.sinkContent(x.st, sinkAV))
	got, why := s.payload(got)
	if why != "" {
		return false, why
	}
	switch s.format {
	case "cbor":
		a := got.single()
		if a == nil || a.K != KApp || a.Name != "cbor" {
			return false, "the destination holds " + clip(got.Key()) + ", not one CBOR value"
		}
		v := stripIface(a.Args[1])
		va := v.single()
		if va == nil {
			return false, "the encoded value is " + clip(v.Key())
		}
		if s.tlt == "object" {
			o := x.st.get(va.Obj)
			if va.K != KMap || o == nil || o.Havoc {
				return false, "the encoded value is " + clip(v.Key()) + ", not the entries by key"
			}
			for _, en := range ents {
				g, has := s.e.mapGet(x.st, o, en.key, anyTy)
				if b, ok := boolConst(has); !ok || !b || !sameFile(x.st, g, en.val) {
					return false, fmt.Sprintf("key %s holds %s, expected %s", en.key, clip(g.Key()), clip(en.val.Key()))
				}
			}
			return true, ""
		}
		want := mk(&Atom{K: KSym, Name: "SEQ", T: anySeq, NonNil: true})
		for _, en := range ents {
			want = app("append", want, en.val)
		}
		return sameFile(x.st, v, want), fmt.Sprintf("the encoded value is %s, expected %s", clip(v.Key()), clip(want.Key()))
	case "xlsx":
		a := got.single()
		if a == nil || a.K != KApp || a.Name != "xlsx" {
			return false, "the destination holds " + clip(got.Key()) + ", not one workbook"
		}
		n := 0
		for _, en := range ents {
			n += len(en.want)
		}
		if len(a.Names) != n {
			return false, fmt.Sprintf("%d cells are written for one more entry, expected %d", len(a.Names), n)
		}
		have := map[string]bool{}
		for _, v := range a.Args {
			have[cellNorm(x.st.norm(stripIface(v))).Key()] = true
		}
		for _, en := range ents {
			for _, c := range en.want {
				if !have[cellNorm(x.st.norm(c)).Key()] {
					return false, fmt.Sprintf("no cell holds %s", c)
				}
			}
		}
		return true, ""
	}
	toks := tokens(x.st, got, s.format == "json")
	full := s.wantTokens(x.st, append([]wEntry{}, ents...))
	// the prefix stands for everything up to the last entry
	want := []string{cellNorm(symNN("PREFIX", strT)).Key()}
	switch s.format {
	case "json":
		if len(ents) > 0 {
			want = append(want, ",")
		}
		want = append(want, full[1:]...)
	case "csv":
		if s.header {
			full = full[1:]
		}
		want = append(want, full...)
	default:
		want = append(want, full...)
	}
	d := diffTokens(toks, want)
	return d == "", d
}

// ---- C29: keys are never empty and never repeated -----------------------------------------

func checkKeys(p *Program) *Report {
	r := newReport("C29")
	r.Rule = "Abstract interpretation of writers of keyed documents over sequences of entries with unknown keys, some of them empty, equal to an earlier key, or impossible to encode: an empty or repeated key must be refused with an error whatever was written in between, a refused entry must leave no trace (neither in the document nor in the set of used keys), and in documents without keys the key of an entry is ignored."
	k := func(i int) AV { return sym(fmt.Sprintf("k%d", i), strT) }
	mkE := func(key AV, i int, what string) wEntry {
		return wEntry{key: key, val: sym(fmt.Sprintf("v%d", i), anyTy), what: what}
	}
	empty := cStr("")
	seqs := map[string][]AV{
		"empty first":       {empty, k(0)},
		"empty later":       {k(0), empty, k(1)},
		"repeated at once":  {k(0), k(0), k(1)},
		"repeated later":    {k(0), k(1), k(2), k(0), k(3)},
		"all repeated":      {k(0), k(1), k(0), k(1), k(2)},
		"refused and again": {empty, k(0), empty, k(0), k(1), k(1)},
	}
	var jobs []func(r *Report)
	for _, s0 := range writerScenarios("") {
		if s0.tabular() {
			continue
		}
		for name, ks := range seqs {
			jobs = append(jobs, func(r *Report) {
				s := s0.copyFor(p)
				s.runScenario(r, "keys:"+s.id()+":"+name, func(st *State) []wEntry {
					for i := 0; i < 4; i++ {
						s.normal(st, i)
					}
					var es []wEntry
					for i, kk := range ks {
						es = append(es, mkE(kk, i, fmt.Sprintf("entry %d, with key %s,", i, kk)))
					}
					return es
				})
			})
		}
		if s0.tlt == "object" {
			// any used key is refused, however many there are
			jobs = append(jobs, func(r *Report) {
				s := s0.copyFor(p)
				why := s.anyKey(r)
				if s.e != nil {
					r.engine(s.e)
				}
				r.check(why == "", "any-used-key:"+s.id(), "", "%s", why)
			})
		}
	}
	r.run(jobs)
	r.atLeast(len(jobs), 40, "scenarios")
	return r
}

// anyKey: after any number of entries, a key that was used is refused.
func (s *wScn) anyKey(r *Report) string {
	st, w, why := s.open(r)
	if why != "" {
		return why
	}
	var ents []wEntry
	for i := 0; i < 3; i++ {
		ents = append(ents, s.normal(st, i))
	}
	var sts []*State
	cur := st
	for i := 0; i < 3; i++ {
		ps, why := s.play(cur, w, ents[i:i+1])
		if why != "" {
			return why
		}
		cur = nil
		for _, pa := range ps {
			if len(pa.done) == 1 {
				cur = pa.st
			}
		}
		if cur == nil {
			return "no entry is ever accepted"
		}
		sts = append(sts, cur)
	}
	// widen to any number of entries, the key of the second among them
	wid := sts[1].clone()
	changed := map[string]bool{}
	if why := s.widenDiff(wid, sts[1], sts[2], sym("NEWKEY", strT), changed); why != "" {
		return why
	}
	for id, o := range sts[1].heap {
		if changed[id] && o.IsMap {
			if en, ok := o.Ents["$k1"]; ok {
				n := wid.mut(id)
				n.Ents = map[string]Ent{"$k1": en}
			}
		}
	}
	dup := ents[1]
	dup.reject = true
	dup.what = "a key used before"
	if _, why = s.play(wid, w, []wEntry{dup}); why != "" {
		return why
	}
	// and stays used after one more entry, whatever becomes of that
	fresh := s.normal(wid, 3)
	for id, o := range wid.heap {
		if changed[id] && o.IsMap {
			wid.mut(id).Ents["$k3"] = Ent{Key: fresh.key, P: PAbsent}
		}
	}
	ps, why := s.play(wid, w, []wEntry{fresh})
	if why != "" {
		return why
	}
	n := 0
	for _, pa := range ps {
		if len(pa.done) == 1 {
			n++
		}
		if _, why = s.play(pa.st, w, []wEntry{dup}); why != "" {
			return "after any number of entries and one more: " + why
		}
	}
	if n == 0 {
		return "after any number of entries none is accepted"
	}
	return ""
}

// ---- C27: tabular cells ---------------------------------------------------------------------

func checkCells(p *Program) *Report {
	r := newReport("C27")
	r.Rule = "Abstract interpretation of the CSV and XLSX writers on rows with a cell of every kind of value (unknown contents): the cell must hold the text standing for that value, in its position; any value without a text form, any row that is not a list, and any value that cannot be encoded must be refused with an error and leave no trace in the table."
	f64, i64 := types.Typ[types.Float64], types.Typ[types.Int64]
	type kind struct {
		name string
		val  AV
		want AV
		bad  bool
	}
	kinds := []kind{
		{"string", iface(strT, sym("cs", strT)), sym("cs", strT), false},
		{"empty string", iface(strT, cStr("")), cStr(""), false},
		{"int", iface(intT, sym("ci", intT)), app("decimal", sym("ci", intT)), false},
		{"int64", iface(i64, sym("cl", i64)), app("decimal", sym("cl", i64)), false},
		{"float64", iface(f64, sym("cf", f64)), app("float", sym("cf", f64)), false},
		{"true", iface(boolTy, cBool(true)), cStr("true"), false},
		{"false", iface(boolTy, cBool(false)), cStr("false"), false},
		{"null", vNil(), cStr(""), false},
		{"list", iface(anySeq, symNN("ca", anySeq)), app("json", sym("ca", anySeq)), false},
		{"object", iface(anyMap, symNN("co", anyMap)), app("json", sym("co", anyMap)), false},
	}
	for _, t := range []types.Type{types.Typ[types.Int8], types.Typ[types.Uint32], types.Typ[types.Float32], types.Typ[types.Complex128], types.NewSlice(strT), types.NewMap(strT, strT), types.NewPointer(strT), types.NewStruct(nil, nil), types.NewChan(types.SendRecv, intT)} {
		kinds = append(kinds, kind{typeKey(t), iface(t, sym("cx", t)), app("decimal", sym("cx", t)), true})
	}
	var jobs []func(r *Report)
	for _, s0 := range writerScenarios("") {
		if !s0.tabular() {
			continue
		}
		for _, kd := range kinds {
			for pos := 0; pos < 3; pos++ {
				jobs = append(jobs, func(r *Report) {
					s := s0.copyFor(p)
					s.runScenario(r, fmt.Sprintf("cell:%s:%s at %d", s.id(), kd.name, pos), func(st *State) []wEntry {
						a, b := s.normal(st, 0), s.normal(st, 1)
						row := s.normal(st, 2)
						var cells []AV
						val, want := kd.val, kd.want
						if kd.name == "object" {
							m := newMap(st, "CELL:obj", anyMap, cStr("a"), sym("member", anyTy))
							val, want = iface(anyMap, m), app("json", s.e.jsonTree(st, m, anyMap))
						}
						for i, c := range row.val.single().Args[0].single().Args {
							if i == pos {
								c = val
								row.want[i] = want
							}
							cells = append(cells, c)
						}
						row.val = iface(anySeq, seqOf(anySeq, cells...))
						row.lax = kd.bad && kd.name != "chan int" && kd.name != "complex128"
						row.reject = kd.bad && !row.lax
						row.what = "a row with a " + kd.name + " cell"
						return []wEntry{a, row, b}
					})
				})
			}
		}
		for _, n := range []int{1, 2, 5, 28, 55} {
			jobs = append(jobs, func(r *Report) {
				s := s0.copyFor(p)
				s.runScenario(r, fmt.Sprintf("width:%s:%d", s.id(), n), func(st *State) []wEntry {
					st.maxFresh = 4*n + 10
					row := wEntry{what: fmt.Sprintf("a row of %d cells", n)}
					var cells []AV
					for i := 0; i < n; i++ {
						cells = append(cells, iface(strT, sym(fmt.Sprintf("c%d", i), strT)))
						row.want = append(row.want, sym(fmt.Sprintf("c%d", i), strT))
					}
					row.val = iface(anySeq, seqOf(anySeq, cells...))
					return []wEntry{s.normal(st, 0), row, s.normal(st, 1)}
				})
			})
		}
		for name, v := range map[string]AV{"a string": iface(strT, sym("x", strT)), "a number": iface(f64, sym("x", f64)), "an object": iface(anyMap, symNN("x", anyMap)), "null": vNil(), "a list of strings": iface(types.NewSlice(strT), symNN("x", types.NewSlice(strT)))} {
			jobs = append(jobs, func(r *Report) {
				s := s0.copyFor(p)
				s.runScenario(r, "row:"+s.id()+":"+name, func(st *State) []wEntry {
					return []wEntry{s.normal(st, 0), {val: v, reject: true, what: name + " as a row"}, s.normal(st, 1)}
				})
			})
		}
	}
	r.run(jobs)
	r.atLeast(len(jobs), 400, "scenarios")
	return r
}

// ---- C23: compression -------------------------------------------------------------------------

func checkCompression(p *Program) *Report {
	r := newReport("C23")
	r.Rule = "Abstract interpretation of every writer over a structure with each compression: after Close the destination must hold exactly one finished compressed stream, whose contents are the very document written without compression; of every reader: everything it reads must come from the decompressor of that format placed directly on the source, which Close must release; formats that do not support compression, and unknown compressions, must be refused at construction."
	var jobs []func(r *Report)
	comps := []string{"gzip", "gz", "zst", "zstd"}
	for _, c := range comps {
		for _, s0 := range writerScenarios(c) {
			for n := 0; n <= 2; n++ {
				jobs = append(jobs, func(r *Report) {
					s := s0.copyFor(p)
					s.runScenario(r, fmt.Sprintf("document:%s:%d entries", s.id(), n), func(st *State) []wEntry {
						var es []wEntry
						for i := 0; i < n; i++ {
							es = append(es, s.normal(st, i))
						}
						return es
					})
				})
			}
		}
	}
	nr, nw := p.fn("dsio.NewEntryReader"), p.fn("dsio.NewEntryWriter")
	if !r.need(nr != nil && nw != nil, "constructors of readers and writers") {
		return r
	}
	other := otherString("OTHER:comp", append([]string{""}, comps...))
	for _, f := range []string{"csv", "json", "ndjson", "cbor", "xlsx"} {
		for _, fn := range []*ssa.Function{nr, nw} {
			bad := []AV{other}
			if f == "xlsx" {
				for _, c := range comps {
					bad = append(bad, cStr(c))
				}
			}
			for _, c := range bad {
				jobs = append(jobs, func(r *Report) {
					s := &wScn{p: p, format: f, tlt: "array"}
					e := newEngine(p)
					e.streams = &streamCfg{}
					st := baseState(p)
					sp := s.structure(st)
					st.write("st*", ".Compression", strT, c, false)
					xs := normalExits(e.run(fn, []AV{sp, sinkAV}, nil, st, "m"))
					r.engine(e)
					expect(r, e, xs, "refused:"+fn.Name()+":"+f+":"+c.Key(), p.fpos(fn), func(x Exit) (bool, string) {
						return x.st.isZero(x.res[1]) == F, fmt.Sprintf("%s accepts compression %s for %s", fn.Name(), c, f)
					})
				})
			}
		}
		if f == "xlsx" {
			continue
		}
		for _, c := range append([]string{""}, comps...) {
			jobs = append(jobs, func(r *Report) { readerSource(p, r, f, c) })
		}
	}
	r.run(jobs)
	r.atLeast(len(jobs), 150, "scenarios")
	return r
}

func readerSource(p *Program, r *Report, format, comp string) {
	s := &wScn{p: p, format: format, tlt: "array", comp: comp}
	e := newEngine(p)
	e.streams = &streamCfg{}
	st := baseState(p)
	sp := s.structure(st)
	fn := p.fn("dsio.NewEntryReader")
	xs := normalExits(e.run(fn, []AV{sp, sinkAV}, nil, st, "m"))
	r.engine(e)
	want := map[string]string{"gzip": "gunzip", "gz": "gunzip", "zst": "unzstd", "zstd": "unzstd"}[comp]
	id := "source:" + format + ":" + comp
	n := 0
	for _, x := range xs {
		if x.st.isZero(x.res[1]) == F {
			continue
		}
		n++
		raw, dec := map[string]bool{}, map[string]bool{}
		reachSources(x.st, x.res[0], map[string]bool{}, raw, dec)
		if comp == "" {
			r.check(len(raw) > 0 && len(dec) == 0, id, p.fpos(fn), "uncompressed %s is read from %v %v", format, sortedKeys(raw), sortedKeys(dec))
			continue
		}
		r.check(len(raw) == 0 && len(dec) == 1 && dec[want], id, p.fpos(fn), "%s compressed with %s is read from %v %v", format, comp, sortedKeys(raw), sortedKeys(dec))
		delete(e.events, "closed:"+want)
		ys, m := e.method(x.st, x.res[0], "Close", "close")
		if r.need(m != nil, "Close of the "+format+" reader") {
			r.check(len(ys) > 0 && e.events["closed:"+want], "close:"+format+":"+comp, p.fpos(m), "closing a %s reader does not close its decompressor", format)
		}
	}
	r.check(n > 0 && len(e.undecided) == 0, id+":constructs", p.fpos(fn), "no reader is constructed, or undecided: %v", e.undecided)
}

// reachSources finds which byte sources a value can read from.
func reachSources(st *State, v AV, seen map[string]bool, raw, dec map[string]bool) {
	if v.top {
		raw["something unknown"] = true
		return
	}
	for _, a := range v.atoms {
		switch {
		case a.K == KSym && a.Name == "dest":
			raw["the source itself"] = true
		case a.K == KApp && (a.Name == "gunzip" || a.Name == "unzstd"):
			if x := a.Args[0].single(); x != nil && x.K == KSym && x.Name == "dest" {
				dec[a.Name] = true
			} else {
				dec[a.Key()] = true
			}
		case a.K == KPtr:
			if seen[a.Obj] {
				continue
			}
			seen[a.Obj] = true
			if o := st.get(a.Obj); o != nil {
				for _, f := range o.F {
					reachSources(st, f, seen, raw, dec)
				}
			}
		case a.K == KFunc:
			// a close function, not a source
		default:
			for _, x := range a.Args {
				reachSources(st, x, seen, raw, dec)
			}
		}
	}
}

// colLetters is the published name of a spreadsheet column: A..Z, AA..ZZ, AAA...
func colLetters(j int) string {
	s := ""
	for j++; j > 0; j = (j - 1) / 26 {
		s = string(rune('A'+(j-1)%26)) + s
	}
	return s
}
