package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C31: tabular records become entries -------------------------------------------------

type rScn struct {
	wScn
	cols  []string
	cells int // cells per record
	lazy  bool
	vari  bool

	anyIdx AV // the index of the next entry, when any number were read
}

const anyNumber = -1

func (s *rScn) name() string {
	x := s.id() + "/" + strings.Join(s.cols, ",") + fmt.Sprintf("/%d cells", s.cells)
	if s.lazy {
		x += ",lazy"
	}
	if s.vari {
		x += ",variadic"
	}
	return x
}

func (s *rScn) prepare(st *State) AV {
	sp := s.structure(st)
	st.write("st*", ".Schema", anyMap, tableSchema(st, s.cols), false)
	cfg := st.read(st.get("st*"), ".FormatConfig", anyMap)
	var kv []AV
	if a := cfg.single(); a != nil && a.K == KMap {
		for _, k := range sortedEnts(st.get(a.Obj)) {
			en := st.get(a.Obj).Ents[k]
			kv = append(kv, en.Key, en.Val)
		}
	}
	if s.lazy {
		kv = append(kv, cStr("lazyQuotes"), iface(boolTy, cBool(true)))
	}
	if s.vari {
		kv = append(kv, cStr("variadicFields"), iface(boolTy, cBool(true)))
	}
	if len(kv) > 0 {
		st.write("st*", ".FormatConfig", anyMap, newMap(st, "CFG", anyMap, kv...), false)
	}
	return sp
}

func sortedEnts(o *Obj) []string {
	m := map[string]bool{}
	for k := range o.Ents {
		m[k] = true
	}
	return sortedKeys(m)
}

// openReader constructs the reader; failing exits are dropped.
func (s *rScn) openReader(n int) (*State, AV, string) {
	s.e = newEngine(s.p)
	s.e.streams = &streamCfg{src: &srcCfg{n: n, cells: s.cells}}
	st := baseState(s.p)
	sp := s.prepare(st)
	fn := s.p.fn("dsio.NewEntryReader")
	if fn == nil {
		return nil, AV{}, "dsio.NewEntryReader is gone"
	}
	xs := normalExits(s.e.run(fn, []AV{sp, sinkAV}, nil, st, "open"))
	var ok []Exit
	for _, x := range xs {
		switch x.st.isZero(x.res[1]) {
		case T:
			if x.st.tags["fault"] != "" {
				return nil, AV{}, "construction succeeds although " + x.st.tags["fault"] + " failed"
			}
			ok = append(ok, x)
		case U:
			return nil, AV{}, "it is undecided whether construction fails: " + clip(x.res[1].Key())
		case F:
			if x.st.tags["fault"] == "" {
				return nil, AV{}, "construction fails on a proper structure: " + clip(x.res[1].Key())
			}
		}
	}
	if len(s.e.undecided) > 0 {
		return nil, AV{}, "undecided: " + s.e.undecided[0]
	}
	if len(ok) != 1 {
		return nil, AV{}, fmt.Sprintf("construction succeeds in %d ways, expected 1", len(ok))
	}
	if a := ok[0].res[0].single(); a == nil || a.K != KIface {
		return nil, AV{}, "the reader is unknown: " + clip(ok[0].res[0].Key())
	}
	return ok[0].st, ok[0].res[0], ""
}

var i64T, f64T = types.Typ[types.Int64], types.Typ[types.Float64]

// cellWant is the value expected of a cell on the path of st.
func cellWant(st *State, typ string, cell AV) (want AV, doc AV, why string) {
	text := iface(strT, cell)
	parsed := func(kind string, v, good AV) (AV, AV, string) {
		switch st.tags["parse:"+kind+":"+v.Key()] {
		case "ok":
			return good, AV{}, ""
		case "bad":
			return text, AV{}, ""
		}
		return AV{}, AV{}, "the cell is not decoded as " + typ
	}
	switch typ {
	case "number":
		v := app("parsefloat", cell, cInt(64))
		return parsed("float", v, iface(f64T, v))
	case "integer":
		v := app("parseint", cell, cInt(10), cInt(64))
		return parsed("int", v, iface(i64T, v))
	case "boolean":
		v := app("parsebool", cell)
		return parsed("bool", v, iface(boolTy, v))
	case "object", "array":
		t := types.Type(anyMap)
		if typ == "array" {
			t = anySeq
		}
		switch st.tags["parse:json:"+typeKey(t)+":"+cell.Key()] {
		case "ok":
			return AV{}, app("jsondoc", cell), ""
		case "bad":
			return text, AV{}, ""
		}
		return AV{}, AV{}, "the cell is not decoded as " + typ
	case "null":
		return vNil(), AV{}, ""
	}
	return text, AV{}, ""
}

func (s *rScn) entryIs(st *State, ent AV, k int) string {
	rec := k
	if s.header {
		rec++
	}
	vt := s.p.typ(dsioPkg, "Entry")
	val := st.norm(project(ent, "Value", anyTy))
	if s.format == "xlsx" {
		idx := st.norm(project(ent, "Index", intT))
		if s.anyIdx.atoms != nil {
			if !same(st, idx, s.anyIdx) {
				return fmt.Sprintf("after any number of entries the index of the next is %s, not the number of entries read", clip(idx.Key()))
			}
		} else if i, ok := intConst(idx); !ok || int(i) != k {
			return fmt.Sprintf("entry %d has index %s", k, clip(idx.Key()))
		}
	}
	_ = vt
	a := val.single()
	if a == nil || a.K != KIface || typeKey(a.T) != typeKey(anySeq) {
		return fmt.Sprintf("entry %d is %s, not a list of values", k, clip(val.Key()))
	}
	seq := s.e.asSeq(st, a.Args[0])
	if seq == nil || seq.Open {
		return fmt.Sprintf("entry %d is %s, not a list of known length", k, clip(a.Args[0].Key()))
	}
	if len(seq.Args) != s.cells {
		return fmt.Sprintf("entry %d has %d values for %d cells", k, len(seq.Args), s.cells)
	}
	for i, g := range seq.Args {
		typ := "string"
		if s.cells <= len(s.cols) {
			typ = s.cols[i]
		}
		cell := cellSym(fmt.Sprint(rec), i)
		want, doc, why := cellWant(st, typ, cell)
		if why != "" {
			return fmt.Sprintf("entry %d, column %d (%s): %s", k, i, typ, why)
		}
		g = st.norm(g)
		if !seq.Must[i] {
			return fmt.Sprintf("entry %d, column %d may be missing", k, i)
		}
		if doc.atoms != nil {
			if w := s.docIs(st, g, doc, typ); w != "" {
				return fmt.Sprintf("entry %d, column %d (%s): %s", k, i, typ, w)
			}
			continue
		}
		if !sameCell(st, g, want) {
			return fmt.Sprintf("entry %d, column %d (%s) is %s, expected %s", k, i, typ, clip(g.Key()), clip(want.Key()))
		}
	}
	return ""
}

// sameCell: the same dynamic type and value.
func sameCell(st *State, g, w AV) bool {
	if st.isZero(w) == T && w.single() != nil && w.single().K == KNil {
		return st.isZero(g) == T
	}
	x, y := g.single(), w.single()
	if x == nil || y == nil || x.K != KIface || y.K != KIface || typeKey(x.T) != typeKey(y.T) {
		return false
	}
	return same(st, x.Args[0], y.Args[0])
}

func (s *rScn) docIs(st *State, g, doc AV, typ string) string {
	a := g.single()
	if a == nil || a.K != KIface {
		return "the value is " + clip(g.Key())
	}
	v := a.Args[0].single()
	if typ == "array" {
		if typeKey(a.T) != typeKey(anySeq) || v == nil || !sameAV(mk(v), doc) && !(v.K == KApp && v.Name == "jsondoc" && sameAV(v.Args[0], doc.single().Args[0])) {
			return fmt.Sprintf("the value is %s, not the decoded list", clip(g.Key()))
		}
		return ""
	}
	if typeKey(a.T) != typeKey(anyMap) || v == nil || v.K != KMap {
		return fmt.Sprintf("the value is %s, not the decoded object", clip(g.Key()))
	}
	o := st.get(v.Obj)
	if o == nil || o.Havoc || len(o.Ents) > 0 {
		return "the decoded object also holds something else"
	}
	d, ok := o.F["#doc"]
	if !ok || !sameAV(d, doc) {
		return fmt.Sprintf("the object holds %s, expected %s", clip(d.Key()), clip(doc.Key()))
	}
	return ""
}

type rPath struct {
	st   *State
	ents []AV
}

func (s *rScn) run(n int) string {
	recs := n
	if s.header {
		recs++
	}
	st, rd, why := s.openReader(recs)
	if why != "" {
		return why
	}
	if why := s.parserConfig(st); why != "" {
		return why
	}
	paths := []rPath{{st: st}}
	for k := 0; k <= n+1; k++ {
		var next []rPath
		for _, pa := range paths {
			xs, fn := s.e.method(pa.st, rd, "ReadEntry", fmt.Sprintf("r%d", k))
			if fn == nil {
				return "ReadEntry is gone"
			}
			if len(s.e.undecided) > 0 {
				return "undecided: " + s.e.undecided[0]
			}
			if len(xs) == 0 {
				return "ReadEntry never returns"
			}
			for _, x := range xs {
				if k >= n {
					if !same(x.st, x.res[1], eofAV()) {
						return fmt.Sprintf("after the last entry %s is returned, expected the end of data", clip(x.res[1].Key()))
					}
					next = append(next, rPath{x.st, pa.ents})
					continue
				}
				if x.st.isZero(x.res[1]) != T {
					return fmt.Sprintf("reading entry %d fails: %s", k, clip(x.res[1].Key()))
				}
				ents := append(append([]AV{}, pa.ents...), x.res[0])
				for i, en := range ents {
					if why := s.entryIs(x.st, en, i); why != "" {
						if i < k {
							why += fmt.Sprintf(" (once entry %d was read)", k)
						}
						return why
					}
				}
				next = append(next, rPath{x.st, ents})
			}
		}
		if len(next) > 2000 {
			return "too many distinguishable outcomes"
		}
		paths = next
	}
	return ""
}

// parserConfig: the record parser is set up as the format configuration says.
func (s *rScn) parserConfig(st *State) string {
	if s.format == "xlsx" {
		want := "Sheet1"
		if s.sheet != "" {
			want = s.sheet
		}
		for id, o := range st.heap {
			if strings.HasPrefix(id, "STREAM:ROWS:") {
				if g, ok := strConst(o.F["#sheet"]); !ok || g != want {
					return fmt.Sprintf("rows are read from sheet %s, expected %q", clip(o.F["#sheet"].Key()), want)
				}
				return ""
			}
		}
		return "no sheet is opened"
	}
	for id, o := range st.heap {
		if !strings.HasPrefix(id, "STREAM:CSVR:") {
			continue
		}
		want := map[string]AV{".Comma": cInt(','), ".LazyQuotes": cBool(s.lazy), ".FieldsPerRecord": cInt(0), ".Comment": cInt(0), ".TrimLeadingSpace": cBool(false)}
		if s.sep != "" {
			want[".Comma"] = cInt(int64([]rune(s.sep)[0]))
		}
		if s.vari {
			want[".FieldsPerRecord"] = cInt(-1)
		}
		for f, w := range want {
			g, ok := o.F[f]
			if !ok {
				if f == ".Comma" || st.isZero(w) != T {
					return fmt.Sprintf("%s of the CSV parser is not set, expected %s", f[1:], w)
				}
				continue
			}
			if f == ".FieldsPerRecord" && s.vari {
				if n, ok := intConst(g); ok && n < 0 {
					continue
				}
			}
			if !same(st, g, w) {
				return fmt.Sprintf("%s of the CSV parser is %s, expected %s", f[1:], clip(g.Key()), w)
			}
		}
		return ""
	}
	return "no CSV parser is set up"
}

// runAny: after any number of entries, one more is read in the same way.
func (s *rScn) runAny() string {
	recs := 4
	if s.header {
		recs++
	}
	st, rd, why := s.openReader(recs)
	if why != "" {
		return why
	}
	first := func(st *State, k int) (*State, string) {
		xs, fn := s.e.method(st, rd, "ReadEntry", fmt.Sprintf("r%d", k))
		if fn == nil {
			return nil, "ReadEntry is gone"
		}
		for _, x := range xs {
			if x.st.isZero(x.res[1]) == T {
				return x.st, ""
			}
		}
		return nil, "no entry is ever read"
	}
	var sts []*State
	for k := 0; k < 3; k++ {
		if st, why = first(st, k); why != "" {
			return why
		}
		sts = append(sts, st)
	}
	wid, changed := sts[1].clone(), map[string]bool{}
	for _, m := range []*State{sts[0].clone(), sts[2].clone(), wid} {
		for id := range m.heap {
			if strings.HasPrefix(id, "STREAM:") || strings.HasPrefix(id, "REC:") {
				m.heap[id] = sts[1].heap[id]
			}
		}
	}
	hide := func(x *State) *State {
		n := x.clone()
		for id := range n.heap {
			if (strings.HasPrefix(id, "STREAM:") || strings.HasPrefix(id, "REC:")) && sts[1].heap[id] != nil {
				n.heap[id] = sts[1].heap[id]
			}
		}
		return n
	}
	if why := s.widenDiff(wid, sts[1], hide(sts[2]), sym("NEWKEY", strT), changed); why != "" {
		return why
	}
	if s.format == "xlsx" {
		// the counter handed out as the index
		xs, _ := s.e.method(wid, rd, "ReadEntry", "probe")
		for _, x := range xs {
			if v := x.st.norm(project(x.res[0], "Index", intT)); x.st.isZero(x.res[1]) == T {
				a := v.single()
				if a == nil || a.K != KSym || !strings.HasPrefix(a.Name, "len:any ") {
					return fmt.Sprintf("after any number of entries the index of the next is %s, not the number of entries read", clip(v.Key()))
				}
				s.anyIdx = v
			}
		}
	}
	xs, _ := s.e.method(wid, rd, "ReadEntry", "more")
	if len(s.e.undecided) > 0 {
		return "undecided: " + s.e.undecided[0]
	}
	if len(xs) == 0 {
		return "after any number of entries, ReadEntry never returns"
	}
	for _, x := range xs {
		if x.st.isZero(x.res[1]) != T {
			return "after any number of entries, reading one more fails: " + clip(x.res[1].Key())
		}
		if why := s.entryIs(x.st, x.res[0], 2); why != "" {
			return "after any number of entries: " + why
		}
		again := map[string]bool{}
		if why := s.widenDiff(x.st.clone(), wid, hide(x.st), sym("NEWKEY", strT), again); why != "" {
			return "after any number of entries: " + why
		}
		for k := range again {
			if !changed[k] {
				return "after any number of entries the reader changes in a new way: " + k
			}
		}
	}
	return ""
}

func checkTableReaders(p *Program) *Report {
	r := newReport("C31")
	r.Rule = "Abstract interpretation of the CSV and XLSX readers over records with unknown cells, for every column type in every position: each entry must hold one value per cell, in order, decoded as the column type says (the text itself when it does not parse, and for records wider than the schema), header rows are skipped exactly when configured, the parser is set up exactly as configured, the end of data is reported after the last record and stays, and no entry changes when later ones are read."
	typs := []string{"string", "number", "integer", "boolean", "object", "array", "null", "any other"}
	var jobs []func(r *Report)
	add := func(s rScn, n int) {
		jobs = append(jobs, func(r *Report) {
			s := s
			s.p = p
			why := ""
			if n == anyNumber {
				why = s.runAny()
			} else {
				why = s.run(n)
			}
			if s.e != nil {
				r.engine(s.e)
			}
			pos := ""
			if fn := p.method(dsioPkg, strings.ToUpper(s.format)+"Reader", "ReadEntry"); fn != nil {
				pos = p.fpos(fn)
			}
			r.check(why == "", fmt.Sprintf("read:%s:%s", s.name(), strings.Replace(fmt.Sprintf("%d entries", n), "-1", "any number of", 1)), pos, "%s", why)
		})
	}
	for _, f := range []string{"csv", "xlsx"} {
		hs := []bool{false}
		if f == "csv" {
			hs = []bool{false, true}
		}
		for _, h := range hs {
			for i := range typs {
				for _, step := range []int{1, 3} {
					cols := []string{typs[i], typs[(i+step)%len(typs)], typs[(i+2*step)%len(typs)]}
					add(rScn{wScn: wScn{format: f, tlt: "array", header: h}, cols: cols, cells: 3}, 2)
				}
				add(rScn{wScn: wScn{format: f, tlt: "array", header: h}, cols: []string{typs[i]}, cells: 1}, 3)
				// fewer and more cells than columns
				cols := []string{typs[i], "integer", "boolean"}
				add(rScn{wScn: wScn{format: f, tlt: "array", header: h}, cols: cols, cells: 2}, 2)
				add(rScn{wScn: wScn{format: f, tlt: "array", header: h}, cols: cols, cells: 5}, 2)
			}
			add(rScn{wScn: wScn{format: f, tlt: "array", header: h}, cols: []string{"string"}, cells: 1}, 0)
			for _, c := range typs {
				add(rScn{wScn: wScn{format: f, tlt: "array", header: h}, cols: []string{c}, cells: 1}, anyNumber)
			}
			add(rScn{wScn: wScn{format: f, tlt: "array", header: h}, cols: []string{"string"}, cells: 2}, anyNumber)
			add(rScn{wScn: wScn{format: f, tlt: "array", header: h}, cols: []string{"string", "number"}, cells: 2}, 5)
			add(rScn{wScn: wScn{format: f, tlt: "array", header: h}, cols: []string{"string"}, cells: 0}, 3)
		}
	}
	for _, h := range []bool{false, true} {
		for _, sep := range []string{"", ";", "\t"} {
			for _, lazy := range []bool{false, true} {
				for _, vari := range []bool{false, true} {
					for _, comp := range []string{"", "gzip", "zst"} {
						add(rScn{wScn: wScn{format: "csv", tlt: "array", header: h, sep: sep, comp: comp}, lazy: lazy, vari: vari, cols: []string{"integer", "string"}, cells: 2}, 1)
					}
				}
			}
		}
	}
	add(rScn{wScn: wScn{format: "xlsx", tlt: "array", sheet: "My data"}, cols: []string{"integer", "string"}, cells: 2}, 2)
	r.run(jobs)
	r.atLeast(len(jobs), 100, "scenarios")
	return r
}

var _ *ssa.Function
