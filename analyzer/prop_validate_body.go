package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C45: bodies are validated completely -----------------------------------------------------
//
// Bodies are validated in documents of a fixed number of entries. The number is
// a large constant, which is scaled down to three, so that a few entries make several
// documents. Buffers, the JSON parser and the schema validator are containers that
// remember which entries went through them.

type bodyRun struct {
	p       *Program
	n       int // entries of the body
	failAt  int // which operation of the outside fails, -1 for none
	structT types.Type
}

func (b *bodyRun) fails(st *State, what string) bool {
	n := len(st.tags["ops"])
	st.tags["ops"] += "."
	if n == b.failAt {
		st.tags["fault"] = what
		return true
	}
	return false
}

func (b *bodyRun) wrong(st *State, why string) {
	if st.tags["wrong"] == "" {
		st.tags["wrong"] = why
	}
}

// kerr: the i-th complaint about the document of the given entries.
func kerr(doc string, i int, t types.Type) AV {
	return sym("kerr("+doc+")"+itoa(i), t)
}

// complaints: how many a document has.
func complaints(nth int) int { return (nth + 2) % 3 }

func (b *bodyRun) validated(st *State, doc AV) (string, int) {
	a := stripIface(doc).single()
	name := ""
	if a != nil && a.K == KSym {
		name = a.Name
	}
	if !strings.HasPrefix(name, "DOC:") {
		b.wrong(st, "what is validated is "+clip(doc.Key()))
		return "?", 0
	}
	nth := strings.Count(st.tags["docs"], ";")
	st.tags["docs"] += name[4:] + ";"
	return name[4:], nth
}

// content of bytes that came out of a closed buffer.
func (b *bodyRun) content(st *State, v AV) (string, bool) {
	a := v.single()
	if a == nil || a.K != KApp || a.Name != "bufbytes" {
		b.wrong(st, "what is parsed is "+clip(v.Key()))
		return "", false
	}
	l, _ := strConst(a.Args[0])
	if c, _ := strConst(a.Args[1]); c != "closed" {
		b.wrong(st, "a document is parsed before it is complete")
	}
	return l, true
}

func (b *bodyRun) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	fail := func(what string, before ...AV) ([]Outcome, bool) {
		return ret(st, append(before, symNN("fault@"+what, errT()))...)
	}
	isSchema := func(v AV) {
		if x := v.single(); x == nil || x.Name != "SCHEMA" {
			b.wrong(st, "the schema validated against is "+clip(v.Key()))
		}
	}
	switch name {
	case "(*dataset.Structure).JSONSchema":
		if x := a[0].single(); x == nil || x.Name != "st" {
			b.wrong(st, "the schema is that of "+clip(a[0].Key()))
		}
		if b.fails(st, "schema") {
			return fail("schema", vNil())
		}
		return ret(st, symNN("SCHEMA", resultTypes(c)[0]), vNil())
	case "dsio.NewEntryBuffer":
		f, _, _ := readPath(st, a[0], b.structT, []string{"Format"})
		s, _, _ := readPath(st, a[0], b.structT, []string{"Schema"})
		z, _, _ := readPath(st, a[0], b.structT, []string{"Compression"})
		if t, ok := strConst(f); !ok || t != "json" {
			b.wrong(st, "the format of the documents is "+clip(f.Key()))
		}
		if x := s.single(); x == nil || x.Name != "st*.Schema" {
			b.wrong(st, "the schema of the documents is "+clip(s.Key()))
		}
		if st.isZero(z) != T {
			b.wrong(st, "the documents are compressed")
		}
		if b.fails(st, "buffer") {
			return fail("buffer", vNil())
		}
		id, _ := st.fresh("BUF:")
		st.tags[id] = ""
		return ret(st, symNN(id, resultTypes(c)[0]), vNil())
	case "encoding/json.Unmarshal":
		l, ok := b.content(st, a[0])
		if !ok {
			return nil, false
		}
		if b.fails(st, "parsing") {
			return fail("parsing")
		}
		p := stripIface(a[1]).single()
		if p == nil || p.K != KPtr {
			e.fail("a document is parsed into " + clip(a[1].Key()))
			return fail("parsing")
		}
		st.write(p.Obj, p.Path, anyTy, iface(anySeq, symNN("DOC:"+l, anySeq)), false)
		return ret(st, vNil())
	}
	switch {
	case strings.HasPrefix(name, "(*dsio.EntryBuffer)."):
		x := a[0].single()
		if x == nil || x.K != KSym || !strings.HasPrefix(x.Name, "BUF:") {
			e.fail("an unknown buffer is used: " + clip(a[0].Key()))
			return nil, false
		}
		id := x.Name
		switch name[strings.LastIndex(name, ".")+1:] {
		case "WriteEntry":
			if b.fails(st, "writing") {
				return fail("writing")
			}
			if strings.HasSuffix(st.tags[id], "closed") {
				b.wrong(st, "an entry is written into a closed buffer")
			}
			v := project(a[1], "Value", anyTy)
			k := stripIface(v).single()
			if k == nil || !strings.HasPrefix(k.Name, "V") {
				b.wrong(st, "the entry written is "+clip(v.Key()))
				return ret(st, vNil())
			}
			for f, w := range map[string]AV{"Key": sym("K"+k.Name[1:], strT)} {
				if g := project(a[1], f, strT); !same(st, g, w) {
					b.wrong(st, f+" of the entry written is "+clip(g.Key()))
				}
			}
			st.tags[id] += k.Name[1:] + ","
			return ret(st, vNil())
		case "Close":
			if b.fails(st, "closing") {
				return fail("closing")
			}
			if st.tags[id] != "" && !strings.HasSuffix(st.tags[id], "closed") {
				st.tags[id] += "closed"
			}
			return ret(st, vNil())
		case "Bytes":
			if st.tags[id] == "" {
				return ret(st, vNil())
			}
			l, done := strings.CutSuffix(st.tags[id], "closed")
			v := appNN("bufbytes", cStr(l), cStr(map[bool]string{true: "closed", false: "open"}[done]))
			v.single().T = resultTypes(c)[0]
			st.facts[lenOf(e, st, v).Key()] = Fact{Z: 2}
			return ret(st, v)
		case "Structure":
			return ret(st, symNN("bufst", resultTypes(c)[0]))
		}
	case strings.HasSuffix(name, "jsonschema.Schema).Validate"):
		isSchema(a[0])
		doc, nth := b.validated(st, a[2])
		t := resultTypes(c)[0]
		el, _ := ptrElem(t)
		var errs types.Type
		if s, ok := el.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Errs" {
					errs = s.Field(i).Type()
				}
			}
		}
		if errs == nil {
			return nil, false
		}
		slice, _ := ptrElem(errs)
		vs, _ := st.fresh("VS:")
		st.heap[vs+"E"] = &Obj{ID: vs + "E", T: slice, F: map[string]AV{"": b.errs(doc, nth, slice)}}
		st.heap[vs] = &Obj{ID: vs, T: el, F: map[string]AV{".Errs": ptr(vs+"E", "", slice)}}
		return ret(st, ptr(vs, "", el))
	case strings.HasSuffix(name, "jsonschema.ValidationState).IsValid"):
		v := project(a[0], "Errs", anyTy)
		if o, _, _ := st.target(a[0].single()); o != nil {
			v = o.F[".Errs"]
		}
		x := v.single()
		if x == nil || x.K != KPtr {
			return nil, false
		}
		q := e.asSeq(st, st.get(x.Obj).F[""])
		if q == nil {
			return nil, false
		}
		return ret(st, cBool(len(q.Args) == 0))
	case strings.HasSuffix(name, "jsonschema.Schema).ValidateBytes"):
		isSchema(a[0])
		l, ok := b.content(st, a[2])
		if !ok {
			return nil, false
		}
		if b.fails(st, "parsing") {
			return fail("parsing", vNil())
		}
		doc, nth := b.validated(st, symNN("DOC:"+l, anySeq))
		return ret(st, b.errs(doc, nth, resultTypes(c)[0]), vNil())
	}
	return nil, false
}

func (b *bodyRun) errs(doc string, nth int, slice types.Type) AV {
	var out []AV
	for i := 0; i < complaints(nth); i++ {
		out = append(out, kerr(doc, i, slice.Underlying().(*types.Slice).Elem()))
	}
	return seqOf(slice, out...)
}

// source answers the reader of the body.
func (b *bodyRun) source(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	if len(a) == 0 || a[0].single() == nil || a[0].single().Name != "rd" {
		return nil, false
	}
	switch {
	case strings.HasSuffix(name, ".ReadEntry"):
		n := len(st.tags["read"])
		if b.fails(st, "reading") {
			return ret(st, b.p.entry(cInt(0), cStr(""), vNil()), symNN("fault@reading", errT()))
		}
		if n >= b.n {
			st.tags["end"] = "yes"
			return ret(st, b.p.entry(cInt(0), cStr(""), vNil()), eofAV())
		}
		st.tags["read"] += "."
		i := strconv.Itoa(n)
		return ret(st, b.p.entry(cInt(int64(n)), sym("K"+i, strT), sym("V"+i, anyTy)), vNil())
	case strings.HasSuffix(name, ".Structure"):
		return ret(st, symNN("st", resultTypes(c)[0]))
	case strings.HasSuffix(name, ".Close"):
		return ret(st, vNil())
	}
	return nil, false
}

func checkBodyValidation(p *Program) *Report {
	r := newReport("C45")
	r.Rule = "Abstract interpretation of body validation over sources of 0 to 16 unknown entries with the number of entries per document scaled down to three, and every operation of the outside failing in turn: the documents handed to the schema validator must be complete JSON documents that together hold every entry exactly once and in order, the complaints about all of them must be returned, and every failure must be returned as an error. Row lengths are checked over all sequences of up to four rows of one to three cells, ending or failing anywhere."
	var jobs []func(r *Report)
	if fn := p.fn("validate.EntryReader"); r.need(fn != nil, "validate.EntryReader") {
		rdT := fn.Signature.Params().At(0).Type()
		run := func(n, failAt int) {
			jobs = append(jobs, func(r *Report) {
				b := &bodyRun{p: p, n: n, failAt: failAt, structT: types.NewPointer(p.typ(modPath, "Structure"))}
				e, xs := invokeFn(p, r, fn, func(e *Engine, st *State) {
					e.streams = &streamCfg{}
					e.preHook, e.extHook = b.hook, b.source
					e.apart = true
					e.constHook = func(x *ssa.Const) (AV, bool) {
						if x.Value != nil && x.Value.Kind() == constant.Int && x.Parent() == nil {
							if k, ok := constant.Int64Val(x.Value); ok && k >= 1000 && k < 1<<31 {
								return cInt(3), true
							}
						}
						return AV{}, false
					}
					st.maxFresh = 100
				}, symNN("rd", rdT))
				expect(r, e, xs, fmt.Sprintf("body:%d fail=%d", n, failAt), p.fpos(fn), func(x Exit) (bool, string) {
					if x.st.tags["fault"] != "" {
						if ok, why := failedWell(x, 1); !ok {
							return ok, why
						}
						return true, ""
					}
					if w := x.st.tags["wrong"]; w != "" {
						return false, w
					}
					if x.st.isZero(x.res[1]) != T {
						return false, "validation fails without a failure: " + clip(x.res[1].Key())
					}
					if x.st.tags["end"] == "" {
						return false, "the result is given before the end of the data"
					}
					want, got := "", strings.ReplaceAll(x.st.tags["docs"], ";", "")
					for i := 0; i < n; i++ {
						want += itoa(i) + ","
					}
					if got != want {
						return false, "the entries validated are " + got + " in " + x.st.tags["docs"] + ", expected " + want
					}
					q := e.asSeq(x.st, x.st.norm(x.res[0]))
					if q == nil || q.Open {
						return false, "the complaints are " + clip(x.res[0].Key())
					}
					var errs []string
					for i, d := range strings.Split(strings.TrimSuffix(x.st.tags["docs"], ";"), ";") {
						if x.st.tags["docs"] == "" {
							break
						}
						for k := 0; k < complaints(i); k++ {
							errs = append(errs, fmt.Sprintf("kerr(%s)%d", d, k))
						}
					}
					if len(errs) != len(q.Args) {
						return false, fmt.Sprintf("%d complaints are returned, expected %d", len(q.Args), len(errs))
					}
					for i, w := range errs {
						if g := q.Args[i].single(); g == nil || g.Name != w {
							return false, fmt.Sprintf("complaint %d is %s, expected %s", i, clip(q.Args[i].Key()), w)
						}
					}
					return true, ""
				})
			})
		}
		for n := 0; n <= 16; n++ {
			run(n, -1)
		}
		for n := 0; n <= 7; n++ {
			for f := 0; f < 3*n+12; f++ {
				run(n, f)
			}
		}
	}
	if fn := p.fn("validate.CheckCsvRowLengths"); r.need(fn != nil, "validate.CheckCsvRowLengths") {
		p.rowLengths(fn, &jobs)
	}
	r.run(jobs)
	r.atLeast(len(jobs), 300, "bodies and CSV files")
	return r
}

// rowLengths: rows of different lengths are found wherever they are.
func (p *Program) rowLengths(fn *ssa.Function, jobs *[]func(r *Report)) {
	var rec func(rows []int)
	one := func(rows []int, fault bool) {
		rows = append([]int{}, rows...)
		*jobs = append(*jobs, func(r *Report) {
			e, xs := invokeFn(p, r, fn, func(e *Engine, st *State) {
				e.apart, e.streams = true, &streamCfg{}
				e.preHook = func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
					switch name {
					case "encoding/csv.NewReader":
						if x := a[0].single(); x == nil || x.Name != "r" {
							st.tags["wrong"] = "what is read is " + clip(a[0].Key())
						}
						t := resultTypes(c)[0]
						el, _ := ptrElem(t)
						st.heap["CSV"] = &Obj{ID: "CSV", T: el, F: map[string]AV{".FieldsPerRecord": cInt(0), ".Comma": cInt(',')}}
						return ret(st, ptr("CSV", "", el))
					case "(*encoding/csv.Reader).Read":
						t := resultTypes(c)
						o := st.get("CSV")
						if k, ok := intConst(o.F[".Comma"]); !ok || k != ',' {
							st.tags["wrong"] = "the separator is changed"
						}
						n := len(st.tags["read"])
						st.tags["read"] += "."
						if n >= len(rows) {
							if fault {
								st.tags["fault"] = "reading"
								return ret(st, vNil(), symNN("fault@reading", errT()))
							}
							st.tags["end"] = "yes"
							return ret(st, vNil(), eofAV())
						}
						var cells []AV
						for i := 0; i < rows[n]; i++ {
							cells = append(cells, sym(fmt.Sprintf("c%d.%d", n, i), strT))
						}
						want, ok := intConst(o.F[".FieldsPerRecord"])
						if !ok {
							return nil, false
						}
						if want == 0 {
							st.mut("CSV").F[".FieldsPerRecord"] = cInt(int64(rows[n]))
						}
						if want > 0 && int(want) != rows[n] {
							return ret(st, seqOf(t[0], cells...), symNN("fault@count", errT()))
						}
						return ret(st, seqOf(t[0], cells...), vNil())
					}
					return nil, false
				}
			}, symNN("r", fn.Signature.Params().At(0).Type()))
			expect(r, e, xs, fmt.Sprintf("rows:%v fault=%v", rows, fault), p.fpos(fn), func(x Exit) (bool, string) {
				if w := x.st.tags["wrong"]; w != "" {
					return false, w
				}
				good := len(rows) > 0 && !fault
				for _, n := range rows {
					good = good && n == rows[0]
				}
				switch x.st.isZero(x.res[0]) {
				case T:
					if good && x.st.tags["end"] == "" {
						return false, "the file is accepted before its end"
					}
					return good, "the file is accepted"
				case F:
					return !good, "the file is refused: " + clip(x.res[0].Key())
				}
				return false, "whether the file is refused is unclear: " + clip(x.res[0].Key())
			})
		})
	}
	rec = func(rows []int) {
		one(rows, false)
		one(rows, true)
		if len(rows) == 4 {
			return
		}
		for n := 1; n <= 3; n++ {
			rec(append(append([]int{}, rows...), n))
		}
	}
	rec(nil)
}
