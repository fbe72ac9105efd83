package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- sources of entries and records ------------------------------------------------------
//
// With streamCfg.src set, readers of records (CSV, XLSX rows) and unknown entry
// readers deliver a fixed number of records with unknown contents and then the
// end of data; with faults on, every delivery may fail instead. In unbounded
// mode each delivery is an entry, the end or a failure, without limit, and tags
// keep track of the entry that was read and not yet passed on.

type srcCfg struct {
	n       int // records to deliver, -1 any number
	cells   int // cells per record
	structs map[string]AV
	collect bool // entries are passed on into a list or map
}

func init() {
	er, ew := "invoke:dsio.EntryReader.", "invoke:dsio.EntryWriter."
	for n, m := range map[string]Model{
		"(*encoding/csv.Reader).Read":   rCSVRead,
		kXlsx + ".OpenReader":           rOpenXlsx,
		"(*" + kXlsx + ".File).Rows":    rRows,
		"(*" + kXlsx + ".Rows).Next":    rRowsNext,
		"(*" + kXlsx + ".Rows).Columns": rRowsColumns,
		"(*" + kXlsx + ".Rows).Error": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return ret(st, vNil())
		},
		er + "ReadEntry":                        rReadEntry,
		er + "Structure":                        rStructure,
		er + "Close":                            sCloseAny,
		ew + "WriteEntry":                       rWriteEntry,
		ew + "Structure":                        rStructure,
		ew + "Close":                            rCloseWriter,
		"invoke:dsio.EntryReadWriter.ReadEntry": rReadEntry,
		"strconv.ParseFloat":                    rParse("float"),
		"strconv.ParseInt":                      rParse("int"),
		"strconv.Atoi":                          rParse("atoi"),
		"strconv.ParseBool":                     rParse("bool"),
		"invoke:error.Error":                    rErrText,
		"errors.Is":                             rErrorsIs,
	} {
		streamModels[n] = m
	}
	foldModels(streamModels)
}

const eofName = "G:io.EOF"

func eofAV() AV { return symNN(eofName, errT()) }

func isEnvErr(a *Atom) bool {
	return a.K == KSym && (strings.HasPrefix(a.Name, "fault@") || strings.HasPrefix(a.Name, "headerErr@") || strings.HasPrefix(a.Name, "unmarshalErr@") || strings.HasPrefix(a.Name, "encodeErr@"))
}

// isGlobalErr: the value of an error variable of another package.
func isGlobalErr(a *Atom) bool {
	return a.K == KSym && strings.HasPrefix(a.Name, "G:") && a.T != nil && isErrorType(a.T)
}

// rErrText: the end of data has the text "EOF", no other failure has.
func rErrText(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil {
		return nil, false
	}
	if x.K == KSym && x.Name == eofName {
		return ret(st, cStr("EOF"))
	}
	if isEnvErr(x) || isGlobalErr(x) || x.K == KApp && (strings.HasPrefix(x.Name, "errorf@") || strings.HasPrefix(x.Name, "errors.New")) {
		return ret(st, app("errtext", a[0]))
	}
	return nil, false
}

func rErrorsIs(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x, y := a[0].single(), a[1].single()
	if x == nil || y == nil {
		return nil, false
	}
	if x.K == KApp && strings.HasPrefix(x.Name, "errorf@") {
		return nil, false // depends on the verb; left open
	}
	if r := st.eqAtom(x, y); r != U {
		return ret(st, cBool(r == T))
	}
	return nil, false
}

// rParse: text is or is not of the given kind, whoever asks.
func rParse(kind string) Model {
	return func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		if e.byteMode() {
			n, _ := st.fresh("unmarshalErr@parse" + e.site(fr, site))
			t := resultTypes(c)[0]
			return []Outcome{{st: st.clone(), res: []AV{Top, symNN(n, errT())}}, {st: st, res: []AV{mk(&Atom{K: KApp, Name: "parse" + kind, Args: []AV{Top}, T: t}), vNil()}}}, true
		}
		if e.streams.src == nil || a[0].single() == nil {
			return nil, false
		}
		if _, isC := strConst(a[0]); isC {
			return nil, false
		}
		t := resultTypes(c)[0]
		v := app("parse"+kind, a...)
		tag := "parse:" + kind + ":" + v.Key()
		good := Outcome{st: st.clone(), res: []AV{v, vNil()}}
		good.st.tags[tag] = "ok"
		bad := Outcome{st: st.clone()}
		bad.st.tags[tag] = "bad"
		n, _ := bad.st.fresh("unmarshalErr@parse" + e.site(fr, site))
		bad.res = []AV{sym("garbage:"+n, t), symNN(n, errT())}
		switch st.tags[tag] {
		case "ok":
			return []Outcome{good}, true
		case "bad":
			return []Outcome{bad}, true
		}
		return []Outcome{bad, good}, true
	}
}

// record k of a source: its cells.
func cellSym(k string, i int) AV { return sym(fmt.Sprintf("cell%s.%d", k, i), strT) }

func (e *Engine) record(st *State, id, k string, reuse bool) AV {
	at := types.NewArray(strT, int64(e.streams.src.cells))
	oid := "REC:" + id
	if !reuse {
		oid += ":" + k
	}
	o := &Obj{ID: oid, T: at, F: map[string]AV{}}
	for i := 0; i < e.streams.src.cells; i++ {
		o.F[fmt.Sprintf("[%d]", i)] = cellSym(k, i)
	}
	st.heap[oid] = o
	return mk(&Atom{K: KApp, Name: "slice", Args: []AV{ptr(oid, "", at), cInt(0), cInt(int64(e.streams.src.cells))}, T: types.NewSlice(strT), NonNil: true})
}

// deliver advances a source: a record, the end, or a failure.
func (e *Engine) deliver(fr *frame, st *State, site ssa.Instruction, id string, rec func(st *State, k string) []AV, none func(err AV) []AV) []Outcome {
	var outs []Outcome
	if e.streams.faults && st.tags["fault"] == "" {
		bad, err := e.fault(fr, st, site)
		outs = append(outs, Outcome{st: bad, res: none(err)})
	}
	o := st.mut(id)
	pos, _ := intConst(o.F["#pos"])
	n := e.streams.src.n
	end := func(s *State) {
		s.tags["end"] = "read"
		outs = append(outs, Outcome{st: s, res: none(eofAV())})
	}
	if n < 0 {
		s := st.clone()
		if s.tags["end"] != "" {
			end(s)
			return outs
		}
		end(s)
		if st.tags["pending"] == "yes" {
			st.tags["lost"] = "yes"
		}
		st.tags["pending"] = "yes"
		return append(outs, Outcome{st: st, res: rec(st, "")})
	}
	if int(pos) >= n {
		end(st)
		return outs
	}
	st.mut(id).F["#pos"] = cInt(pos + 1)
	st.tags["at:"+id] = fmt.Sprint(pos + 1)
	return append(outs, Outcome{st: st, res: rec(st, fmt.Sprint(pos))})
}

func rCSVRead(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if e.streams.src == nil {
		return nil, false
	}
	if x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		e.fail("CSV reader of unknown identity")
		return nil, false
	}
	if _, ok := st.get(x.Obj).F["#pos"]; !ok {
		st.mut(x.Obj).F["#pos"] = cInt(0)
	}
	reuse := false
	if v, ok := st.get(x.Obj).F[".ReuseRecord"]; ok {
		b, isC := boolConst(v)
		reuse = b || !isC
	}
	return e.deliver(fr, st, site, x.Obj, func(st *State, k string) []AV {
		return []AV{e.record(st, x.Obj, k, reuse), vNil()}
	}, func(err AV) []AV { return []AV{vNil(), err} }), true
}

func rOpenXlsx(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	bad := st.clone()
	n, _ := bad.fresh("headerErr@" + e.site(fr, site))
	bad.tags["fault"] = e.p.pos(fr.fn, site)
	v := e.newStream(fr, st, site, "workbook", resultTypes(c)[0], a[0])
	return []Outcome{{st: bad, res: []AV{vNil(), symNN(n, errT())}}, {st: st, res: []AV{v, vNil()}}}, true
}

func rRows(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	bad := st.clone()
	n, _ := bad.fresh("headerErr@" + e.site(fr, site))
	bad.tags["fault"] = e.p.pos(fr.fn, site)
	v := e.newStream(fr, st, site, "ROWS", resultTypes(c)[0], a[0])
	st.mut(v.single().Obj).F["#sheet"] = a[1]
	return []Outcome{{st: bad, res: []AV{vNil(), symNN(n, errT())}}, {st: st, res: []AV{v, vNil()}}}, true
}

func rRowsNext(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if e.streams.src == nil {
		return nil, false
	}
	if x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		e.fail("rows of unknown identity")
		return nil, false
	}
	o := st.mut(x.Obj)
	if _, ok := o.F["#pos"]; !ok {
		o.F["#pos"] = cInt(0)
	}
	save := e.streams.faults
	e.streams.faults = false
	defer func() { e.streams.faults = save }()
	return e.deliver(fr, st, site, x.Obj, func(st *State, k string) []AV {
		st.mut(x.Obj).F["#row"] = e.record(st, x.Obj, k, false)
		return []AV{cBool(true)}
	}, func(err AV) []AV {
		return []AV{cBool(false)}
	}), true
}

func rRowsColumns(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if e.streams.src == nil || x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		return nil, false
	}
	if v, ok := st.get(x.Obj).F["#row"]; ok {
		return ret(st, v)
	}
	return ret(st, mk(&Atom{K: KSeq, T: types.NewSlice(strT)}))
}

func srcName(v AV) string {
	a := v.single()
	if a != nil && a.K == KIface {
		a = a.Args[0].single()
	}
	if a == nil || a.K != KSym {
		return ""
	}
	return a.Name
}

func srcEntry(p *Program, k string) AV {
	return p.entry(sym("rI"+k, intT), sym("rK"+k, strT), sym("rV"+k, anyTy))
}

func rReadEntry(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	n := srcName(a[0])
	if e.streams.src == nil || n == "" {
		return nil, false
	}
	id := "ENTSRC:" + n
	if st.get(id) == nil {
		st.heap[id] = &Obj{ID: id, T: strT, F: map[string]AV{"#pos": cInt(0)}}
	}
	return e.deliver(fr, st, site, id, func(st *State, k string) []AV {
		return []AV{srcEntry(e.p, k), vNil()}
	}, func(err AV) []AV { return []AV{srcEntry(e.p, "garbage"), err} }), true
}

func rWriteEntry(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	n := srcName(a[0])
	if e.streams.src == nil || n == "" {
		return nil, false
	}
	var outs []Outcome
	if e.streams.faults && st.tags["fault"] == "" {
		bad, err := e.fault(fr, st, site)
		outs = append(outs, Outcome{st: bad, res: []AV{err}})
	}
	id := "ENTSINK:" + n
	if st.get(id) == nil {
		st.heap[id] = &Obj{ID: id, T: strT, F: map[string]AV{"#n": cInt(0)}}
	}
	if e.streams.src.n < 0 {
		if st.tags["pending"] != "yes" || !sameAV(a[1], srcEntry(e.p, "")) {
			st.tags["wrong"] = "yes"
		}
		delete(st.tags, "pending")
		return append(outs, Outcome{st: st, res: []AV{vNil()}}), true
	}
	o := st.mut(id)
	k, _ := intConst(o.F["#n"])
	o.F[fmt.Sprintf("#%d", k)] = a[1]
	o.F["#n"] = cInt(k + 1)
	st.tags["at:"+id] = fmt.Sprint(k + 1)
	return append(outs, Outcome{st: st, res: []AV{vNil()}}), true
}

// rCloseWriter: a writer over a known destination finishes its document there.
func rCloseWriter(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	n := srcName(a[0])
	o := st.get("WRITER:" + n)
	if n == "" || o == nil {
		return sCloseAny(e, fr, st, c, site, a)
	}
	var outs []Outcome
	if e.streams.faults && st.tags["fault"] == "" {
		bad, err := e.fault(fr, st, site)
		outs = append(outs, Outcome{st: bad, res: []AV{err}})
	}
	ok, _ := e.sinkWrite(st, o.F["#w"], app("document", cStr(n)))
	return append(outs, Outcome{st: ok, res: []AV{vNil()}}), true
}

func rStructure(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	n := srcName(a[0])
	if e.streams.src == nil || n == "" {
		return nil, false
	}
	if v, ok := e.streams.src.structs[n]; ok {
		return ret(st, v)
	}
	return ret(st, symNN(n+".structure", resultTypes(c)[0]))
}

// rUnmarshal: unknown text decoded into an empty list, map or any value.
func rUnmarshal(e *Engine, fr *frame, st *State, site ssa.Instruction, data, tgt AV) ([]Outcome, bool) {
	p := tgt.single()
	if p == nil || p.K != KPtr {
		return nil, false
	}
	o, path, t := st.target(p)
	if o == nil {
		return nil, false
	}
	data = e.bytesVal(st, data)
	if data.top {
		return nil, false
	}
	tag := "parse:json:" + typeKey(t) + ":" + data.Key()
	bad := st.clone()
	bad.tags[tag] = "bad"
	n, _ := bad.fresh("unmarshalErr@" + e.site(fr, site))
	good := st.clone()
	good.tags[tag] = "ok"
	switch t.Underlying().(type) {
	case *types.Map:
		cur := good.read(good.get(o.ID), path, t)
		a := cur.single()
		if a == nil || a.K != KMap && good.isZero(cur) != T {
			return nil, false
		}
		var m *Obj
		if a.K == KMap {
			m = good.mut(a.Obj)
		} else {
			id, sum := good.fresh("JSONMAP:" + e.site(fr, site))
			m = &Obj{ID: id, T: t, IsMap: true, F: map[string]AV{}, Ents: map[string]Ent{}, Summary: sum}
			good.heap[id] = m
			good.write(o.ID, path, t, mk(&Atom{K: KMap, Obj: id, T: t}), false)
		}
		was, used := m.F["#doc"]
		d := app("jsondoc", data)
		if used {
			d = app("jsondoc", data, was)
		} else if len(m.Ents) > 0 || m.Rest != RNone {
			d = app("jsondoc", data, Top)
		}
		m.F["#doc"] = d
		m.Rest = RTop
		// the old contents may be partly overwritten on failure
		if a.K == KMap {
			b := bad.mut(a.Obj)
			b.F["#doc"] = Top
			b.Rest = RTop
		}
	case *types.Slice, *types.Interface:
		good.write(o.ID, path, t, mk(&Atom{K: KApp, Name: "jsondoc", Args: []AV{data}, T: t}), false)
		bad.write(o.ID, path, t, Top, false)
	default:
		return nil, false
	}
	gr := Outcome{st: good, res: []AV{vNil()}}
	br := Outcome{st: bad, res: []AV{symNN(n, errT())}}
	switch st.tags[tag] {
	case "ok":
		return []Outcome{gr}, true
	case "bad":
		return []Outcome{br}, true
	}
	return []Outcome{br, gr}, true
}
