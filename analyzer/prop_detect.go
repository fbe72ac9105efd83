package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C35: what detection infers ------------------------------------------------------------------
//
// The outermost type of JSON and CBOR is decided over known bytes, the columns of CSV over
// known rows (a model of the row reader), and the schema is compared with a specification.

// goOf writes a value of known contents as plain Go data; texts, numbers and truth values of
// named types with their own JSON form are left to asJSON.
func (e *Engine) goOf(st *State, v AV, asJSON bool, ctx string) (interface{}, bool) {
	a := st.norm(v).single()
	if a == nil {
		return nil, false
	}
	switch a.K {
	case KNil:
		return nil, true
	case KIface:
		return e.goTyped(st, a.Args[0], a.T, asJSON, ctx)
	}
	return e.goTyped(st, v, a.T, asJSON, ctx)
}

func (e *Engine) goTyped(st *State, v AV, t types.Type, asJSON bool, ctx string) (interface{}, bool) {
	v = st.norm(v)
	a := v.single()
	if a == nil || t == nil {
		return nil, false
	}
	if asJSON {
		if fn := e.hasMethod(t, "MarshalJSON"); fn != nil && e.p.inRepo(fn) {
			xs := normalExits(e.run(fn, []AV{v}, nil, st.clone(), ctx+"!"))
			if len(xs) != 1 || xs[0].st.isZero(xs[0].res[1]) != T {
				return nil, false
			}
			s, ok := constBytes(e, xs[0].st, xs[0].res[0])
			var x interface{}
			return x, ok && json.Unmarshal([]byte(s), &x) == nil && func() bool { json.Unmarshal([]byte(s), &x); return true }()
		}
	}
	if a.K == KNil {
		return nil, true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return e.goOf(st, v, asJSON, ctx)
	case *types.Pointer:
		o, path, _ := st.target(a)
		if o == nil {
			return nil, false
		}
		return e.goTyped(st, st.read(o, path, u.Elem()), u.Elem(), asJSON, ctx)
	case *types.Basic:
		if a.K == KZero {
			a = zeroConst(t).single()
		}
		if a == nil || a.K != KConst {
			return nil, false
		}
		switch {
		case a.C.Kind() == constant.String:
			return constant.StringVal(a.C), true
		case a.C.Kind() == constant.Bool:
			return constant.BoolVal(a.C), true
		}
		f, ok := floatConst(v)
		return f, ok
	case *types.Slice, *types.Array:
		el := t.Underlying().(interface{ Elem() types.Type }).Elem()
		q := e.asSeq(st, v)
		if q == nil || q.Open || !closedSeq(q) {
			return nil, false
		}
		out := []interface{}{}
		for _, x := range q.Args {
			y, ok := e.goTyped(st, x, el, asJSON, ctx)
			if !ok {
				return nil, false
			}
			out = append(out, y)
		}
		return out, true
	case *types.Map:
		o := st.get(a.Obj)
		if a.K != KMap || o == nil || o.Rest != RNone {
			return nil, false
		}
		out := map[string]interface{}{}
		for _, en := range o.Ents {
			if en.P == PAbsent {
				continue
			}
			k, ok := strConst(en.Key)
			y, ok1 := e.goTyped(st, en.Val, u.Elem(), asJSON, ctx)
			if en.P != PMust || !ok || !ok1 {
				return nil, false
			}
			out[k] = y
		}
		return out, true
	case *types.Struct:
		out := map[string]interface{}{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			var fv AV
			switch {
			case a.K == KStruct && i < len(a.Args):
				fv = a.Args[i]
			case a.K == KZero:
				fv = zeroConst(f.Type())
			default:
				return nil, false
			}
			name, opts, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
			if name == "-" {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			if strings.Contains(opts, "omitempty") {
				z := st.isZero(fv)
				if z == T {
					continue
				}
				if z == U {
					return nil, false
				}
			}
			y, ok := e.goTyped(st, fv, f.Type(), asJSON, ctx)
			if !ok {
				return nil, false
			}
			out[name] = y
		}
		return out, true
	}
	return nil, false
}

// avOf places plain Go data in memory.
func avOf(st *State, x interface{}) AV {
	switch t := x.(type) {
	case nil:
		return vNil()
	case string:
		return iface(strT, cStr(t))
	case bool:
		return iface(boolTy, cBool(t))
	case float64:
		c, _ := cFloat(t)
		return iface(f64T, c)
	case []interface{}:
		var items []AV
		for _, i := range t {
			items = append(items, avOf(st, i))
		}
		return iface(anySeq, seqOf(anySeq, items...))
	case map[string]interface{}:
		return iface(anyMap, mapOf(st, t))
	}
	return Top
}

func mapOf(st *State, t map[string]interface{}) AV {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var kv []AV
	for _, k := range ks {
		kv = append(kv, cStr(k), avOf(st, t[k]))
	}
	id, _ := st.fresh("DATA:")
	return newMap(st, id, anyMap, kv...)
}

func (p *Program) detectResult(x Exit, e *Engine) (schema interface{}, known bool, err Tri) {
	err = x.st.isZero(x.res[2])
	schema, known = e.goTyped(x.st, x.res[0], anyMap, false, "show")
	return
}

func checkDetect(p *Program) *Report {
	r := newReport("C35")
	r.Rule = "Folding of detection: the outermost type of JSON text and of CBOR over known bytes delivered in pieces, the columns, options and errors of CSV over known rows from a model of the row reader, the type of tabular data, and what FromReader reads; each result is compared with a specification."
	var jobs []func(r *Report)
	p.outermost(r, &jobs)
	p.csvColumns(r, &jobs)
	p.fromReader(r, &jobs)
	p.tabularData(r, &jobs)
	r.run(jobs)
	r.atLeast(len(jobs), 1000, "inputs")
	return r
}

func outer(kind string) interface{} {
	if kind == "error" {
		return nil
	}
	return map[string]interface{}{"type": kind}
}

// detectIs compares the outcomes of a detector.
func (p *Program) detectIs(r *Report, e *Engine, xs []Exit, id, pos string, want interface{}, either bool) {
	expect(r, e, xs, id, pos, func(x Exit) (bool, string) {
		got, known, err := p.detectResult(x, e)
		switch err {
		case U:
			return false, "whether there is an error is not decided: " + clip(x.res[2].Key())
		case F:
			return want == nil || either, "there is the error " + clip(x.res[2].Key())
		}
		if want == nil {
			return false, fmt.Sprint("there is no error, the schema is ", got)
		}
		return known && reflect.DeepEqual(got, want), fmt.Sprintf("the schema is %v (%s), expected %v", got, clip(x.st.norm(x.res[0]).Key()), want)
	})
}

// outermost: JSON and CBOR.
func (p *Program) outermost(r *Report, jobs *[]func(r *Report)) {
	run := func(fn *ssa.Function, w *wrapSrc, id string, want interface{}, either bool) {
		*jobs = append(*jobs, func(r *Report) {
			e := newEngine(p)
			e.streams = &streamCfg{}
			e.preHook, e.extHook = w.hook, w.source
			e.apart = true
			st := baseState(p)
			st.heap["R"] = &Obj{ID: "R", T: p.typ(modPath, "Structure"), F: map[string]AV{}}
			xs := normalExits(e.run(fn, []AV{ptr("R", "", p.typ(modPath, "Structure")), symNN("rd", fn.Signature.Params().At(1).Type())}, nil, st, "d"))
			r.engine(e)
			p.detectIs(r, e, xs, id, p.fpos(fn), want, either)
		})
	}
	if fn := p.fn("detect.JSONSchema"); r.need(fn != nil, "detect.JSONSchema") {
		var rec func(in string)
		rec = func(in string) {
			want := "error"
			if t := strings.TrimLeft(in, " \t\r\n"); t != "" {
				switch t[0] {
				case '[':
					want = "array"
				case '{':
					want = "object"
				}
			}
			for _, end := range []string{"eof", "err"} {
				for _, way := range []wrapSrc{{}, {chunk: 2}, {chunk: 9}, {chunk: 1, with: true}, {chunk: 2, with: true}, {chunk: 9, with: true}} {
					w := way
					w.in, w.end, w.p = in, end, p
					run(fn, &w, fmt.Sprintf("JSON %q %s by %d, end with data %v", in, end, w.chunk, w.with), outer(want), end == "err")
				}
			}
			if len(in) < 3 {
				for _, c := range []string{"[", "{", " ", "\t", "\n", "\r", `"`, "7", "]"} {
					rec(in + c)
				}
			}
		}
		rec("")
		for b := 0; b < 256; b++ {
			if c := string([]byte{byte(b)}); !strings.Contains("[{ \t\n\r\"7]", c) {
				run(fn, &wrapSrc{in: " " + c + "[", end: "eof", chunk: 9, p: p}, fmt.Sprintf("JSON %q", " "+c+"["), nil, false)
			}
		}
	}
	if fn := p.fn("detect.CBORSchema"); r.need(fn != nil, "detect.CBORSchema") {
		for _, end := range []string{"eof", "err"} {
			run(fn, &wrapSrc{in: "", end: end, p: p}, "CBOR nothing "+end, nil, false)
		}
		for b := 0; b < 256; b++ {
			want := "error"
			switch {
			case b >= 0x80 && b <= 0x9b || b == 0x9f:
				want = "array"
			case b >= 0xa0 && b <= 0xbb || b == 0xbf:
				want = "object"
			case b >= 0x80 && b < 0xc0: // no lengths of those kinds
				continue
			}
			for _, rest := range []string{"", "\x80", "\xa0", "\x00"} {
				for _, end := range []string{"eof", "err"} {
					run(fn, &wrapSrc{in: string([]byte{byte(b)}) + rest, end: end, chunk: 9, p: p}, fmt.Sprintf("CBOR %#x %q %s", b, rest, end), outer(want), end == "err")
				}
			}
		}
	}
	for _, n := range []string{"NDJSONSchema", "XLSXSchema"} {
		if fn := p.fn("detect." + n); r.need(fn != nil, "detect."+n) {
			run(fn, &wrapSrc{in: "{}", end: "eof", chunk: 9, p: p}, n, outer("array"), false)
		}
	}
}

// csvScript answers the row reader.
type csvScript struct {
	p     *Program
	rows  [][]string
	end   string // "eof", "err"
	lazy  bool
	wrong string
}

func (s *csvScript) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	vr := &valsRun{p: s.p}
	switch name {
	case "encoding/csv.NewReader":
		t := resultTypes(c)[0]
		el, _ := ptrElem(t)
		if k := a[0].Key(); !strings.Contains(k, "lines(") || !strings.Contains(k, "rd") {
			st.tags["wrong"] = "the rows are read from " + clip(k)
		}
		st.heap["CSV"] = &Obj{ID: "CSV", T: el, F: map[string]AV{".FieldsPerRecord": cInt(0), ".Comma": cInt(','), ".LazyQuotes": cBool(false)}}
		return ret(st, ptr("CSV", "", el))
	case "dsio/replacecr.Reader", "dsio/replacecr.ReaderWithSize":
		return ret(st, app("lines", a[0]))
	case "dsio.NewTrackedReader":
		return ret(st, iface(resultTypes(c)[0], appNN("tracked", a[0])))
	case "(*dsio.TrackedReader).BytesRead":
		return ret(st, symNN("bytesRead", resultTypes(c)[0]))
	case "(*encoding/csv.Reader).Read":
		o := st.get("CSV")
		if k, ok := intConst(o.F[".Comma"]); !ok || k != ',' {
			st.tags["wrong"] = "the separator is changed"
		}
		st.tags["lazy"] = o.F[".LazyQuotes"].Key()
		n := len(st.tags["read"])
		st.tags["read"] += "."
		if n >= len(s.rows) {
			if s.end == "err" {
				return ret(st, vNil(), symNN("fault@reading", errT()))
			}
			return ret(st, vNil(), eofAV())
		}
		var cells []AV
		for _, x := range s.rows[n] {
			cells = append(cells, cStr(x))
		}
		want, ok := intConst(o.F[".FieldsPerRecord"])
		if !ok {
			return nil, false
		}
		row := seqOf(resultTypes(c)[0], cells...)
		if want == 0 {
			st.mut("CSV").F[".FieldsPerRecord"] = cInt(int64(len(cells)))
		}
		if want > 0 && int(want) != len(cells) {
			return ret(st, row, symNN("fault@count", errT()))
		}
		return ret(st, row, vNil())
	case "vals.ParseType":
		x, ok := constBytes(e, st, a[0])
		if !ok {
			return nil, false
		}
		return ret(st, vr.typ(cellKind(x)))
	case "encoding/json.Marshal":
		x, ok := e.goOf(st, a[0], true, "json")
		if !ok {
			return nil, false
		}
		b, err := json.Marshal(x)
		if err != nil {
			return nil, false
		}
		return ret(st, cStr(string(b)), vNil())
	case "encoding/json.Unmarshal":
		b, ok := constBytes(e, st, a[0])
		x := a[1].single()
		if !ok || x == nil || x.K != KIface {
			return nil, false
		}
		el, isP := ptrElem(x.T)
		o, path, _ := st.target(x.Args[0].single())
		if !isP || o == nil {
			return nil, false
		}
		var d interface{}
		if err := json.Unmarshal([]byte(b), &d); err != nil {
			return ret(st, foldErr("json", err))
		}
		l, isL := d.([]interface{})
		switch m, isM := d.(map[string]interface{}); {
		case types.Identical(el.Underlying(), anySeq) && isL:
			st.write(o.ID, path, el, unwrapIface(avOf(st, l)), false)
		case types.Identical(el.Underlying(), anyMap) && isM:
			st.write(o.ID, path, el, mapOf(st, m), false)
		case types.IsInterface(el):
			st.write(o.ID, path, el, avOf(st, d), false)
		default:
			return nil, false
		}
		return ret(st, vNil())
	}
	if strings.HasSuffix(name, "varName.CreateVarNameFromString") {
		if x, ok := strConst(a[0]); ok {
			return ret(st, cStr("name_"+x))
		}
	}
	return vr.hook(e, st, c, site, name, a)
}

// cellKind: what ParseType says of a cell, strings where its property leaves that open.
func cellKind(s string) string {
	if t := textType(s); t != "" {
		return t
	}
	return "TypeString"
}

func cellType(s string) string {
	t := cellKind(s)
	for i, n := range typeConsts {
		if n == t {
			return valTypeNames[i]
		}
	}
	return ""
}

func textNumber(c string) bool {
	_, err := strconv.ParseFloat(c, 64)
	return numberText.MatchString(c) && err == nil
}

// headerRow: no cell of a header is empty, a number or a truth value.
func headerRow(row []string) bool {
	for _, c := range row {
		c = strings.TrimSpace(c)
		if c == "" || c == "true" || c == "false" || textNumber(c) {
			return false
		}
	}
	return true
}

func (s *csvScript) spec() (schema interface{}, config map[string]interface{}) {
	config = map[string]interface{}{"lazyQuotes": true}
	if len(s.rows) == 0 || s.end == "err" {
		return nil, config
	}
	head := s.rows[0]
	count := make([]map[string]int, len(head))
	for i := range count {
		count[i] = map[string]int{}
	}
	rows := s.rows
	if headerRow(head) {
		config["headerRow"] = true
		rows = rows[1:]
	}
	for _, row := range rows {
		if len(row) != len(head) {
			config["variadicFields"] = true
			continue
		}
		for i, c := range row {
			count[i][cellType(c)]++
		}
	}
	items := []interface{}{}
	for i, h := range head {
		col := map[string]interface{}{"title": fmt.Sprintf("field_%d", i+1)}
		if headerRow(head) {
			col["title"] = "name_" + h
		}
		most := 0
		for _, t := range valTypeNames {
			if n := count[i][t]; t != "" && n > most {
				most = n
				col["type"] = t
			}
		}
		items = append(items, col)
	}
	return map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}, config
}

func (p *Program) csvColumns(r *Report, jobs *[]func(r *Report)) {
	fn := p.fn("detect.CSVSchema")
	if !r.need(fn != nil, "detect.CSVSchema") {
		return
	}
	one := func(rows [][]string, end string) {
		s := &csvScript{p: p, rows: append([][]string{}, rows...), end: end}
		*jobs = append(*jobs, func(r *Report) {
			if end == "err" && len(rows) > 3 {
				return
			}
			e := newEngine(p)
			e.streams = &streamCfg{bytes: &byteCfg{follow: true, rounds: 20}}
			e.preHook = s.hook
			e.apart = true
			st := baseState(p)
			st.maxFresh = 60
			rt := p.typ(modPath, "Structure")
			st.heap["R"] = &Obj{ID: "R", T: rt, F: map[string]AV{".Format": cStr("csv")}}
			xs := normalExits(e.run(fn, []AV{ptr("R", "", rt), symNN("rd", fn.Signature.Params().At(1).Type())}, nil, st, "d"))
			r.engine(e)
			want, config := s.spec()
			id, pos := fmt.Sprintf("CSV %q %s", rows, end), p.fpos(fn)
			for _, x := range xs {
				if w := x.st.tags["wrong"]; w != "" {
					r.bad(id, pos, "%s", w)
					return
				}
				if want == nil {
					continue
				}
				t := p.structField(rt, "FormatConfig")
				got, ok := e.goTyped(x.st, x.st.read(x.st.get("R"), ".FormatConfig", t), t, false, "show")
				lazy := "c:false"
				if m, isM := got.(map[string]interface{}); isM && m["lazyQuotes"] == true {
					lazy = "c:true"
				}
				if ok && lazy != x.st.tags["lazy"] {
					r.bad(id, pos, "the options are %v, but rows are read with lazyQuotes %s", got, x.st.tags["lazy"])
					return
				}
				if !ok || !reflect.DeepEqual(got, interface{}(config)) {
					r.bad(id, pos, "the options are %v (%s), expected %v", got, clip(x.st.get("R").F[".FormatConfig"].Key()), config)
					return
				}
			}
			p.detectIs(r, e, xs, id, pos, want, false)
		})
	}
	both := func(rows ...[]string) { one(rows, "eof"); one(rows, "err") }
	kinds := []string{"7", "1.5", "true", "x", "null"}
	both()
	var rec func(rows [][]string, depth int)
	rec = func(rows [][]string, depth int) {
		both(rows...)
		if depth == 0 {
			return
		}
		for _, k := range kinds {
			rec(append(append([][]string{}, rows...), []string{k}), depth-1)
		}
	}
	for _, h := range []string{"x", "a b", "7"} {
		rec([][]string{{h}}, 4)
	}
	for _, h := range []string{"", " ", "1.5", "-2 ", " 7", "\ttrue ", "true", "false", "null", "{}", "1e5", "TRUE", "12 ab", "-", "007", "1e400"} {
		rec([][]string{{h}}, 1)
		for _, h2 := range []string{"x", "7", ""} {
			both([]string{h, h2}, []string{"1", "2.5"})
			both([]string{h2, h}, []string{"1", "2.5"}, []string{"{}", "true"})
		}
	}
	wide := [][]string{{"1"}, {"x", "true"}, {"1", "2"}, {"", "[1]"}, {"1", "2", "3"}}
	var rec2 func(rows [][]string, depth int)
	rec2 = func(rows [][]string, depth int) {
		both(rows...)
		if depth == 0 {
			return
		}
		for _, k := range wide {
			rec2(append(append([][]string{}, rows...), k), depth-1)
		}
	}
	rec2([][]string{{"a", "b"}}, 3)
	rec2([][]string{{"a", "5"}}, 2)
	rec2([][]string{{"a", "a", "c"}}, 2)
}

func (p *Program) structField(t types.Type, name string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// fromReader: the detector looks at decompressed data.
func (p *Program) fromReader(r *Report, jobs *[]func(r *Report)) {
	fn := p.fn("detect.FromReader")
	if !r.need(fn != nil, "detect.FromReader") {
		return
	}
	forms := []string{"CBORDataFormat", "JSONDataFormat", "CSVDataFormat", "XLSXDataFormat", "NDJSONDataFormat", "XMLDataFormat", "UnknownDataFormat"}
	names := map[string]string{"CBORDataFormat": "cbor", "JSONDataFormat": "json", "CSVDataFormat": "csv", "XLSXDataFormat": "xlsx", "NDJSONDataFormat": "ndjson"}
	comps := map[string]string{"FmtNone": "", "FmtGZip": "gzip", "FmtZStandard": "zst"}
	for _, f := range forms {
		for cn, comp := range comps {
			for _, how := range []string{"ok", "fail", "bad data"} {
				if how == "bad data" && comp == "" {
					continue
				}
				f, cn, comp, how := f, cn, comp, how
				*jobs = append(*jobs, func(r *Report) {
					fv, ok1 := constValue(p, modPath, f)
					cv, ok2 := constValue(p, modPath+"/compression", cn)
					id, pos := fmt.Sprintf("FromReader %s %q %s", f, comp, how), p.fpos(fn)
					if !ok1 || !ok2 {
						r.bad(id, pos, "%s or %s is gone", f, cn)
						return
					}
					e := newEngine(p)
					e.streams = &streamCfg{}
					schema := map[string]interface{}{"type": "array", "made": "up"}
					e.preHook = func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
						switch {
						case strings.HasPrefix(name, "detect.") && strings.HasSuffix(name, "Schema") && name != "detect.Schema" && len(a) == 2:
							st.tags["by"] = strings.TrimSuffix(strings.TrimPrefix(name, "detect."), "Schema")
							st.tags["from"] = stripIface(a[1]).Key()
							if how == "fail" {
								return ret(st, vNil(), cInt(3), symNN("fault@detect", errT()))
							}
							return ret(st, mapOf(st, schema), cInt(3), vNil())
						case name == "compression.Decompressor":
							k, _ := strConst(a[0])
							if how == "bad data" {
								return ret(st, vNil(), symNN("fault@decompress", errT()))
							}
							return ret(st, iface(p.ioReadCloser(c), appNN("plain_"+k, stripIface(a[1]))), vNil())
						case strings.HasSuffix(name, ".Close"):
							st.tags["closed"] = "yes"
							return ret(st, vNil())
						}
						return nil, false
					}
					st := baseState(p)
					xs := normalExits(e.run(fn, []AV{fv, cv, symNN("rd", fn.Signature.Params().At(2).Type())}, nil, st, "d"))
					r.engine(e)
					expect(r, e, xs, id, pos, func(x Exit) (bool, string) {
						if names[f] == "" || how != "ok" {
							return x.st.isZero(x.res[2]) == F, "there is no error"
						}
						if x.st.isZero(x.res[2]) != T {
							return false, "there is the error " + clip(x.res[2].Key())
						}
						from := "rd"
						if comp != "" {
							from = "plain_" + comp + "($rd)"
						}
						if by := strings.ToLower(x.st.tags["by"]); by != names[f] || strings.TrimPrefix(x.st.tags["from"], "$") != from {
							return false, fmt.Sprintf("the schema of %s is detected in %s, expected %s in %s", by, x.st.tags["from"], names[f], from)
						}
						stT := p.typ(modPath, "Structure")
						o, path, _ := x.st.target(x.st.norm(x.res[0]).single())
						if o == nil {
							return false, "the structure is " + clip(x.res[0].Key())
						}
						for n, w := range map[string]string{"Format": names[f], "Compression": comp} {
							got, _ := strConst(x.st.norm(x.st.read(o, path+"."+n, strT)))
							if got != w {
								return false, fmt.Sprintf("%s is %q, expected %q", n, got, w)
							}
						}
						t := p.structField(stT, "Schema")
						got, ok := e.goTyped(x.st, x.st.read(o, path+".Schema", t), t, false, "show")
						return ok && reflect.DeepEqual(got, interface{}(schema)), fmt.Sprint("the schema is ", got)
					})
				})
			}
		}
	}
}

func (p *Program) ioReadCloser(c *ssa.CallCommon) types.Type {
	if sp := p.SSA.ImportedPackage("os"); sp != nil {
		if t, ok := sp.Members["File"].(*ssa.Type); ok {
			return types.NewPointer(t.Type())
		}
	}
	return resultTypes(c)[0]
}

// tabularData: one column for each cell of the first row.
func (p *Program) tabularData(r *Report, jobs *[]func(r *Report)) {
	fn := p.fn("detect.TabularSchemaFromTabularData")
	if !r.need(fn != nil, "detect.TabularSchemaFromTabularData") {
		return
	}
	f15, _ := cFloat(1.5)
	type cell struct {
		v    AV
		want string
	}
	cells := []cell{{iface(strT, cStr("7")), "string"}, {iface(boolTy, cBool(false)), "boolean"}, {vNil(), "null"}, {iface(f64T, f15), "number"}, {iface(types.Typ[types.Float32], f15), "number"}}
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
		cells = append(cells, cell{iface(types.Typ[k], cInt(3)), "number"})
	}
	row := func(cs ...cell) AV {
		var l []AV
		for _, c := range cs {
			l = append(l, c.v)
		}
		return iface(anySeq, seqOf(anySeq, l...))
	}
	one := func(id string, make func(st *State) AV, want interface{}) {
		*jobs = append(*jobs, func(r *Report) {
			e := newEngine(p)
			e.streams = &streamCfg{bytes: &byteCfg{follow: true, rounds: 20}}
			e.apart = true
			st := baseState(p)
			st.maxFresh = 60
			xs := normalExits(e.run(fn, []AV{make(st)}, nil, st, "d"))
			r.engine(e)
			expect(r, e, xs, "tabular "+id, p.fpos(fn), func(x Exit) (bool, string) {
				if want == nil {
					return x.st.isZero(x.res[1]) == F, "there is no error"
				}
				got, ok := e.goTyped(x.st, x.res[0], anyMap, false, "show")
				return x.st.isZero(x.res[1]) == T && ok && reflect.DeepEqual(got, want), fmt.Sprintf("the schema is %v (%s) with the error %s, expected %v", got, clip(x.res[0].Key()), clip(x.res[1].Key()), want)
			})
		})
	}
	want := func(cs ...cell) interface{} {
		cols := []interface{}{}
		for i, c := range cs {
			cols = append(cols, map[string]interface{}{"title": fmt.Sprintf("col_%d", i), "type": c.want})
		}
		return map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": cols}}
	}
	data := func(rows ...AV) func(st *State) AV {
		return func(*State) AV { return iface(anySeq, seqOf(anySeq, rows...)) }
	}
	for i, c := range cells {
		one(fmt.Sprint(i), data(row(c)), want(c))
		for j, d := range cells[:5] {
			one(fmt.Sprint(i, " ", j), data(row(c, d), row(d)), want(c, d))
			one(fmt.Sprint(j, " ", i, " ", j), data(row(d, c, d), row(c, c, c)), want(d, c, d))
		}
	}
	one("no columns", data(row()), want())
	one("no rows", data(), nil)
	one("a row that is no list", data(iface(strT, cStr("x"))), nil)
	one("a row that is an object", func(st *State) AV {
		return iface(anySeq, seqOf(anySeq, iface(anyMap, newMap(st, "ROW", anyMap, cStr("a"), cells[0].v))))
	}, nil)
	one("an object", func(st *State) AV { return iface(anyMap, newMap(st, "OBJ", anyMap, cStr("a"), row(cells[0]))) }, nil)
}
