package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C33: types, texts and values agree -------------------------------------------------------
//
// The functions of package vals are folded over known texts and values. Library parsers
// of numbers and JSON answer with what they do on constants.

var valTypeNames = []string{"", "null", "integer", "number", "boolean", "string", "object", "array", ""}
var typeConsts = []string{"TypeUnknown", "TypeNull", "TypeInteger", "TypeNumber", "TypeBoolean", "TypeString", "TypeObject", "TypeArray", "TypeBytes"}

type valsRun struct {
	p *Program
	r *Report
	t types.Type // vals.Type
}

// typ: the constant of a type.
func (v *valsRun) typ(name string) AV {
	c, _ := constValue(v.p, valsPkg, name)
	return c
}

func (v *valsRun) typeName(x AV) string {
	for _, n := range typeConsts {
		if sameAV(x, v.typ(n)) {
			return n
		}
	}
	return clip(x.Key())
}

func numError(st *State, fn string, err error) AV {
	if err == nil {
		return vNil()
	}
	why := "ErrSyntax"
	if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
		why = "ErrRange"
	}
	id, _ := st.fresh("NUMERR:")
	if numErrT == nil {
		return foldErr(fn, err)
	}
	st.heap[id] = &Obj{ID: id, T: numErrT, F: map[string]AV{".Func": cStr(fn), ".Err": symNN("G:strconv."+why, errT())}}
	return iface(types.NewPointer(numErrT), ptr(id, "", numErrT))
}

var numErrT types.Type

func constBytes(e *Engine, st *State, v AV) (string, bool) {
	return strConst(e.bytesVal(st, e.seqView(st, stripIface(v))))
}

// hook answers the libraries.
func (v *valsRun) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	switch name {
	case "strconv.ParseInt":
		s, ok := constBytes(e, st, a[0])
		b, ok1 := intConst(a[1])
		z, ok2 := intConst(a[2])
		if !ok || !ok1 || !ok2 {
			return nil, false
		}
		n, err := strconv.ParseInt(s, int(b), int(z))
		return ret(st, cInt(n), numError(st, "ParseInt", err))
	case "strconv.Atoi":
		s, ok := constBytes(e, st, a[0])
		if !ok {
			return nil, false
		}
		n, err := strconv.Atoi(s)
		return ret(st, cInt(int64(n)), numError(st, "Atoi", err))
	case "strconv.ParseFloat":
		s, ok := constBytes(e, st, a[0])
		z, ok1 := intConst(a[1])
		if !ok || !ok1 {
			return nil, false
		}
		f, err := strconv.ParseFloat(s, int(z))
		x, fin := cFloat(f)
		if !fin {
			x = symNN(fmt.Sprint("float:", f), f64T)
		}
		return ret(st, x, numError(st, "ParseFloat", err))
	case "strconv.FormatFloat":
		f, ok := floatConst(a[0])
		fm, ok1 := intConst(a[1])
		pr, ok2 := intConst(a[2])
		z, ok3 := intConst(a[3])
		if !ok || !ok1 || !ok2 || !ok3 {
			return nil, false
		}
		return ret(st, cStr(strconv.FormatFloat(f, byte(fm), int(pr), int(z))))
	case "encoding/json.Valid":
		s, ok := constBytes(e, st, a[0])
		return []Outcome{{st: st, res: []AV{cBool(json.Valid([]byte(s)))}}}, ok
	case "strings.Compare":
		x, ok := strConst(a[0])
		y, ok1 := strConst(a[1])
		return []Outcome{{st: st, res: []AV{cInt(int64(strings.Compare(x, y)))}}}, ok && ok1
	case "encoding/json.Marshal":
		if s, ok := strConst(stripIface(a[0])); ok {
			if d, err := json.Marshal(s); err == nil {
				return ret(st, peeked(str2bs(string(d)), false), vNil())
			}
		}
		return ret(st, app("json", stripIface(a[0])), vNil())
	case "reflect.DeepEqual":
		return ret(st, app("deepequal", a[0], a[1]))
	case "encoding/json.Unmarshal":
		s, ok := constBytes(e, st, a[0])
		x := a[1].single()
		if !ok || x == nil || x.K != KIface {
			return nil, false
		}
		if fn := e.hasMethod(x.T, "UnmarshalJSON"); fn != nil && e.p.inRepo(fn) {
			return nil, false
		}
		el, isP := ptrElem(x.T)
		o, path, _ := st.target(x.Args[0].single())
		if !isP || o == nil {
			return nil, false
		}
		set := func(v AV, err error) ([]Outcome, bool) {
			if err != nil {
				return ret(st, foldErr("json", err))
			}
			st.write(o.ID, path, el, v, false)
			return ret(st, vNil())
		}
		if s == "null" {
			return ret(st, vNil())
		}
		switch u := el.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				var t string
				err := json.Unmarshal([]byte(s), &t)
				return set(cStr(t), err)
			case u.Info()&types.IsBoolean != 0:
				var t bool
				err := json.Unmarshal([]byte(s), &t)
				return set(cBool(t), err)
			case u.Info()&types.IsInteger != 0:
				var t int64
				err := json.Unmarshal([]byte(s), &t)
				return set(cInt(t), err)
			case u.Info()&types.IsFloat != 0:
				var t float64
				err := json.Unmarshal([]byte(s), &t)
				f, fin := cFloat(t)
				if err == nil && !fin {
					return nil, false
				}
				return set(f, err)
			}
		case *types.Map:
			if !isRaw(u.Elem()) {
				var t map[string]interface{}
				err := json.Unmarshal([]byte(s), &t)
				return set(symNN("JSON:"+s, el), err)
			}
			var t map[string]json.RawMessage
			err := json.Unmarshal([]byte(s), &t)
			var ks []string
			for k := range t {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			var kv []AV
			for _, k := range ks {
				kv = append(kv, cStr(k), peeked(str2bs(string(t[k])), false))
			}
			id, _ := st.fresh("RAW:")
			return set(newMap(st, id, el, kv...), err)
		case *types.Slice:
			if !isRaw(u.Elem()) {
				var t []interface{}
				err := json.Unmarshal([]byte(s), &t)
				return set(symNN("JSON:"+s, el), err)
			}
			var t []json.RawMessage
			err := json.Unmarshal([]byte(s), &t)
			var items []AV
			for _, m := range t {
				items = append(items, peeked(str2bs(string(m)), false))
			}
			return set(seqOf(el, items...), err)
		}
	}
	return nil, false
}

func isRaw(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func floatConst(v AV) (float64, bool) {
	a := stripIface(v).single()
	if a == nil || a.K != KConst || a.C.Kind() != constant.Float && a.C.Kind() != constant.Int {
		return 0, false
	}
	f, _ := constant.Float64Val(a.C)
	return f, true
}

// fold runs a function of the package.
func (v *valsRun) fold(id, name string, want func(x Exit) (bool, string), args func(st *State) []AV) {
	fn := v.p.fn(name)
	if fn == nil {
		v.r.bad(id, "vals", "%s", name+" is gone")
		return
	}
	e := newEngine(v.p)
	e.streams = &streamCfg{bytes: &byteCfg{follow: true, rounds: 20}}
	e.preHook = v.hook
	e.apart = true
	st := baseState(v.p)
	st.maxFresh = 60
	xs := normalExits(e.run(fn, args(st), nil, st, "m"))
	v.r.engine(e)
	expect(v.r, e, xs, id, v.p.fpos(fn), want)
}

func texts() []string {
	out := []string{""}
	alpha := []string{"0", "7", "-", ".", "e", "+", "t", `"`, "{", "[", " ", "\n", "x"}
	for i, lo := 0, 0; i < 3; i++ {
		hi := len(out)
		for _, s := range out[lo:hi] {
			for _, c := range alpha {
				out = append(out, s+c)
			}
		}
		lo = hi
	}
	return append(out, "true", "false", "TRUE", "FALSE", "True", "False", "T", "F", "f", "tRUE", "true ", "falsey", "yes", "null", "NULL", "nul", "null ", "nulls",
		"1234567890", "-1234567890", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "123456789012345678901234567890", "007", "-0", "-007",
		"1.5", "-1.5", "12.25e3", "1e5", "1E5", "1e+5", "1e-5", "-7e10", "1.797693134862315708145274237317043567981e+308", "3.5e38", "1e39", "-1e39", "1e300", "1e-300", "4e-46", "100000000000000000000000000000000000000000",
		"2015-09-03", "2015-09-03T13:27:52Z", "1-2", "1.2.3", "12:30", "1e", "1e+", "1e5x", "1 2", "1,5", "12%", "-", "--1", "-x", "e5", "e",
		"a1", "x.5", "hello", `"1"`, `"true`, "{}", "[]", `{"a":1}`, "[1]", "  [1]", "\n{}", " \n \n[", "[x", "{x")
}

var (
	numberText  = regexp.MustCompile(`^-?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$`)
	integerText = regexp.MustCompile(`^-?\d+$`)
	bracketText = regexp.MustCompile(`^[ \n]*([\[{])`)
	openStart   = regexp.MustCompile(`^([ \n]+[^ \n\[{]|[.+])`)
)

// textType is the type of a text, "" where it is left open.
func textType(s string) string {
	switch s {
	case "t", "f", "T", "F", "true", "false", "TRUE", "FALSE", "True", "False":
		return "TypeBoolean"
	case "null":
		return "TypeNull"
	}
	if m := bracketText.FindStringSubmatch(s); m != nil {
		return map[string]string{"[": "TypeArray", "{": "TypeObject"}[m[1]]
	}
	if openStart.MatchString(s) {
		return ""
	}
	if _, err := strconv.ParseFloat(s, 64); numberText.MatchString(s) && err == nil {
		if integerText.MatchString(s) {
			return "TypeInteger"
		}
		return "TypeNumber"
	}
	return "TypeString"
}

func checkVals(p *Program) *Report {
	r := newReport("C33")
	r.Rule = "Folding of package vals over known texts and values: the type of every text of up to three characters out of thirteen and of a list of longer ones, names of types in both directions, texts of parsed values, comparisons of texts, and values of decoded Go data and of JSON text, each compared with a specification of their own."
	numErrT = nil
	if sp := p.SSA.ImportedPackage("strconv"); sp != nil {
		if t, ok := sp.Members["NumError"].(*ssa.Type); ok {
			numErrT = t.Type()
		}
	}
	vt := p.typ(valsPkg, "Type")
	if !r.need(vt != nil, "vals.Type") || !r.need(numErrT != nil, "strconv.NumError") {
		return r
	}
	for _, n := range typeConsts {
		if _, ok := constValue(p, valsPkg, n); !r.need(ok, "vals."+n) {
			return r
		}
	}
	var jobs []func(r *Report)
	do := func(f func(v *valsRun)) {
		jobs = append(jobs, func(r *Report) { f(&valsRun{p: p, r: r, t: vt}) })
	}
	is := func(v *valsRun, i int, want AV) func(x Exit) (bool, string) {
		return func(x Exit) (bool, string) {
			return sameAV(x.st.norm(x.res[i]), want), "the result is " + clip(x.st.norm(x.res[i]).Key()) + ", expected " + clip(want.Key())
		}
	}
	// names
	do(func(v *valsRun) {
		for i, n := range typeConsts {
			v.fold("name of "+n, "(vals.Type).String", is(v, 0, cStr(valTypeNames[i])), func(st *State) []AV { return []AV{v.typ(n)} })
			if valTypeNames[i] == "" {
				continue
			}
			v.fold("JSON of "+n, "(vals.Type).MarshalJSON", func(x Exit) (bool, string) {
				e := newEngine(p)
				e.streams = &streamCfg{bytes: &byteCfg{follow: true}}
				s, ok := constBytes(e, x.st, x.res[0])
				return ok && s == `"`+valTypeNames[i]+`"` && x.st.isZero(x.res[1]) == T, "the result is " + clip(x.res[0].Key())
			}, func(st *State) []AV { return []AV{v.typ(n)} })
		}
		for _, s := range []string{"null", "integer", "number", "boolean", "string", "object", "array", "", "bytes", "unknown", "Integer", "STRING", "integer ", " integer", "int", "float", "bool", "any", "strings"} {
			want := "TypeUnknown"
			for i, n := range valTypeNames {
				if n == s && s != "" {
					want = typeConsts[i]
				}
			}
			v.fold("type named "+s, "vals.TypeFromString", is(v, 0, v.typ(want)), func(st *State) []AV { return []AV{cStr(s)} })
			for _, js := range []string{strconv.Quote(s), s} {
				var t string
				bad := json.Unmarshal([]byte(js), &t) != nil
				if s == "null" && js == s {
					continue
				}
				v.fold("type of JSON "+js, "(*vals.Type).UnmarshalJSON", func(x Exit) (bool, string) {
					got := x.st.get("DT").F[""]
					failed := x.st.isZero(x.res[0])
					if bad || want == "TypeUnknown" {
						return failed == F && v.typeName(got) == "TypeBoolean", "the type is " + v.typeName(got) + ", the error " + clip(x.res[0].Key())
					}
					return failed == T && v.typeName(got) == want, "the type is " + v.typeName(got) + ", expected " + want
				}, func(st *State) []AV {
					st.heap["DT"] = &Obj{ID: "DT", T: vt, F: map[string]AV{"": v.typ("TypeBoolean")}}
					return []AV{ptr("DT", "", vt), peeked(str2bs(js), false)}
				})
			}
		}
	})
	// types of texts
	ts := texts()
	for lo := 0; lo < len(ts); lo += 50 {
		part := ts[lo:min(lo+50, len(ts))]
		do(func(v *valsRun) {
			for _, s := range part {
				if want := textType(s); want != "" {
					v.fold(fmt.Sprintf("type of %q", s), "vals.ParseType", func(x Exit) (bool, string) {
						g := v.typeName(x.st.norm(x.res[0]))
						return g == want, "it is " + g + ", expected " + want
					}, func(st *State) []AV { return []AV{peeked(str2bs(s), false)} })
				}
			}
		})
	}
	v0 := func(f func(v *valsRun)) { do(f) }
	v0(parsing)
	v0(comparing)
	v0(converting)
	v0(decoding)
	v0(equality)
	v0(access)
	r.run(jobs)
	r.atLeast(r.Obligations, 2500, "texts and values")
	return r
}

// parsing: values of texts, and back.
func parsing(v *valsRun) {
	text := []string{"", "0", "5", "-5", "42", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1.5", "-0.25", "1e39", "1e-300", "2e308", "x", "true", "false", "t", "F", "TRUE", "2", "1 ", "{}", `{"a":[1]}`, "[1,2]", "[", `"[]"`, "null", "12ab", "010", "0x10", "1_000", "+7", "0b1"}
	fail := func(x Exit) (bool, string) {
		return x.st.isZero(x.res[1]) == F, "it is " + clip(x.res[0].Key()) + " without an error"
	}
	good := func(t types.Type, want AV) func(x Exit) (bool, string) {
		return func(x Exit) (bool, string) {
			a := x.st.norm(x.res[0]).single()
			ok := a != nil && a.K == KIface && types.Identical(a.T, t) && sameAV(x.st.norm(a.Args[0]), want)
			return ok && x.st.isZero(x.res[1]) == T, "it is " + clip(x.st.norm(x.res[0]).Key()) + " with the error " + clip(x.res[1].Key()) + ", expected " + typeKey(t) + " " + clip(want.Key())
		}
	}
	for _, s := range text {
		arg := func(tn string) func(st *State) []AV {
			return func(st *State) []AV { return []AV{v.typ(tn), peeked(str2bs(s), false)} }
		}
		parse := func(tn string, want func(x Exit) (bool, string)) {
			v.fold(fmt.Sprintf("%s of %q", tn, s), "(vals.Type).Parse", want, arg(tn))
		}
		back := func(tn string, t types.Type, val AV, want string) {
			for _, m := range []string{"ValueToString", "ValueToBytes"} {
				v.fold(fmt.Sprintf("%s of %s %s", m, tn, clip(val.Key())), "(vals.Type)."+m, func(x Exit) (bool, string) {
					e := newEngine(v.p)
					e.streams = &streamCfg{bytes: &byteCfg{follow: true}}
					g, ok := constBytes(e, x.st, x.res[0])
					return ok && g == want && x.st.isZero(x.res[1]) == T, "it is " + clip(x.res[0].Key()) + " with the error " + clip(x.res[1].Key()) + ", expected " + want
				}, func(st *State) []AV { return []AV{v.typ(tn), iface(t, val)} })
			}
		}
		parse("TypeString", func(x Exit) (bool, string) {
			a := x.st.norm(x.res[0]).single()
			if a == nil || a.K != KIface || !types.Identical(a.T, strT) {
				return false, "it is " + clip(x.res[0].Key())
			}
			g, ok := strConst(a.Args[0])
			return ok && g == s && x.st.isZero(x.res[1]) == T, "it is " + clip(x.res[0].Key())
		})
		back("TypeString", strT, cStr(s), s)
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			parse("TypeInteger", good(i64T, cInt(n)))
			back("TypeInteger", i64T, cInt(n), strconv.FormatInt(n, 10))
			back("TypeInteger", types.Typ[types.Int], cInt(n), strconv.FormatInt(n, 10))
		} else {
			parse("TypeInteger", fail)
		}
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			c, _ := cFloat(f)
			parse("TypeNumber", good(f64T, c))
			back("TypeNumber", f64T, c, strconv.FormatFloat(f, 'g', -1, 64))
		} else {
			parse("TypeNumber", fail)
		}
		if b, err := strconv.ParseBool(s); err == nil {
			parse("TypeBoolean", good(boolTy, cBool(b)))
			back("TypeBoolean", boolTy, cBool(b), strconv.FormatBool(b))
		} else {
			parse("TypeBoolean", fail)
		}
		for _, tn := range []string{"TypeArray", "TypeObject"} {
			var l []interface{}
			var m map[string]interface{}
			switch {
			case json.Unmarshal([]byte(s), &l) == nil && s != "null":
				parse(tn, good(anySeq, symNN("JSON:"+s, anySeq)))
			case json.Unmarshal([]byte(s), &m) == nil && s != "null":
				parse(tn, good(anyMap, symNN("JSON:"+s, anyMap)))
			default:
				parse(tn, fail)
			}
		}
		parse("TypeUnknown", fail)
	}
	for _, tn := range []string{"TypeArray", "TypeObject"} {
		v.fold("text of "+tn, "(vals.Type).ValueToString", func(x Exit) (bool, string) {
			g := x.st.norm(x.res[0]).Key()
			return strings.Contains(g, "json(") && strings.Contains(g, "$val") && x.st.isZero(x.res[1]) == T, "it is " + clip(g)
		}, func(st *State) []AV { return []AV{v.typ(tn), iface(anySeq, symNN("val", anySeq))} })
	}
	for tn, own := range map[string]types.Type{"TypeString": strT, "TypeNumber": f64T, "TypeBoolean": boolTy, "TypeInteger": types.Typ[types.Int], "TypeUnknown": nil} {
		for _, t := range []types.Type{strT, f64T, boolTy, types.Typ[types.Int], anySeq} {
			if own == nil || !types.Identical(t, own) {
				v.fold("text of "+tn+" from "+typeKey(t), "(vals.Type).ValueToString", fail, func(st *State) []AV { return []AV{v.typ(tn), iface(t, sym("val", t))} })
			}
		}
	}
}

// comparing: texts of a known type.
func comparing(v *valsRun) {
	text := map[string][]string{
		"TypeString":  {"", "a", "b", "aa", "B", "10", "9"},
		"TypeInteger": {"", "9", "10", "-9", "-10", "0", "9223372036854775807", "x", "1.5"},
		"TypeNumber":  {"", "9", "10.5", "-9", "-10.25", "0.1", "1e3", "1e300", "x"},
		"TypeBoolean": {"", "true"},
		"TypeUnknown": {"", "1"},
	}
	for tn, l := range text {
		for _, a := range l {
			for _, b := range l {
				sign, bad := 0, false
				cmp := func(less, more bool) {
					if less {
						sign = -1
					} else if more {
						sign = 1
					}
				}
				switch {
				case a == "" || b == "":
					cmp(a == "" && b != "", b == "" && a != "")
				case tn == "TypeString":
					sign = strings.Compare(a, b)
				case tn == "TypeInteger":
					x, e1 := strconv.ParseInt(a, 10, 64)
					y, e2 := strconv.ParseInt(b, 10, 64)
					bad = e1 != nil || e2 != nil
					cmp(x < y, x > y)
				case tn == "TypeNumber":
					x, e1 := strconv.ParseFloat(a, 64)
					y, e2 := strconv.ParseFloat(b, 64)
					bad = e1 != nil || e2 != nil
					cmp(x < y, x > y)
				default:
					bad = true
				}
				v.fold(fmt.Sprintf("%s %q and %q", tn, a, b), "vals.CompareTypeBytes", func(x Exit) (bool, string) {
					n, ok := intConst(x.st.norm(x.res[0]))
					if bad {
						return x.st.isZero(x.res[1]) == F, "they are compared without an error"
					}
					return ok && int(n) == sign && x.st.isZero(x.res[1]) == T, fmt.Sprintf("the result is %s with the error %s, expected %d", clip(x.res[0].Key()), clip(x.res[1].Key()), sign)
				}, func(st *State) []AV {
					return []AV{peeked(str2bs(a), false), peeked(str2bs(b), false), v.typ(tn)}
				})
			}
		}
	}
}

// show writes a value of the package canonically.
func (v *valsRun) show(e *Engine, st *State, x AV) string {
	a := st.norm(x).single()
	if a == nil {
		return "?" + clip(x.Key())
	}
	if a.K == KNil {
		return "nil"
	}
	if a.K != KIface {
		return "?" + clip(x.Key())
	}
	t, val := a.T, a.Args[0]
	if el, ok := ptrElem(t); ok {
		o, path, _ := st.target(st.norm(val).single())
		if o == nil {
			return "?" + clip(x.Key())
		}
		t, val = el, st.read(o, path, el)
	}
	val = st.norm(val)
	name := strings.TrimPrefix(typeKey(t), "vals.")
	switch name {
	case "Integer", "Boolean", "String", "Null":
		c := val.single()
		if c != nil && c.K == KZero {
			c = zeroConst(t).single()
		}
		if c == nil || c.K != KConst {
			return "?" + name + clip(val.Key())
		}
		return name + " " + c.C.ExactString()
	case "Number":
		f, ok := floatConst(val)
		if !ok {
			return "?" + name + clip(val.Key())
		}
		return "Number " + strconv.FormatFloat(f, 'g', -1, 64)
	case "Array":
		q := e.asSeq(st, val)
		if q == nil || q.Open {
			return "?" + name + clip(val.Key())
		}
		var out []string
		for _, i := range q.Args {
			out = append(out, v.show(e, st, i))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case "Object":
		m := val.single()
		if m == nil || m.K != KMap || st.get(m.Obj) == nil {
			return "?" + name + clip(val.Key())
		}
		o := st.get(m.Obj)
		if o.Rest != RNone {
			return "?" + name + " with unknown keys"
		}
		var out []string
		for _, en := range o.Ents {
			k, ok := strConst(en.Key)
			if en.P == PAbsent {
				continue
			}
			if !ok || en.P != PMust {
				return "?" + name + " with a key " + clip(en.Key.Key())
			}
			out = append(out, strconv.Quote(k)+": "+v.show(e, st, en.Val))
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ", ") + "}"
	}
	return "?" + name
}

func (v *valsRun) shows(want string, errAt int) func(x Exit) (bool, string) {
	return func(x Exit) (bool, string) {
		if want == "error" {
			return x.st.isZero(x.res[errAt]) == F, "there is no error, the value is " + v.show(newEngine(v.p), x.st, x.res[0])
		}
		if x.st.isZero(x.res[errAt]) != T {
			return false, "there is the error " + clip(x.res[errAt].Key())
		}
		g := v.show(newEngine(v.p), x.st, x.res[0])
		return g == want, "the value is " + g + ", expected " + want
	}
}

// converting: decoded Go data.
func converting(v *valsRun) {
	type in struct {
		av   func(st *State) AV
		want string
	}
	basic := func(k types.BasicKind, c AV) func(st *State) AV {
		return func(*State) AV { return iface(types.Typ[k], c) }
	}
	ints := map[types.BasicKind][]int64{
		types.Uint8: {0, 7, 255}, types.Uint16: {0, 7, 65535}, types.Uint32: {0, 7, math.MaxUint32},
		types.Int: {0, 7, -7, math.MaxInt64, math.MinInt64}, types.Int32: {0, 7, -7, math.MaxInt32, math.MinInt32}, types.Int64: {0, 7, math.MaxInt64, math.MinInt64}, types.Uint64: {0, 7, math.MaxInt64},
	}
	var leaves []in
	for _, k := range []types.BasicKind{types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Int, types.Int32, types.Int64} {
		for _, n := range ints[k] {
			leaves = append(leaves, in{basic(k, cInt(n)), fmt.Sprintf("Integer %d", n)})
		}
	}
	for _, f := range []float64{0, 1.5, -2.25, 1e300, 7} {
		c, _ := cFloat(f)
		leaves = append(leaves, in{basic(types.Float64, c), "Number " + strconv.FormatFloat(f, 'g', -1, 64)})
	}
	leaves = append(leaves,
		in{basic(types.String, cStr("")), `String ""`}, in{basic(types.String, cStr("x")), `String "x"`},
		in{basic(types.Bool, cBool(true)), "Boolean true"}, in{basic(types.Bool, cBool(false)), "Boolean false"},
		in{func(*State) AV { return vNil() }, "Null true"})
	pt := types.NewPointer(strT)
	bads := []in{
		{func(*State) AV { return iface(pt, symNN("other", pt)) }, "error"},
		{basic(types.Uint64, cUint(math.MaxInt64+1)), "error"}, {basic(types.Uint64, cUint(math.MaxUint64)), "error"},
	}
	k := 0
	list := func(l ...in) in {
		want := "["
		for i, x := range l {
			if i > 0 {
				want += ", "
			}
			want += x.want
			if x.want == "error" {
				return in{func(st *State) AV { return seqIface(st, l2av(l, st, func(i in) AV { return i.av(st) })) }, "error"}
			}
		}
		return in{func(st *State) AV { return seqIface(st, l2av(l, st, func(i in) AV { return i.av(st) })) }, want + "]"}
	}
	object := func(keys string, other bool, l ...in) in {
		var ws []string
		want := ""
		ks := strings.Fields(keys)
		for i, x := range l {
			ws = append(ws, strconv.Quote(ks[i])+": "+x.want)
			if x.want == "error" {
				want = "error"
			}
		}
		sort.Strings(ws)
		if want == "" {
			want = "{" + strings.Join(ws, ", ") + "}"
		}
		return in{func(st *State) AV {
			k++
			id := "VAL:" + itoa(k)
			t := types.Type(anyMap)
			if other {
				t = types.NewMap(anyTy, anyTy)
			}
			var kv []AV
			for i, x := range l {
				key := cStr(ks[i])
				if other {
					key = iface(strT, key)
				}
				kv = append(kv, key, x.av(st))
			}
			return iface(t, newMap(st, id, t, kv...))
		}, want}
	}
	all := append(append([]in{}, leaves...), bads...)
	five := []in{leaves[1], leaves[len(leaves)-3], leaves[len(leaves)-1], bads[0]}
	ins := append([]in{list(), object("", false), object("", true)}, all...)
	for _, a := range all {
		ins = append(ins, list(a), object("a", false, a), object("a", true, a))
	}
	for _, a := range five {
		for _, b := range five {
			ins = append(ins, list(a, b), object("a b", false, a, b), object("a b", true, a, b), list(list(a), object("k", false, b)), object("x y", false, list(a, b), object("k", true, b)))
		}
	}
	it := types.NewMap(anyTy, anyTy)
	one := iface(types.Typ[types.Int], cInt(1))
	half, _ := cFloat(0.5)
	for _, odd := range []AV{one, vNil(), iface(types.Typ[types.Float64], half), iface(boolT, cBool(true))} {
		for n := 0; n < 3; n++ {
			for at := 0; at <= n; at++ {
				var kv []AV
				for i := 0; i <= n; i++ {
					key := iface(strT, cStr("k"+itoa(i)))
					if i == at {
						key = odd
					}
					kv = append(kv, key, iface(strT, cStr("x")))
				}
				id := fmt.Sprintf("VAL:odd%d", len(ins))
				ins = append(ins, in{func(st *State) AV { return iface(it, newMap(st, id, it, kv...)) }, "error"})
			}
		}
	}
	for i, x := range ins {
		v.fold(fmt.Sprintf("decoded %d (%s)", i, x.want), "vals.ConvertDecoded", v.shows(x.want, 1), func(st *State) []AV { return []AV{x.av(st)} })
	}
}

func l2av[T any](l []T, st *State, f func(T) AV) []AV {
	var out []AV
	for _, x := range l {
		out = append(out, f(x))
	}
	return out
}

func seqIface(st *State, items []AV) AV { return iface(anySeq, seqOf(anySeq, items...)) }

// decoding: JSON text.
func decoding(v *valsRun) {
	var want func(x interface{}) string
	want = func(x interface{}) string {
		switch t := x.(type) {
		case nil:
			return "Null true"
		case bool:
			return fmt.Sprint("Boolean ", t)
		case string:
			return "String " + strconv.Quote(t)
		case json.Number:
			if integerText.MatchString(string(t)) {
				n, err := strconv.ParseInt(string(t), 10, 64)
				if err != nil {
					return "error"
				}
				return fmt.Sprint("Integer ", n)
			}
			f, err := t.Float64()
			if err != nil {
				return "error"
			}
			return "Number " + strconv.FormatFloat(f, 'g', -1, 64)
		case []interface{}:
			var out []string
			for _, i := range t {
				w := want(i)
				if w == "error" {
					return w
				}
				out = append(out, w)
			}
			return "[" + strings.Join(out, ", ") + "]"
		case map[string]interface{}:
			var out []string
			for k, i := range t {
				w := want(i)
				if w == "error" {
					return w
				}
				out = append(out, strconv.Quote(k)+": "+w)
			}
			sort.Strings(out)
			return "{" + strings.Join(out, ", ") + "}"
		}
		return "?"
	}
	scalars := []string{"null", "true", "false", `""`, `"x"`, `"1"`, `"true"`, `"null"`, `"{}"`, "0", "7", "-7", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1.5", "-0.25", "1e5", "1E-2", "1e39", "1e300", "1e400", "-1e39", "-0.5e-40"}
	docs := append([]string{}, scalars...)
	for _, s := range scalars {
		docs = append(docs, "["+s+"]", `{"k":`+s+"}", `[{"a": `+s+` , "b":[`+s+`]},`+s+"]", `{"x":[1,`+s+`],"y":{"z":`+s+`}}`)
	}
	docs = append(docs, "[]", "{}", "[[],{}]", `[ 1 , "a" ,null ]`, "[1,[2,[3,[4]]]]")
	for _, d := range docs[:len(docs)-0] {
		if len(d) < 12 {
			docs = append(docs, " "+d, "\n\t"+d, "\r\n"+d+" \t\n")
		}
	}
	for _, d := range append(docs, "", " ", "[", "{", "[1", `{"a"`, `{"a":}`, "[1,]", "nul", "tru", "t", "True", "x", `"x`, "1.", "01", "-", "1 2", "[1] 2", "{}{}", "[nul]", "[t]", `{"a":f}`) {
		dec := json.NewDecoder(strings.NewReader(d))
		dec.UseNumber()
		var x interface{}
		w := "error"
		if json.Valid([]byte(d)) && dec.Decode(&x) == nil {
			w = want(x)
		}
		v.fold(fmt.Sprintf("JSON %q", d), "vals.UnmarshalJSON", v.shows(w, 1), func(st *State) []AV { return []AV{peeked(str2bs(d), false)} })
	}
}

// equality of two values.
func equality(v *valsRun) {
	type one struct {
		name, t string
		c       AV
	}
	f15, _ := cFloat(1.5)
	f7, _ := cFloat(7)
	all := []one{
		{"Integer 7", "Integer", cInt(7)}, {"Integer 8", "Integer", cInt(8)}, {"Integer 0", "Integer", cInt(0)}, {"Number 1.5", "Number", f15}, {"Number 7", "Number", f7},
		{"Boolean true", "Boolean", cBool(true)}, {"Boolean false", "Boolean", cBool(false)}, {"String x", "String", cStr("x")}, {"String 7", "String", cStr("7")}, {"String", "String", cStr("")}, {"Null", "Null", cBool(true)},
	}
	for _, a := range all {
		for _, b := range all {
			v.fold(a.name+" equals "+b.name, "vals.Equal", func(x Exit) (bool, string) {
				return sameAV(x.st.norm(x.res[0]), cBool(a.name == b.name)), "the result is " + clip(x.res[0].Key())
			}, func(st *State) []AV {
				return []AV{iface(v.p.typ(valsPkg, a.t), a.c), iface(v.p.typ(valsPkg, b.t), b.c)}
			})
		}
	}
}

// access: what a value says about itself.
func access(v *valsRun) {
	f15, _ := cFloat(-1.5)
	f9, _ := cFloat(-9)
	vt := func(n string) types.Type { return v.p.typ(valsPkg, n) }
	vi := v.p.typ(valsPkg, "Value")
	item := func(i int64) AV { return iface(vt("Integer"), cInt(i)) }
	own := []struct {
		t, kind string
		c       AV
		ask     map[string]AV
	}{
		{"Integer", "TypeInteger", cInt(-9), map[string]AV{"Integer": cInt(-9), "Number": f9}},
		{"Number", "TypeNumber", f15, map[string]AV{"Number": f15}},
		{"Boolean", "TypeBoolean", cBool(true), map[string]AV{"Boolean": cBool(true)}},
		{"Boolean", "TypeBoolean", cBool(false), map[string]AV{"Boolean": cBool(false)}},
		{"String", "TypeString", cStr("x y"), map[string]AV{"String": cStr("x y")}},
		{"Null", "TypeNull", cBool(true), nil},
		{"Array", "TypeArray", seqOf(types.NewSlice(vi), item(4), item(5), item(6)), map[string]AV{"Len": cInt(3), "Index 0": item(4), "Index 2": item(6)}},
		{"Object", "TypeObject", AV{}, map[string]AV{"MapIndex a": item(4), "MapIndex b": item(5), "MapIndex c": vNil()}},
	}
	for _, o := range own {
		ask := map[string]AV{"Type": v.typ(o.kind), "IsNull": cBool(o.t == "Null")}
		for k, w := range o.ask {
			ask[k] = w
		}
		for q, w := range ask {
			f := strings.Fields(q)
			v.fold("a "+o.t+" asked for "+q, "(vals."+o.t+")."+f[0], func(x Exit) (bool, string) {
				g := x.st.norm(x.res[0])
				return sameAV(g, w) || w.single() != nil && w.single().K == KNil && x.st.isZero(g) == T, "it is " + clip(g.Key()) + ", expected " + clip(w.Key())
			}, func(st *State) []AV {
				c := o.c
				if o.t == "Object" {
					c = newMap(st, "VAL:obj", vt("Object"), cStr("a"), item(4), cStr("b"), item(5))
				}
				args := []AV{c}
				if len(f) > 1 && f[0] == "Index" {
					n, _ := strconv.Atoi(f[1])
					args = append(args, cInt(int64(n)))
				} else if len(f) > 1 {
					args = append(args, cStr(f[1]))
				}
				return args
			})
		}
	}
}
