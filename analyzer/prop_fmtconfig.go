package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C16: format configuration -------------------------------------------------------

func checkFormatConfig(p *Program) *Report {
	r := newReport("C16")
	r.Rule = "Abstract interpretation of the map form and the parser of every format configuration, composed: for every field value (booleans both ways, every single-byte separator, arbitrary sheet name, arbitrary JSON option) the parsed configuration must hold the field's value and nothing else; parsing is decided separately for every option absent, present with the right type, and present with any wrong type; unsupported formats must be rejected."
	parse := p.fn("dataset.ParseFormatConfigMap")
	if !r.need(parse != nil, "dataset.ParseFormatConfigMap") {
		return r
	}
	str, boolT := types.Typ[types.String], types.Typ[types.Bool]
	anyT := types.NewInterfaceType(nil, nil)
	mt := types.NewMap(str, anyT)
	type cfg struct {
		tn, con string
		fields  []string
	}
	cfgs := []cfg{{"CSVOptions", "CSVDataFormat", []string{"HeaderRow", "LazyQuotes", "Separator", "VariadicFields"}}, {"XLSXOptions", "XLSXDataFormat", []string{"SheetName"}}, {"JSONOptions", "JSONDataFormat", []string{"Options"}}}
	keys := map[string]string{"HeaderRow": "headerRow", "LazyQuotes": "lazyQuotes", "Separator": "separator", "VariadicFields": "variadicFields", "SheetName": "sheetName"}

	// value of a field of the parsed configuration
	field := func(x Exit, v AV, tn, f string) (AV, bool) {
		t := p.typ(dsPkg, tn)
		pt := types.NewPointer(t)
		a := v.single()
		if a == nil || a.K != KIface || typeKey(a.T) != typeKey(pt) {
			return Top, false
		}
		g, _, ok := readPath(x.st, a.Args[0], pt, []string{f})
		return g, ok
	}
	var jobs []func(r *Report)
	roundTrip := func(c cfg, desc string, prep func(st *State, id string), want map[string]AV) {
		jobs = append(jobs, func(r *Report) {
			t := p.typ(dsPkg, c.tn)
			pt := types.NewPointer(t)
			mapM, ok := p.method(dsPkg, c.tn, "Map"), true
			con, ok2 := constValue(p, dsPkg, c.con)
			if !r.need(mapM != nil && ok && ok2, "map form of "+c.tn) {
				return
			}
			e, xs := invokeFn(p, r, mapM, func(e *Engine, st *State) {
				o := st.symObj(symNN("cfg", pt).single(), t)
				prep(st, o.ID)
			}, symNN("cfg", pt))
			id := "round-trip:" + c.tn + ":" + desc
			if len(e.undecided) > 0 || len(xs) == 0 {
				r.bad(id, p.fpos(mapM), "the map form is undecided")
				return
			}
			for _, x := range xs {
				st := x.st.clone()
				st.env = map[ssa.Value]AV{}
				ys := normalExits(e.run(parse, []AV{con, x.res[0]}, nil, st, "p"))
				r.engine(e)
				expect(r, e, ys, id, p.fpos(parse), func(y Exit) (bool, string) {
					if y.st.isZero(y.res[1]) != T {
						return false, "the map form of a configuration is rejected: " + clip(y.res[1].Key())
					}
					for f, w := range want {
						g, ok := field(y, y.res[0], c.tn, f)
						if !ok || !same(y.st, g, w) {
							return false, fmt.Sprintf("%s comes back as %s, expected %s", f, clip(g.Key()), clip(w.Key()))
						}
					}
					return true, ""
				})
			}
		})
	}
	for _, c := range cfgs {
		t := p.typ(dsPkg, c.tn)
		if !r.need(t != nil, c.tn) {
			continue
		}
		got := map[string]bool{}
		for _, f := range fieldsOf(t) {
			got[f.name] = true
		}
		for _, f := range c.fields {
			r.need(got[f], c.tn+"."+f)
		}
		r.check(len(got) == len(c.fields), "fields:"+c.tn, "", "%s has fields the round trip is not stated over", c.tn)
	}
	if len(r.Violations) > 0 {
		return r
	}
	csv := cfgs[0]
	rt := types.Typ[types.Rune]
	for mask := 0; mask < 8; mask++ {
		for sep := int64(0); sep < 128; sep++ {
			if sep > 1 && mask != 0 && mask != 7 && sep != ';' && sep != '\t' {
				continue
			}
			vals := map[string]AV{"HeaderRow": cBool(mask&1 != 0), "LazyQuotes": cBool(mask&2 != 0), "VariadicFields": cBool(mask&4 != 0), "Separator": cInt(sep)}
			roundTrip(csv, fmt.Sprintf("%d,%d", mask, sep), func(st *State, id string) {
				for f, v := range vals {
					ft := types.Type(boolT)
					if f == "Separator" {
						ft = rt
					}
					st.write(id, "."+f, ft, v, false)
				}
			}, vals)
		}
	}
	for _, set := range []bool{true, false} {
		want := cStr("")
		if set {
			want = sym("cfg*.SheetName", str)
		}
		roundTrip(cfgs[1], "sheet="+setStr(set), func(st *State, id string) { st.assumeZero("cfg*.SheetName", !set) }, map[string]AV{"SheetName": want})
	}
	roundTrip(cfgs[2], "options", func(st *State, id string) { st.assumeZero("cfg*.Options", false) }, map[string]AV{"Options": sym("cfg*.Options", mt)})

	// parsing: every option absent / right type / wrong type, others unknown
	parseCase := func(con, tn, f, state string, val AV, wantErr bool, want AV) {
		jobs = append(jobs, func(r *Report) {
			c, ok := constValue(p, dsPkg, con)
			if !r.need(ok, con) {
				return
			}
			e, xs := invokeFn(p, r, parse, func(e *Engine, st *State) {
				st.assumeZero("opts", false)
				st.symMap(sym("opts", mt).single(), mt)
				if state == "absent" {
					e.mapDelete(nil, st, sym("opts", mt), cStr(keys[f]), mt, nil)
				} else {
					e.mapSet(nil, st, sym("opts", mt), cStr(keys[f]), val, mt, nil)
				}
			}, c, sym("opts", mt))
			expect(r, e, xs, "parse:"+tn+"."+f+":"+state, p.fpos(parse), func(x Exit) (bool, string) {
				if wantErr {
					return x.st.isZero(x.res[1]) == F, fmt.Sprintf("option %s with %s is accepted", keys[f], state)
				}
				if x.st.isZero(x.res[1]) == F {
					// another option may be invalid
					return true, ""
				}
				g, ok := field(x, x.res[0], tn, f)
				return ok && same(x.st, g, want), fmt.Sprintf("option %s %s: %s ends up as %s, expected %s", keys[f], state, f, clip(g.Key()), want)
			})
		})
	}
	for _, f := range []string{"HeaderRow", "LazyQuotes", "VariadicFields"} {
		parseCase("CSVDataFormat", "CSVOptions", f, "absent", AV{}, false, cBool(false))
		for _, b := range []bool{true, false} {
			parseCase("CSVDataFormat", "CSVOptions", f, fmt.Sprintf("given as %v", b), iface(boolT, cBool(b)), false, cBool(b))
		}
		parseCase("CSVDataFormat", "CSVOptions", f, "a string value", iface(str, sym("wrong", str)), true, AV{})
		parseCase("CSVDataFormat", "CSVOptions", f, "a number value", iface(types.Typ[types.Float64], sym("wrongf", types.Typ[types.Float64])), true, AV{})
	}
	parseCase("CSVDataFormat", "CSVOptions", "Separator", "absent", AV{}, false, cInt(0))
	parseCase("CSVDataFormat", "CSVOptions", "Separator", "a number value", iface(types.Typ[types.Float64], sym("wrongf", types.Typ[types.Float64])), true, AV{})
	parseCase("CSVDataFormat", "CSVOptions", "Separator", "an empty string", iface(str, cStr("")), true, AV{})
	parseCase("CSVDataFormat", "CSVOptions", "Separator", "two characters", iface(str, cStr(";;")), true, AV{})
	parseCase("XLSXDataFormat", "XLSXOptions", "SheetName", "absent", AV{}, false, cStr(""))
	parseCase("XLSXDataFormat", "XLSXOptions", "SheetName", "given", iface(str, sym("name", str)), false, sym("name", str))
	parseCase("XLSXDataFormat", "XLSXOptions", "SheetName", "a boolean value", iface(boolT, sym("wrongb", boolT)), true, AV{})
	for _, f := range []string{"UnknownDataFormat", "XMLDataFormat", "CBORDataFormat", "NDJSONDataFormat"} {
		jobs = append(jobs, func(r *Report) {
			c, ok := constValue(p, dsPkg, f)
			if !r.need(ok, f) {
				return
			}
			e, xs := invokeFn(p, r, parse, nil, c, sym("opts", mt))
			expect(r, e, xs, "parse:"+f, p.fpos(parse), func(x Exit) (bool, string) {
				return x.st.isZero(x.res[1]) == F, "a configuration for a format without one is accepted"
			})
		})
	}
	r.run(jobs)
	r.atLeast(r.Obligations, 280, "configurations")
	return r
}
