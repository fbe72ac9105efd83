package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C46: validation rules -----------------------------------------------------------

func checkValidate(p *Program) *Report {
	r := newReport("C46")
	r.Rule = "Abstract interpretation of the dataset, commit and structure validators, per rule: each documented defect alone, with every other field unknown, must give an error at every exit, and a document free of all of them must give none; title lengths are decided for every length up to 160."
	ds, cm, stv := p.fn("validate.Dataset"), p.fn("validate.Commit"), p.fn("validate.Structure")
	if !r.need(ds != nil, "validate.Dataset") || !r.need(cm != nil, "validate.Commit") || !r.need(stv != nil, "validate.Structure") {
		return r
	}
	D, C, S := p.typ(dsPkg, "Dataset"), p.typ(dsPkg, "Commit"), p.typ(dsPkg, "Structure")
	str := types.Typ[types.String]
	verdict := func(id string, fn *ssa.Function, arg AV, prep func(e *Engine, st *State), bad bool) {
		e, xs := invokeFn(p, r, fn, prep, arg)
		expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
			if bad {
				return x.st.isZero(x.res[0]) == F, "accepted: " + id
			}
			return x.st.isZero(x.res[0]) == T, "may be rejected: " + id + ": " + clip(x.res[0].Key())
		})
	}
	pD, pC, pS := types.NewPointer(D), types.NewPointer(C), types.NewPointer(S)
	verdict("no dataset", ds, vNil(), nil, false)
	verdict("no commit", cm, vNil(), nil, false)
	verdict("no structure", stv, vNil(), nil, false)
	set := func(st *State, nm string, t types.Type, f string, ft types.Type, v AV) {
		o := st.symObj(symNN(nm, types.NewPointer(t)).single(), t)
		st.write(o.ID, "."+f, ft, v, false)
	}
	for n := 0; n <= 160; n++ {
		ttl := cStr(strings.Repeat("x", n))
		verdict(fmt.Sprintf("commit title of length %d", n), cm, symNN("cm", pC), func(e *Engine, st *State) { set(st, "cm", C, "Title", str, ttl) }, n > 100)
	}
	for _, unit := range []string{"é", "日", "é x", " ", "x ", "e\u0301", "\n", "\xff"} {
		for n := 1; n <= 110; n++ {
			t := strings.Repeat(unit, n)
			if len(t) >= 90 && len(t) <= 112 || n > 90 {
				verdict(fmt.Sprintf("commit title of %d times %q", n, unit), cm, symNN("cm", pC), func(e *Engine, st *State) { set(st, "cm", C, "Title", str, cStr(t)) }, len(t) > 100)
			}
		}
	}
	type sc struct {
		format string
		schema bool
	}
	var others = []string{"", "xyz"}
	for _, f := range formatNames {
		others = append(others, f.name)
	}
	for _, f := range others {
		for _, sch := range []bool{true, false} {
			bad := f == "" || f == "xyz" || !sch
			verdict(fmt.Sprintf("structure of format %q, schema %v", f, sch), stv, symNN("st", pS), func(e *Engine, st *State) {
				set(st, "st", S, "Format", str, cStr(f))
				st.assumeZero("st*.Schema", !sch)
			}, bad)
			for _, title := range []int{10, 101} {
				for _, commit := range []bool{true, false} {
					verdict(fmt.Sprintf("dataset with commit %v, title length %d, structure of format %q, schema %v", commit, title, f, sch), ds, symNN("ds", pD), func(e *Engine, st *State) {
						st.assumeZero("ds*.Commit", !commit)
						st.assumeZero("ds*.Structure", false)
						st.symObj(symNN("ds", pD).single(), D)
						set(st, "ds*.Commit", C, "Title", str, cStr(strings.Repeat("x", title)))
						set(st, "ds*.Structure", S, "Format", str, cStr(f))
						st.assumeZero("ds*.Structure*.Schema", !sch)
					}, bad || !commit || title > 100)
				}
			}
		}
	}
	for _, title := range []int{0, 10, 100, 101} {
		verdict(fmt.Sprintf("dataset with title length %d and no structure", title), ds, symNN("ds", pD), func(e *Engine, st *State) {
			st.assumeZero("ds*.Commit", false)
			st.assumeZero("ds*.Structure", true)
			st.symObj(symNN("ds", pD).single(), D)
			set(st, "ds*.Commit", C, "Title", str, cStr(strings.Repeat("x", title)))
		}, title > 100)
	}
	verdict("structure of an unknown format", stv, symNN("st", pS), func(e *Engine, st *State) {
		set(st, "st", S, "Format", str, otherString("OTHER:format2", append(others, ".csv", ".json", ".ndjson", ".cbor", ".xml", ".xlsx", "jsonl", ".jsonl")))
	}, true)
	r.atLeast(r.Obligations, 230, "rule instances")
	return r
}

// ---- C47: setting metadata by key ------------------------------------------------------

func checkMetaSet(p *Program) *Report {
	r := newReport("C47")
	r.Rule = "Abstract interpretation of the metadata setters, per published key in several spellings, per value type, and for one arbitrary other key: the named field (and only it) must end up holding the value, values of the wrong type must be refused with an error, other keys must be stored as custom metadata under exactly that key with all other entries kept; the accessor must return a fresh map with the same entries."
	set, arb, get := p.method(dsPkg, "Meta", "Set"), p.method(dsPkg, "Meta", "SetArbitrary"), p.method(dsPkg, "Meta", "Meta")
	if !r.need(set != nil && arb != nil && get != nil, "metadata setters and accessor") {
		return r
	}
	t := p.typ(dsPkg, "Meta")
	pt := types.NewPointer(t)
	str := types.Typ[types.String]
	anyT := types.NewInterfaceType(nil, nil)
	mt := types.NewMap(str, anyT)
	sl := types.NewSlice(anyT)
	doc := symNN("doc", pt)
	boolV := iface(types.Typ[types.Bool], sym("wrong", types.Typ[types.Bool]))
	strV := func(n string) AV { return iface(str, sym(n, str)) }
	others := func(x Exit, not string) (bool, string) {
		for _, f := range fieldsOf(t) {
			if f.name == not {
				continue
			}
			v, _, _ := readPath(x.st, doc, pt, []string{f.name})
			if !same(x.st, v, sym("doc*."+f.name, f.t)) {
				return false, fmt.Sprintf("%s changes to %s", f.name, clip(v.Key()))
			}
		}
		// the custom entries stay as they were
		o := x.st.get("doc*.meta*")
		if o != nil && o.IsMap {
			for _, en := range o.Ents {
				if en.P != PInit && not != "meta" {
					return false, "the custom metadata changes at " + en.Key.Key()
				}
			}
			if o.Rest != RInit {
				return false, "the custom metadata changes"
			}
		}
		return true, ""
	}
	spell := func(k string) []string { return []string{k, strings.ToUpper(k), strings.ToLower(k), " " + k + "\t"} }
	var jobs []func(r *Report)
	one := func(id, key string, val AV, prep func(e *Engine, st *State), field string, wantErr bool, ok func(e *Engine, x Exit, v AV) bool) {
		jobs = append(jobs, func(r *Report) {
			e, xs := invokeFn(p, r, set, func(e *Engine, st *State) {
				st.symObj(doc.single(), t)
				if prep != nil {
					prep(e, st)
				}
			}, doc, cStr(key), val)
			expect(r, e, xs, "set:"+id, p.fpos(set), func(x Exit) (bool, string) {
				if wantErr {
					return x.st.isZero(x.res[0]) == F, fmt.Sprintf("key %q: a value of the wrong type is accepted", key)
				}
				if x.st.isZero(x.res[0]) != T {
					return false, fmt.Sprintf("key %q: a valid value may be refused: %s", key, clip(x.res[0].Key()))
				}
				v, _, _ := readPath(x.st, doc, pt, []string{field})
				if !ok(e, x, v) {
					return false, fmt.Sprintf("key %q: field %s ends up as %s", key, field, clip(v.Key()))
				}
				return others(x, field)
			})
		})
	}
	n := 0
	for _, f := range []struct{ key, field string }{{"qri", "Qri"}, {"accessURL", "AccessURL"}, {"accrualPeriodicity", "AccrualPeriodicity"}, {"description", "Description"}, {"downloadURL", "DownloadURL"},
		{"homeURL", "HomeURL"}, {"identifier", "Identifier"}, {"readmeURL", "ReadmeURL"}, {"title", "Title"}, {"version", "Version"}} {
		for _, k := range spell(f.key) {
			n++
			one(f.field, k, strV("v"), nil, f.field, false, func(e *Engine, x Exit, v AV) bool { return same(x.st, v, sym("v", str)) })
		}
		one(f.field+":null", f.key, vNil(), nil, f.field, false, func(e *Engine, x Exit, v AV) bool { return x.st.isZero(v) == T })
		one(f.field+":wrong", f.key, boolV, nil, f.field, true, nil)
		one(f.field+":wrong", f.key, iface(sl, seqOf(sl, strV("a"))), nil, f.field, true, nil)
	}
	for _, f := range []struct{ key, field string }{{"keywords", "Keywords"}, {"language", "Language"}, {"theme", "Theme"}} {
		for _, k := range spell(f.key) {
			for cnt := 0; cnt <= 8; cnt++ {
				if cnt > 3 && k != f.key {
					break
				}
				n++
				var in, want []AV
				for i := 0; i < cnt; i++ {
					in = append(in, strV(fmt.Sprint("v", i)))
					want = append(want, sym(fmt.Sprint("v", i), str))
				}
				one(f.field, k, iface(sl, seqOf(sl, in...)), nil, f.field, false, func(e *Engine, x Exit, v AV) bool {
					s := e.asSeq(x.st, v)
					if s == nil || s.Open || len(s.Args) != len(want) {
						return false
					}
					for i, w := range want {
						if !s.Must[i] || !same(x.st, s.Args[i], w) {
							return false
						}
					}
					return true
				})
			}
		}
		one(f.field+":null", f.key, vNil(), nil, f.field, false, func(e *Engine, x Exit, v AV) bool { return x.st.isZero(v) == T })
		one(f.field+":wrong", f.key, boolV, nil, f.field, true, nil)
		one(f.field+":wrong", f.key, strV("v"), nil, f.field, true, nil)
		for cnt := 1; cnt <= 5; cnt++ {
			for bad := 0; bad < cnt; bad++ {
				var in []AV
				for i := 0; i < cnt; i++ {
					in = append(in, strV(fmt.Sprint("v", i)))
				}
				in[bad] = boolV
				one(f.field+":wrong-item", f.key, iface(sl, seqOf(sl, in...)), nil, f.field, true, nil)
			}
		}
	}
	// structured values: one map per item, each entry given, absent or of a wrong type
	type item struct{ tn, key, field string }
	itemKeys := map[string][]fspec{
		"Citation": {{"Name", "name"}, {"URL", "url"}, {"Email", "email"}},
		"User":     {{"ID", "id"}, {"Fullname", "name"}, {"Email", "email"}},
		"License":  {{"Type", "type"}, {"URL", "url"}},
	}
	mkItem := func(e *Engine, st *State, tn, nm string) {
		st.assumeZero(nm, false)
		for _, f := range itemKeys[tn] {
			e.mapSet(nil, st, symNN(nm, mt), cStr(f.key), strV(nm+"."+f.key), mt, nil)
		}
	}
	itemOK := func(x Exit, tn, nm string, v AV) bool {
		it := p.typ(dsPkg, tn)
		for _, f := range itemKeys[tn] {
			g, _, ok := readPath(x.st, v, types.NewPointer(it), []string{f.field})
			if !ok || !same(x.st, g, sym(nm+"."+f.key, str)) {
				return false
			}
		}
		return true
	}
	for _, f := range []item{{"Citation", "citations", "Citations"}, {"User", "contributors", "Contributors"}} {
		if !r.need(p.typ(dsPkg, f.tn) != nil, f.tn) {
			continue
		}
		for _, k := range spell(f.key) {
			for cnt := 0; cnt <= 5; cnt++ {
				if cnt > 2 && k != f.key {
					break
				}
				n++
				var in []AV
				for i := 0; i < cnt; i++ {
					in = append(in, iface(mt, symNN(fmt.Sprint("it", i), mt)))
				}
				one(f.field, k, iface(sl, seqOf(sl, in...)), func(e *Engine, st *State) {
					for i := 0; i < cnt; i++ {
						mkItem(e, st, f.tn, fmt.Sprint("it", i))
					}
				}, f.field, false, func(e *Engine, x Exit, v AV) bool {
					s := e.asSeq(x.st, v)
					if s == nil || s.Open || len(s.Args) != cnt {
						return false
					}
					for i := range s.Args {
						if !s.Must[i] || !itemOK(x, f.tn, fmt.Sprint("it", i), s.Args[i]) {
							return false
						}
					}
					return true
				})
			}
		}
		one(f.field+":wrong", f.key, strV("v"), nil, f.field, true, nil)
		for cnt := 1; cnt <= 4; cnt++ {
			for bad := 0; bad < cnt; bad++ {
				var in []AV
				for i := 0; i < cnt; i++ {
					in = append(in, iface(mt, symNN(fmt.Sprint("it", i), mt)))
				}
				prep := func(e *Engine, st *State) {
					for i := 0; i < cnt; i++ {
						mkItem(e, st, f.tn, fmt.Sprint("it", i))
					}
				}
				for _, g := range itemKeys[f.tn] {
					one(f.field+":wrong-"+g.key, f.key, iface(sl, seqOf(sl, in...)), func(e *Engine, st *State) {
						prep(e, st)
						e.mapSet(nil, st, symNN(fmt.Sprint("it", bad), mt), cStr(g.key), boolV, mt, nil)
					}, f.field, true, nil)
				}
				broken := append([]AV{}, in...)
				broken[bad] = strV("v")
				one(f.field+":wrong-item", f.key, iface(sl, seqOf(sl, broken...)), prep, f.field, true, nil)
			}
		}
	}
	for _, k := range spell("license") {
		n++
		one("License", k, iface(mt, symNN("it0", mt)), func(e *Engine, st *State) { mkItem(e, st, "License", "it0") }, "License", false, func(e *Engine, x Exit, v AV) bool { return itemOK(x, "License", "it0", v) })
	}
	one("License:wrong", "license", strV("v"), nil, "License", true, nil)
	for _, g := range itemKeys["License"] {
		one("License:wrong-"+g.key, "license", iface(mt, symNN("it0", mt)), func(e *Engine, st *State) {
			mkItem(e, st, "License", "it0")
			e.mapSet(nil, st, symNN("it0", mt), cStr(g.key), boolV, mt, nil)
		}, "License", true, nil)
	}
	// any other key
	custom := []AV{cStr("foo"), cStr("Some Key"), cStr("MiXed"), cStr("keyword"), cStr("length"), cStr("titles")}
	for _, fn := range []*ssa.Function{set, arb} {
		for _, key := range custom {
			for _, have := range []bool{true, false} {
				jobs = append(jobs, func(r *Report) {
					e, xs := invokeFn(p, r, fn, func(e *Engine, st *State) {
						st.symObj(doc.single(), t)
						st.assumeZero("doc*.meta", !have)
					}, doc, key, sym("val", anyT))
					expect(r, e, xs, "set-custom:"+fn.Name()+":"+key.Key(), p.fpos(fn), func(x Exit) (bool, string) {
						if x.st.isZero(x.res[0]) != T {
							return false, "a custom entry may be refused"
						}
						m, _, _ := readPath(x.st, doc, pt, []string{"meta"})
						v, has := mapAt(e, x.st, m, mt, key)
						if x.st.truth(has) != T || !sameVal(x.st, v, sym("val", anyT)) {
							return false, fmt.Sprintf("custom key %s holds %s (present: %s)", key, clip(v.Key()), has)
						}
						ov, oh := mapAt(e, x.st, m, mt, cStr("unrelated"))
						if have {
							if !sameVal(x.st, ov, sym("doc*.meta*["+cStr("unrelated").Key()+"]", anyT)) {
								return false, "another custom entry is lost: " + clip(ov.Key())
							}
						} else if x.st.truth(oh) != F {
							return false, "a custom entry appears from nowhere"
						}
						for _, lk := range []string{strings.ToLower(mustStr(key)), strings.ToUpper(mustStr(key))} {
							if lk == mustStr(key) || have {
								continue
							}
							if _, h := mapAt(e, x.st, m, mt, cStr(lk)); x.st.truth(h) != F {
								return false, "the key is also stored as " + lk
							}
						}
						for _, f := range fieldsOf(t) {
							if f.name == "meta" {
								continue
							}
							v, _, _ := readPath(x.st, doc, pt, []string{f.name})
							if !same(x.st, v, sym("doc*."+f.name, f.t)) {
								return false, fmt.Sprintf("setting custom key %s changes %s to %s", key, f.name, clip(v.Key()))
							}
						}
						return true, ""
					})
				})
			}
		}
	}
	// accessor
	for _, has := range []bool{true, false} {
		jobs = append(jobs, func(r *Report) {
			e, xs, fn := docCall(p, r, "Meta", "Meta", func(e *Engine, st *State) {
				st.facts["$KEY:custom"] = Fact{}
				st.assumeZero("doc*.meta", false)
				st.assumeZero("has:doc*.meta*[$KEY:custom]", !has)
			})
			key := sym("KEY:custom", str)
			expect(r, e, xs, "accessor", p.fpos(fn), func(x Exit) (bool, string) {
				v, h := mapAt(e, x.st, x.res[0], mt, key)
				if has && (x.st.truth(h) != T || !sameVal(x.st, v, sym("doc*.meta*[$KEY:custom]", anyT))) {
					return false, "the custom metadata accessor drops or changes an entry: " + clip(v.Key())
				}
				if !has && x.st.truth(h) != F {
					return false, "the custom metadata accessor invents an entry"
				}
				for _, a := range x.res[0].atoms {
					if x.res[0].top || a.K != KMap || strings.HasPrefix(a.Obj, "doc") {
						return false, "the custom metadata accessor hands out the document's own map"
					}
				}
				return others(x, "")
			})
		})
	}
	r.run(jobs)
	r.atLeast(n, 100, "key spellings")
	return r
}

func mustStr(v AV) string { s, _ := strConst(v); return s }
