package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C32: entries are passed on completely and in order -----------------------------------
//
// Consumers of entry readers are interpreted over a source of n unknown entries,
// and over one of any number of entries, where tags record whether the entry read
// last has been passed on before the next one is read.

var (
	rdAV = "rd"
	wrAV = "wr"
)

func (p *Program) ifaceSym(pkg, typ, name string) AV {
	return symNN(name, p.typ(pkg, typ))
}

// consumed is called when an entry's value ends up in a list or map.
func (e *Engine) consumed(st *State, key, val AV, keyed bool) {
	if e.streams == nil || e.streams.src == nil || e.streams.src.n >= 0 || !e.streams.src.collect {
		return
	}
	v := val.single()
	if v == nil || v.K != KSym || v.Name != "rV" {
		return
	}
	if keyed {
		if k := key.single(); k == nil || k.K != KSym || k.Name != "rK" {
			st.tags["wrong"] = "yes"
			return
		}
	}
	if st.tags["pending"] != "yes" {
		st.tags["wrong"] = "yes"
	}
	delete(st.tags, "pending")
}

type flowRun struct {
	e  *Engine
	xs []Exit
}

func (p *Program) flow(r *Report, fn *ssa.Function, cfg *srcCfg, faults bool, prep func(e *Engine, st *State), args ...AV) flowRun {
	e, xs := invokeFn(p, r, fn, func(e *Engine, st *State) {
		e.streams = &streamCfg{src: cfg, faults: faults}
		if cfg.n < 0 {
			e.maxParts = 5
		}
		for i := 0; i < 6; i++ {
			for j := 0; j < i; j++ {
				st.facts[pairKey(fmt.Sprintf("$rK%d", i), fmt.Sprintf("$rK%d", j))] = Fact{Z: 2}
			}
		}
		if prep != nil {
			prep(e, st)
		}
	}, args...)
	return flowRun{e, xs}
}

// failedWell: a failure somewhere comes back as an error other than the end of data.
func failedWell(x Exit, i int) (bool, string) {
	if x.st.isZero(x.res[i]) != F {
		return false, "the failure at " + x.st.tags["fault"] + " is not reported: " + clip(x.res[i].Key())
	}
	for _, a := range x.res[i].atoms {
		if x.st.eqAtom(a, eofAV().single()) != F {
			return false, "the failure at " + x.st.tags["fault"] + " may be taken for the end of data: " + clip(a.Key())
		}
	}
	return true, ""
}

// complete: in unbounded mode, everything up to the end was passed on.
func complete(x Exit) (bool, string) {
	switch {
	case x.st.tags["lost"] != "":
		return false, "an entry is read and not passed on"
	case x.st.tags["wrong"] != "":
		return false, "something other than the entry just read is passed on"
	case x.st.tags["pending"] != "":
		return false, "the last entry is read and not passed on"
	case x.st.tags["end"] == "":
		return false, "success is reported before the end of the data"
	}
	return true, ""
}

func (f flowRun) sinkHas(st *State, name string, from, to int, p *Program) string {
	o := st.get("ENTSINK:" + name)
	n := int64(0)
	if o != nil {
		n, _ = intConst(o.F["#n"])
	}
	if int(n) != to-from {
		return fmt.Sprintf("%d entries are written, expected %d", n, to-from)
	}
	for k := from; k < to; k++ {
		got := o.F[fmt.Sprintf("#%d", k-from)]
		for _, fl := range []string{"Index", "Key", "Value"} {
			g, w := project(got, fl, anyTy), project(srcEntry(p, fmt.Sprint(k)), fl, anyTy)
			if !same(st, g, w) {
				return fmt.Sprintf("%s of entry %d is written as %s", fl, k, clip(g.Key()))
			}
		}
	}
	return ""
}

// holds: v is exactly the entries from..to-1, as a list or by key.
func (f flowRun) holds(st *State, v AV, object bool, from, to int) string {
	v = stripIface(v)
	if object {
		a := v.single()
		if a == nil || a.K != KMap || st.get(a.Obj) == nil {
			return "the result is " + clip(v.Key()) + ", not the entries by key"
		}
		o := st.get(a.Obj)
		n := 0
		for _, en := range o.Ents {
			if en.P != PAbsent {
				n++
			}
		}
		if o.Havoc || o.Rest != RNone || n != to-from {
			return fmt.Sprintf("the result holds %d entries (or unknown ones), expected %d", n, to-from)
		}
		for k := from; k < to; k++ {
			g, has := f.e.mapGet(st, o, sym(fmt.Sprintf("rK%d", k), strT), anyTy)
			if b, ok := boolConst(has); !ok || !b || !same(st, g, sym(fmt.Sprintf("rV%d", k), anyTy)) {
				return fmt.Sprintf("the key of entry %d holds %s", k, clip(g.Key()))
			}
		}
		return ""
	}
	s := f.e.asSeq(st, v)
	if s == nil || s.Open || st.isZero(v) == T {
		return "the result is " + clip(v.Key()) + ", not the list of entries"
	}
	if len(s.Args) != to-from {
		return fmt.Sprintf("the result has %d entries, expected %d", len(s.Args), to-from)
	}
	for i, g := range s.Args {
		if !s.Must[i] || !same(st, g, sym(fmt.Sprintf("rV%d", from+i), anyTy)) {
			return fmt.Sprintf("entry %d of the result is %s", from+i, clip(g.Key()))
		}
	}
	return ""
}

func checkFlow(p *Program) *Report {
	r := newReport("C32")
	r.Rule = "Abstract interpretation of every consumer of entry readers (Copy, ReadAll and its variants, the template function that reads the body, EachEntry, PagedReader, ConvertFile) over sources of 0 to 5 unknown entries and over a source of any number of entries: each must pass on exactly the entries in order (the page, where one is asked for), succeed exactly at the end of the data, and report any failure of the source or destination as an error that cannot be taken for the end of data."
	rd, wr := p.ifaceSym(dsioPkg, "EntryReader", rdAV), p.ifaceSym(dsioPkg, "EntryWriter", wrAV)
	var jobs []func(r *Report)
	job := func(f func(r *Report)) { jobs = append(jobs, f) }

	// Copy
	if fn := p.fn("dsio.Copy"); r.need(fn != nil, "dsio.Copy") {
		for n := 0; n <= 5; n++ {
			for _, flt := range []bool{false, true} {
				job(func(r *Report) {
					f := p.flow(r, fn, &srcCfg{n: n}, flt, nil, rd, wr)
					expect(r, f.e, f.xs, fmt.Sprintf("copy:%d,%v", n, flt), p.fpos(fn), func(x Exit) (bool, string) {
						if x.st.tags["fault"] != "" {
							return failedWell(x, 0)
						}
						if x.st.isZero(x.res[0]) != T {
							return false, "copying fails without a failure: " + clip(x.res[0].Key())
						}
						why := f.sinkHas(x.st, wrAV, 0, n, p)
						return why == "", why
					})
				})
			}
		}
		job(func(r *Report) {
			f := p.flow(r, fn, &srcCfg{n: -1}, true, nil, rd, wr)
			expect(r, f.e, f.xs, "copy:any", p.fpos(fn), func(x Exit) (bool, string) {
				if x.st.tags["fault"] != "" {
					return failedWell(x, 0)
				}
				if x.st.isZero(x.res[0]) != T {
					return false, "copying fails without a failure: " + clip(x.res[0].Key())
				}
				return complete(x)
			})
		})
	}

	// everything into memory
	type all struct {
		fn     *ssa.Function
		name   string
		object bool
		tlt    bool
	}
	var alls []all
	add := func(name string, fn *ssa.Function, object, tlt bool) {
		if r.need(fn != nil, name) {
			alls = append(alls, all{fn, name, object, tlt})
		}
	}
	add("dsio.ReadAllArray", p.fn("dsio.ReadAllArray"), false, false)
	add("dsio.ReadAllObject", p.fn("dsio.ReadAllObject"), true, false)
	add("dsio.ReadAll", p.fn("dsio.ReadAll"), false, true)
	add("dsio.ReadAll", p.fn("dsio.ReadAll"), true, true)
	if fn := p.fn("dsviz.readEntries"); fn != nil {
		add("dsviz.readEntries", fn, false, true)
		add("dsviz.readEntries", fn, true, true)
	}
	structOf := func(st *State, tlt string) AV {
		t := p.typ(dsPkg, "Structure")
		sp := symNN("rst", types.NewPointer(t))
		o := st.symObj(sp.single(), t)
		sch := newMap(st, "SCH:top", anyMap, cStr("type"), iface(strT, cStr(tlt)))
		st.mut("SCH:top").Rest = RTop
		st.write(o.ID, ".Schema", anyMap, sch, false)
		return sp
	}
	for _, a := range alls {
		tlt := "array"
		if a.object {
			tlt = "object"
		}
		for n := -1; n <= 5; n++ {
			for _, flt := range []bool{false, true} {
				job(func(r *Report) {
					cfg := &srcCfg{n: n, collect: true}
					f := p.flow(r, a.fn, cfg, flt, func(e *Engine, st *State) {
						cfg.structs = map[string]AV{rdAV: structOf(st, tlt)}
					}, rd)
					expect(r, f.e, f.xs, fmt.Sprintf("%s:%s:%d,%v", a.name, tlt, n, flt), p.fpos(a.fn), func(x Exit) (bool, string) {
						if x.st.tags["fault"] != "" {
							return failedWell(x, 1)
						}
						if x.st.isZero(x.res[1]) != T {
							return false, "reading fails without a failure: " + clip(x.res[1].Key())
						}
						if n < 0 {
							return complete(x)
						}
						why := f.holds(x.st, x.res[0], a.object, 0, n)
						return why == "", why
					})
				})
			}
		}
	}
	// a structure without a proper top level type cannot be read
	for _, a := range alls {
		if !a.tlt || a.object {
			continue
		}
		other := otherString("OTHER:tlt", []string{"array", "object"})
		for name, mkSch := range map[string]func(st *State) AV{
			"no schema": func(st *State) AV { return vNil() },
			"no type":   func(st *State) AV { return newMap(st, "SCH:top", anyMap) },
			"other":     func(st *State) AV { return newMap(st, "SCH:top", anyMap, cStr("type"), iface(strT, other)) },
			"number":    func(st *State) AV { return newMap(st, "SCH:top", anyMap, cStr("type"), iface(f64T, sym("x", f64T))) },
		} {
			job(func(r *Report) {
				cfg := &srcCfg{n: 2}
				f := p.flow(r, a.fn, cfg, false, func(e *Engine, st *State) {
					sp := structOf(st, "array")
					st.write("rst*", ".Schema", anyMap, mkSch(st), false)
					cfg.structs = map[string]AV{rdAV: sp}
				}, rd)
				expect(r, f.e, f.xs, a.name+":schema:"+name, p.fpos(a.fn), func(x Exit) (bool, string) {
					return x.st.isZero(x.res[1]) == F, "entries are read although the schema has " + name
				})
			})
		}
	}

	p.pagedJobs(r, job, rd)
	p.eachJobs(r, job, rd)
	p.convertJobs(r, job)
	r.run(jobs)
	r.atLeast(len(jobs), 150, "scenarios")
	return r
}

// pagedJobs: a page is the entries offset..offset+limit-1.
func (p *Program) pagedJobs(r *Report, job func(func(r *Report)), rd AV) {
	t := p.typ(dsioPkg, "PagedReader")
	read, cls, str := p.method(dsioPkg, "PagedReader", "ReadEntry"), p.method(dsioPkg, "PagedReader", "Close"), p.method(dsioPkg, "PagedReader", "Structure")
	if !r.need(t != nil && read != nil && cls != nil && str != nil, "dsio.PagedReader") {
		return
	}
	pt := types.NewPointer(t)
	mk := func(e *Engine, st *State, off, lim AV) AV {
		st.heap["PAGED"] = &Obj{ID: "PAGED", T: t, F: map[string]AV{}}
		st.write("PAGED", ".Reader", p.typ(dsioPkg, "EntryReader"), rd, false)
		st.write("PAGED", ".Offset", intT, off, false)
		st.write("PAGED", ".Limit", intT, lim, false)
		return ptr("PAGED", "", t)
	}
	_ = pt
	for off := 0; off <= 3; off++ {
		for lim := 0; lim <= 4; lim++ {
			for n := 0; n <= 6; n++ {
				for _, flt := range []bool{false, true} {
					if flt && n > 3 {
						continue
					}
					job(func(r *Report) {
						id := fmt.Sprintf("page:%d+%d of %d,%v", off, lim, n, flt)
						e := newEngine(p)
						e.streams = &streamCfg{src: &srcCfg{n: n}, faults: flt}
						st := baseState(p)
						recv := mk(e, st, cInt(int64(off)), cInt(int64(lim)))
						type path struct {
							st *State
							k  int
						}
						paths := []path{{st, off}}
						end := n
						if off+lim < n {
							end = off + lim
						}
						why := ""
						for step := 0; step <= lim+1 && why == ""; step++ {
							var next []path
							for _, pa := range paths {
								s := pa.st.clone()
								s.env = map[ssa.Value]AV{}
								xs := normalExits(e.run(read, []AV{recv}, nil, s, fmt.Sprintf("r%d", step)))
								if len(xs) == 0 {
									why = "ReadEntry never returns"
								}
								for _, x := range xs {
									if x.st.tags["fault"] != "" {
										if ok, w := failedWell(x, 1); !ok {
											why = w
										}
										continue
									}
									if pa.k >= end {
										if !same(x.st, x.res[1], eofAV()) {
											why = fmt.Sprintf("after the page, error %s is returned, expected the end of data", clip(x.res[1].Key()))
										}
										next = append(next, path{x.st, pa.k})
										continue
									}
									if x.st.isZero(x.res[1]) != T {
										why = fmt.Sprintf("entry %d of the page is not delivered: %s", pa.k-off, clip(x.res[1].Key()))
									} else if w := entrySame(p, x.st, x.res[0], pa.k); w != "" {
										why = fmt.Sprintf("entry %d of the page is wrong: %s", pa.k-off, w)
									}
									next = append(next, path{x.st, pa.k + 1})
								}
							}
							paths = next
						}
						if why == "" && len(e.undecided) > 0 {
							why = "undecided: " + e.undecided[0]
						}
						r.engine(e)
						r.check(why == "", id, p.fpos(read), "%s", why)
					})
				}
			}
		}
	}
	job(func(r *Report) {
		e := newEngine(p)
		e.streams = &streamCfg{src: &srcCfg{n: 2}, faults: true}
		st := baseState(p)
		recv := mk(e, st, sym("off", intT), sym("lim", intT))
		xs := normalExits(e.run(cls, []AV{recv}, nil, st, "c"))
		expect(r, e, xs, "page:close", p.fpos(cls), func(x Exit) (bool, string) {
			if x.st.tags["fault"] != "" {
				return x.st.isZero(x.res[0]) == F, "a failure to close is not reported"
			}
			return x.st.isZero(x.res[0]) == T, "closing fails"
		})
		failures := 0
		for _, x := range xs {
			if x.st.tags["fault"] != "" {
				failures++
			}
		}
		r.check(failures > 0, "page:closes", p.fpos(cls), "closing a page does not close the reader")
		st = baseState(p)
		recv = mk(e, st, sym("off", intT), sym("lim", intT))
		xs = normalExits(e.run(str, []AV{recv}, nil, st, "s"))
		expect(r, e, xs, "page:structure", p.fpos(str), func(x Exit) (bool, string) {
			a := x.res[0].single()
			return a != nil && a.K == KSym && a.Name == rdAV+".structure", "the structure is " + clip(x.res[0].Key())
		})
	})
}

func entrySame(p *Program, st *State, got AV, k int) string {
	for _, fl := range []string{"Index", "Key", "Value"} {
		g, w := project(got, fl, anyTy), project(srcEntry(p, fmt.Sprint(k)), fl, anyTy)
		if !same(st, g, w) {
			return fmt.Sprintf("its %s is %s", fl, clip(g.Key()))
		}
	}
	return ""
}

// eachJobs: the callback sees every entry once, in order, and can stop.
func (p *Program) eachJobs(r *Report, job func(func(r *Report)), rd AV) {
	fn := p.fn("dsio.EachEntry")
	if !r.need(fn != nil, "dsio.EachEntry") {
		return
	}
	cb := symNN("callback", fn.Signature.Params().At(1).Type())
	hook := func(n int) func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, args []AV) ([]Outcome, bool) {
		return func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, args []AV) ([]Outcome, bool) {
			if !strings.HasPrefix(name, "dynamic:$callback") || len(args) != 3 {
				return nil, false
			}
			if st.tags["stopped"] != "" {
				st.tags["wrong"] = "called again after it stopped"
			}
			if n < 0 {
				if st.tags["pending"] != "yes" || !sameAV(project(args[1], "Value", anyTy), sym("rV", anyTy)) || !sameAV(project(args[1], "Key", strT), sym("rK", strT)) || !sameAV(project(args[1], "Index", intT), sym("rI", intT)) {
					st.tags["wrong"] = "yes"
				}
				delete(st.tags, "pending")
			} else {
				o := st.mut("CALLS")
				k, _ := intConst(o.F["#n"])
				o.F["#n"] = cInt(k + 1)
				if i, ok := intConst(args[0]); !ok || i != k {
					st.tags["wrong"] = fmt.Sprintf("entry %d is handed over with number %s", k, clip(args[0].Key()))
				}
				if w := entrySame(e.p, st, args[1], int(k)); w != "" {
					st.tags["wrong"] = fmt.Sprintf("entry %d is handed over, but %s", k, w)
				}
			}
			if st.isZero(args[2]) != T {
				st.tags["wrong"] = "an entry is handed over with an error"
			}
			good, eof, bad := st, st.clone(), st.clone()
			eof.tags["stopped"] = "eof"
			bad.tags["stopped"] = "error"
			nm, _ := bad.fresh("fault@callback")
			return []Outcome{{st: eof, res: []AV{eofAV()}}, {st: bad, res: []AV{symNN(nm, errT())}}, {st: good, res: []AV{vNil()}}}, true
		}
	}
	for n := -1; n <= 4; n++ {
		for _, flt := range []bool{false, true} {
			job(func(r *Report) {
				f := p.flow(r, fn, &srcCfg{n: n}, flt, func(e *Engine, st *State) {
					e.extHook = hook(n)
					st.heap["CALLS"] = &Obj{ID: "CALLS", T: strT, F: map[string]AV{"#n": cInt(0)}}
				}, rd, cb)
				expect(r, f.e, f.xs, fmt.Sprintf("each:%d,%v", n, flt), p.fpos(fn), func(x Exit) (bool, string) {
					if w := x.st.tags["wrong"]; w != "" {
						return false, "the callback gets something else than the entries in order: " + w
					}
					switch x.st.tags["stopped"] {
					case "eof":
						return x.st.isZero(x.res[0]) == T, "stopping with the end of data is reported as an error"
					case "error":
						return x.st.isZero(x.res[0]) == F, "an error of the callback is not reported"
					}
					if x.st.tags["fault"] != "" {
						return failedWell(x, 0)
					}
					if x.st.isZero(x.res[0]) != T {
						return false, "it fails without a failure: " + clip(x.res[0].Key())
					}
					if n < 0 {
						return complete(x)
					}
					k, _ := intConst(x.st.get("CALLS").F["#n"])
					return int(k) == n, fmt.Sprintf("the callback is called %d times for %d entries", k, n)
				})
			})
		}
	}
}

// convertJobs: ConvertFile copies the page from a reader of the input to a
// writer of the output format and returns the finished document.
func (p *Program) convertJobs(r *Report, job func(func(r *Report))) {
	fn := p.fn("dsio.ConvertFile")
	if !r.need(fn != nil, "dsio.ConvertFile") {
		return
	}
	stT := p.typ(dsPkg, "Structure")
	ptT := types.NewPointer(stT)
	file := symNN("file", fn.Signature.Params().At(0).Type())
	in, out := symNN("in", ptT), symNN("out", ptT)
	isRW := func(f *ssa.Function, typ string) bool {
		s := f.Signature
		if s.Recv() != nil || s.Results().Len() != 2 || s.Params().Len() < 2 || f.Pkg == nil || f.Pkg.Pkg.Path() != dsioPkg {
			return false
		}
		it, ok := p.typ(dsioPkg, typ).Underlying().(*types.Interface)
		return ok && types.Implements(s.Results().At(0).Type(), it) && types.Identical(s.Params().At(0).Type(), ptT)
	}
	run := func(r *Report, id, format string, pretty bool, n int, flt bool, limit, offset int64, all bool) {
		f := p.flow(r, fn, &srcCfg{n: n}, flt, func(e *Engine, st *State) {
			for _, s := range []AV{in, out} {
				o := st.symObj(s.single(), stT)
				st.write(o.ID, ".Format", strT, cStr("csv"), false)
				st.write(o.ID, ".FormatConfig", anyMap, vNil(), false)
			}
			st.write("out*", ".Format", strT, cStr(format), false)
			if pretty {
				st.write("out*", ".FormatConfig", anyMap, newMap(st, "CFG", anyMap, cStr("pretty"), iface(boolTy, cBool(true))), false)
			}
			isW := func(f *ssa.Function) bool {
				s := f.Signature
				it, ok := p.typ(dsioPkg, "EntryWriter").Underlying().(*types.Interface)
				return ok && s.Recv() != nil && types.Implements(s.Recv().Type(), it)
			}
			e.inlineHook = func(f *ssa.Function) bool {
				return !isRW(f, "EntryReader") && !isRW(f, "EntryWriter") && !isW(f)
			}
			e.extHook = func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, args []AV) ([]Outcome, bool) {
				if len(args) > 0 && strings.HasPrefix(srcName(args[0]), "writer") {
					switch {
					case strings.HasSuffix(name, ").WriteEntry"):
						return rWriteEntry(e, nil, st, c, site, args)
					case strings.HasSuffix(name, ").Close"):
						return rCloseWriter(e, nil, st, c, site, args)
					}
				}
				g := c.StaticCallee()
				if g == nil {
					return nil, false
				}
				kind := ""
				switch {
				case isRW(g, "EntryWriter"):
					kind = "writer"
				case isRW(g, "EntryReader"):
					kind = "reader"
				default:
					return nil, false
				}
				var outs []Outcome
				if flt && st.tags["fault"] == "" {
					bad, err := e.fault(nil, st, site)
					outs = append(outs, Outcome{st: bad, res: []AV{vNil(), err}})
				}
				nm, _ := st.fresh(kind)
				if kind == "writer" {
					if a := args[0].single(); a == nil || a.Name != "out" {
						st.tags["wrong"] = "the writer is not made for the output structure"
					}
					if _, _, ok := e.sinkObj(st, args[1]); !ok {
						st.tags["wrong"] = "the writer writes to " + clip(args[1].Key())
					}
					st.heap["WRITER:"+nm] = &Obj{ID: "WRITER:" + nm, T: strT, F: map[string]AV{"#w": args[1], "#fn": cStr(g.Name())}}
				} else {
					if a := args[0].single(); a == nil || a.Name != "in" {
						st.tags["wrong"] = "the reader is not made for the input structure"
					}
					if a := stripIface(args[1]).single(); a == nil || a.Name != "file" {
						st.tags["wrong"] = "the reader reads " + clip(args[1].Key())
					}
				}
				v := symNN(nm, c.Signature().Results().At(0).Type())
				return append(outs, Outcome{st: st, res: []AV{v, vNil()}}), true
			}
		}, file, in, out, cInt(limit), cInt(offset), cBool(all))
		from, to := int(offset), int(offset+limit)
		if all {
			from, to = 0, n
		}
		if from > n {
			from = n
		}
		if to > n {
			to = n
		}
		expect(r, f.e, f.xs, id, p.fpos(fn), func(x Exit) (bool, string) {
			if x.st.tags["fault"] != "" {
				return x.st.isZero(x.res[1]) == F, "the failure at " + x.st.tags["fault"] + " is not reported"
			}
			if w := x.st.tags["wrong"]; w != "" {
				return false, w
			}
			if x.st.isZero(x.res[1]) != T {
				return false, "converting fails without a failure: " + clip(x.res[1].Key())
			}
			// the writer the entries went to
			used := ""
			for id := range x.st.heap {
				if strings.HasPrefix(id, "ENTSINK:") {
					if used != "" {
						return false, "entries go to more than one writer"
					}
					used = strings.TrimPrefix(id, "ENTSINK:")
				}
			}
			got := f.e.bytesVal(x.st, x.res[0])
			a := got.single()
			if a == nil || a.K != KApp || a.Name != "document" {
				return false, "the result is " + clip(got.Key()) + ", not one finished document"
			}
			w, _ := strConst(a.Args[0])
			if used != "" && used != w {
				return false, "the result is not the document of the writer the entries went to"
			}
			if pretty {
				if n, _ := strConst(x.st.get("WRITER:" + w).F["#fn"]); n == "NewEntryWriter" || n == "NewJSONWriter" {
					return false, "a pretty document is not written by the pretty writer"
				}
			}
			if from == to && used == "" {
				return true, ""
			}
			why := f.sinkHas(x.st, used, from, to, p)
			return why == "", why
		})
	}
	for n := 0; n <= 4; n++ {
		for _, flt := range []bool{false, true} {
			for _, format := range []string{"csv", "json", "ndjson", "cbor", "xlsx"} {
				job(func(r *Report) {
					run(r, fmt.Sprintf("convert:%s:all of %d,%v", format, n, flt), format, false, n, flt, 1, 1, true)
				})
			}
			job(func(r *Report) {
				run(r, fmt.Sprintf("convert:pretty:all of %d,%v", n, flt), "json", true, n, flt, 1, 1, true)
			})
			for _, pg := range [][2]int64{{0, 0}, {1, 0}, {2, 1}, {9, 2}, {2, 5}} {
				job(func(r *Report) {
					run(r, fmt.Sprintf("convert:json:%d+%d of %d,%v", pg[1], pg[0], n, flt), "json", false, n, flt, pg[0], pg[1], false)
				})
			}
		}
	}
}
