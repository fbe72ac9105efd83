package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C24: no input makes the library panic ----------------------------------------------------

// deepest is what the limit on nesting is scaled down to.
const deepest = 3

// scaled finds the limits that counters in the readers are compared to.
func scaled(p *Program) func(x *ssa.Const) (AV, bool) {
	limits := map[*ssa.Const]bool{}
	for _, fn := range p.All {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != dsioPkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if !ok || x.Op != token.LSS && x.Op != token.LEQ && x.Op != token.GTR && x.Op != token.GEQ {
					continue
				}
				for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					c, isC := o[0].(*ssa.Const)
					if !isC || c.Value == nil || c.Value.Kind() != constant.Int {
						continue
					}
					counter := false
					switch y := o[1].(type) {
					case *ssa.UnOp:
						counter = y.Op == token.MUL
					case *ssa.Parameter, *ssa.Phi:
						counter = true
					case *ssa.BinOp:
						counter = y.Op == token.ADD || y.Op == token.SUB
					}
					if k, ok := constant.Int64Val(c.Value); ok && counter && k >= 64 && k < 1<<31 {
						limits[c] = true
					}
				}
			}
		}
	}
	return func(x *ssa.Const) (AV, bool) {
		if limits[x] {
			return cInt(deepest), true
		}
		return AV{}, false
	}
}

func checkCrash(p *Program) *Report {
	r := newReport("C24")
	r.Rule = "Every abstract execution of the other checks (readers over every next byte and every item, cut short or not, table rows of any width, schemas and options of every shape, cells and entries of every type, documents, diffs, statistics and detection) is inspected for instructions that panic on it: an index or slice beyond the bounds, a failed type assertion, a nil dereference, a write to a nil map, a negative length, an explicit panic. With the limit on nesting scaled down to three, deeper JSON and CBOR must be an error and values beside each other must not count as nested."
	fn := p.fn("dsio.NewEntryReader")
	if !r.need(fn != nil, "dsio.NewEntryReader") {
		return r
	}
	var jobs []func(r *Report)
	for _, f := range []string{"json", "cbor"} {
		for _, tlt := range []string{"array", "object"} {
			f, tlt := f, tlt
			jobs = append(jobs, func(r *Report) {
				s := &bScn{wScn: wScn{p: p, format: f, tlt: tlt}, follow: true}
				if why := s.openBytes(r); why != "" {
					r.bad("made:"+s.label(), p.fpos(fn), "%s", why)
					return
				}
				s.nested(r)
				r.engine(s.e)
			})
		}
	}
	r.run(jobs)
	if len(r.Violations) > 0 {
		return r // without a limit the rest has no end
	}
	jobs = nil
	for _, sub := range []struct {
		what string
		f    func(p *Program) *Report
		min  int
	}{
		{"bytes of a body", checkTruncation, 4}, {"JSON values", checkJSONValues, 4}, {"CBOR items", checkCborItems, 4},
		{"table rows", checkTableReaders, 50}, {"column types", checkColumns, 1}, {"schemas", checkRegistry, 50},
		{"cells", checkCells, 10}, {"keyed entries", checkKeys, 2}, {"framing", checkFraming, 2}, {"wrapped readers", checkWrappers, 2},
		{"values", checkVals, 20}, {"detection", checkDetect, 10}, {"options of a format", checkFormatConfig, 5},
		{"documents decoded", checkDecode, 5}, {"documents compared", checkCompare, 1}, {"metadata fields", checkMetaSet, 5},
		{"validation of documents", checkValidate, 5}, {"validation of bodies", checkBodyValidation, 5},
		{"statistics", checkStats, 5}, {"diffs", checkDiff, 5},
	} {
		sub := sub
		jobs = append(jobs, func(r *Report) {
			s := sub.f(p)
			r.Counters["executions"] += s.Runs
			for f := range s.Funcs {
				r.Funcs[f] = true
			}
			for c, n := range s.Crashes {
				pos, in := c, ""
				if i := strings.Index(c, " in "); i >= 0 {
					pos, in = c[:i], c[i:]
				}
				r.bad("crash:"+sub.what+in, pos, "this panics%s, on %d inputs of the check of %s (%s)", in, n, s.Prop, sub.what)
			}
			if len(s.Crashes) == 0 {
				r.ok("no crash: " + sub.what)
				r.Obligations += s.Runs - 1
				r.Discharged += s.Runs - 1
			}
			r.check(s.Runs >= sub.min, "coverage:"+sub.what, "", "only %d executions of the check of %s", s.Runs, s.Prop)
		})
	}
	for _, f := range []string{"json", "cbor"} {
		items := jsonItems()
		for _, hi := range []string{"d800", "dbff", "dc00", "dfff"} {
			for _, t := range []string{"", "\\", "\\n", "\\u", "\\u1", "\\u12", "\\u123", "\\u1234", "\\udc0", "\\udc00", "\\udc00z", "\\u\\u\\u", "\\\"\\\"\\\""} {
				items = append(items, cItem{name: "half of a pair", bytes: bytesOf("\"\\u" + hi + t + "\"")})
			}
		}
		if f == "cbor" {
			items = cborItems()
		}
		for _, tlt := range []string{"array", "object"} {
			f, tlt := f, tlt
			const parts = 3
			for k := 0; k < parts; k++ {
				jobs = append(jobs, func(r *Report) {
					s := &bScn{wScn: wScn{p: p, format: f, tlt: tlt}, follow: true}
					if why := s.openBytes(r); why != "" {
						r.bad("made:"+s.label(), p.fpos(fn), "%s", why)
						return
					}
					for i := k; i < len(items); i += parts {
						s.cut(r, items[i])
					}
					r.engine(s.e)
				})
			}
		}
	}
	jobs = append(jobs, func(r *Report) { kindTexts(p, r) })
	r.run(jobs)
	r.atLeast(r.Counters["executions"], 1000, "executions")
	r.atLeast(r.Counters["items cut short"], 5000, "items cut short")
	return r
}

// cut reads the item with its end missing, at every byte.
func (s *bScn) cut(r *Report, it cItem) {
	pre, _ := s.framed(0, it.bytes)
	for n := len(pre) - len(it.bytes); n <= len(pre); n++ {
		r.Counters["items cut short"]++
		s.e.crashes = nil
		id := fmt.Sprintf("%s cut:%s:%d", s.label(), it.name, n)
		xs, why := s.read(s.st0, bs(pre[:n]...), "eof")
		switch c := s.e.crashed(); {
		case c != "":
			r.bad(id, s.pos(), "%s: this panics at %s", bRun{bs(pre[:n]...), "eof"}.name(), c)
		case why != "":
			r.bad(id, s.pos(), "%s: %s", bRun{bs(pre[:n]...), "eof"}.name(), why)
		default:
			r.check(len(xs) > 0, id, s.pos(), "%s: there is no outcome", bRun{bs(pre[:n]...), "eof"}.name())
		}
	}
}

// nested reads values nested deeper than the limit, and many that are not.
func (s *bScn) nested(r *Report) {
	var opens, shut, flat [][]int // of containers
	if s.format == "json" {
		opens = [][]int{bytesOf("["), bytesOf(`{"a":`), bytesOf(`[0,`), bytesOf(`{"b":0,"a":`)}
		shut = [][]int{bytesOf("]"), bytesOf("}"), bytesOf("]"), bytesOf("}")}
		flat = [][]int{bytesOf("[[],[],[],[],[],[],[],[],[],[]]"), bytesOf("[{},{},{},{},{},{},{},{},{},{}]"), bytesOf("[0,0,0,0,0,0,0,0,0,0,0,0]")}
	} else {
		opens = [][]int{{0x81}, {0xa1, 0x61, 'a'}, {0x9f}, {0xbf, 0x61, 'a'}, {0xc6}, {0xd8, 0x20}, {0x82, 0x00}}
		shut = [][]int{nil, nil, {0xff}, {0xff}, nil, nil, nil}
		var l, m, t []int
		for i := 0; i < 10; i++ {
			l, m, t = append(l, 0x80), append(m, 0xa0), append(t, 0xc6, 0x00)
		}
		flat = [][]int{cat2([]int{0x8a}, l), cat2([]int{0x8a}, m), cat2([]int{0x8a}, t)}
	}
	s.e.constHook = scaled(s.p)
	s.e.maxDepth = 80
	defer func() { s.e.constHook = nil }()
	read := func(id string, item []int, deep bool) {
		r.Counters["nested items"]++
		pre, more := s.framed(0, item)
		s.e.crashes = nil
		xs, why := s.read(s.st0, bs(cat2(pre, more)...), "any")
		if c := s.e.crashed(); c != "" && why == "" {
			why = "this panics at " + c
		}
		for _, x := range xs {
			switch errClass(x.st, x.res[1]) {
			case "err":
				if !deep {
					why = "values beside each other are refused like nested ones"
				}
			default:
				if deep {
					why = "there is no limit on how deep values nest, the stack overflows"
				}
			}
		}
		r.check(why == "" && len(xs) > 0, s.label()+":"+id, s.pos(), "%s: %s", bRun{bs(item...), ""}.name(), why)
	}
	for i := range opens {
		for j := range opens {
			if s.format == "json" && i == 3 && j == 3 {
				continue // too long
			}
			var item, end []int
			for d := 0; d < 3*deepest; d++ {
				k := []int{i, j}[d%2]
				item, end = cat2(item, opens[k]), cat2(shut[k], end)
			}
			inner := []int{0x00}
			if s.format == "json" {
				inner = bytesOf("0")
			}
			read(fmt.Sprintf("nested:%d,%d", i, j), cat2(item, inner, end), true)
		}
	}
	for i, f := range flat {
		read(fmt.Sprintf("flat:%d", i), f, false)
	}
}

// kindTexts asks kinds of every length for their parts.
func kindTexts(p *Program, r *Report) {
	for _, m := range []string{"Type", "Version", "Valid", "String"} {
		fn := p.method(dsPkg, "Kind", m)
		if !r.need(fn != nil, "Kind."+m) {
			continue
		}
		for n := 0; n <= 8; n++ {
			e, xs := invokeFn(p, r, fn, nil, cStr("ds:0.123"[:n]))
			expect(r, e, xs, fmt.Sprintf("kind:%s of %d characters", m, n), p.fpos(fn), func(x Exit) (bool, string) {
				return !x.panic, "it panics"
			})
		}
	}
}
