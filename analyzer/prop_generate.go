package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C38: generated values are of the type that is asked for --------------------------------------

// A random number generator that picks the part `at` (0 to 1) of every range,
// with `odd` added; how often it was asked is counted in the tag "asked".
type rngRun struct {
	at  []float64 // of each pick, the last one repeated
	odd bool
	pin int // when >= 0, the first pick
}

func (g *rngRun) pick(st *State, n int64) int64 {
	k := len(st.tags["asked"])
	st.tags["asked"] += "."
	if k == 0 && g.pin >= 0 {
		if int64(g.pin) < n {
			return int64(g.pin)
		}
		return n - 1
	}
	at := g.at[min(k, len(g.at)-1)]
	v := int64(at * float64(n-1))
	if at >= 1 || v > n-1 || v < 0 {
		v = n - 1
	}
	if g.odd {
		v |= 1
	}
	if v >= n {
		v = n - 1
	}
	return v
}

func (g *rngRun) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	m, isRand := strings.CutPrefix(name, "(*math/rand.Rand).")
	if !isRand {
		switch {
		case name == "math/rand.NewSource":
			n := "source:varies"
			if _, ok := intConst(a[0]); ok {
				n = "source:fixed"
			}
			return ret(st, symNN(n, resultTypes(c)[0]))
		case name == "math/rand.New":
			n := "rng:varies"
			if strings.Contains(a[0].Key(), "source:fixed") {
				n = "rng:fixed"
			}
			return ret(st, symNN(n, resultTypes(c)[0]))
		}
		return nil, false
	}
	st.tags["rng"] = a[0].Key()
	switch m {
	case "Intn", "Int31n", "Int63n":
		n, ok := intConst(a[1])
		if !ok {
			return nil, false
		}
		if n <= 0 {
			st.tags["wrong"] = fmt.Sprintf("%s(%d) panics", m, n)
			n = 1
		}
		return ret(st, cInt(g.pick(st, int64(n))))
	case "Int", "Int63":
		return ret(st, cInt(g.pick(st, math.MaxInt64)))
	case "Int31":
		return ret(st, cInt(g.pick(st, math.MaxInt32)))
	case "Uint32":
		return ret(st, cInt(g.pick(st, math.MaxUint32)))
	case "Float64", "Float32":
		return ret(st, mk(&Atom{K: KConst, C: constant.MakeFloat64(float64(g.pick(st, 1<<20)) / (1 << 20))}))
	case "NormFloat64", "ExpFloat64":
		g.pick(st, 2)
		return ret(st, symNN("norm", types.Typ[types.Float64]))
	}
	return nil, false
}

func rngRuns() []*rngRun {
	var l []*rngRun
	for _, at := range [][]float64{{0}, {1}, {.5}, {.25}, {.75}, {.1, .9, .3, .7}, {.9, .1, .6, .2, 1, 0, .4}, {1, 0}, {0, 1}, {.5, 1}, {.5, 0, 1, 0, .3}} {
		for _, odd := range []bool{false, true} {
			l = append(l, &rngRun{at: at, odd: odd, pin: -1})
		}
	}
	return l
}

// generatedAs: what kind of value was generated, "" when it is none that may be.
func generatedAs(e *Engine, st *State, v AV, maxLen int) (string, string) {
	v = st.norm(v)
	if st.isZero(v) == T && v.single() != nil && v.single().K != KIface {
		return "null", ""
	}
	x := v.single()
	if x == nil || x.K != KIface {
		return "", clip(v.Key())
	}
	u := x.Args[0]
	switch t := x.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.String:
			s, ok := constBytes(e, st, u)
			if !ok {
				return "", "a text that is not known: " + clip(u.Key())
			}
			if len(s) > maxLen {
				return "", fmt.Sprintf("a text of %d characters, at most %d are allowed", len(s), maxLen)
			}
			for _, r := range s {
				if !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
					return "", fmt.Sprintf("the text %q", s)
				}
			}
			return "string", s
		case t.Kind() == types.Int:
			if n, ok := intConst(u); !ok || n < 0 {
				return "", "the integer " + clip(u.Key())
			}
			return "integer", u.Key()
		case t.Kind() == types.Float64:
			return "number", u.Key()
		case t.Kind() == types.Bool:
			b, ok := boolConst(u)
			if !ok {
				return "", "a truth value that is not known: " + clip(u.Key())
			}
			return "boolean", fmt.Sprint(b)
		}
	case *types.Map:
		if st.isZero(u) == T {
			return "", "a nil object"
		}
		return "object", ""
	case *types.Slice:
		if st.isZero(u) == T {
			return "", "a nil array"
		}
		return "array", ""
	}
	return "", "a value of type " + typeKey(x.T)
}

func checkGenerate(p *Program) *Report {
	r := newReport("C38")
	r.Rule = "Abstract interpretation of value and row generation, with a random number generator that answers every range from its ends and its inside in 22 patterns: values have the type that is asked for, stay within the configured length, every kind, both truth values and every letter and digit can occur; rows have a value of the first type of each column and are counted, options take effect, schemas that are not tabular are errors."
	pkg := modPath + "/generate"
	vgT, tgT := p.typ(pkg, "ValueGenerator"), p.typ(pkg, "TabularGenerator")
	mk := p.fn("generate.NewTabularGenerator")
	if !r.need(vgT != nil && tgT != nil && mk != nil, "generators") {
		return r
	}
	typeM, readM, valueM := p.method(pkg, "ValueGenerator", "Type"), p.method(pkg, "TabularGenerator", "ReadEntry"), p.method(pkg, "ValueGenerator", "Value")
	if !r.need(typeM != nil && readM != nil && valueM != nil, "Type, Value and ReadEntry") {
		return r
	}
	prep := func(g *rngRun) func(e *Engine, st *State) {
		return func(e *Engine, st *State) {
			e.streams = &streamCfg{bytes: &byteCfg{follow: true, rounds: 80}}
			e.preHook, e.extHook, e.preInvoke = g.hook, g.hook, true
			e.apart = true
			st.maxFresh = 200
		}
	}
	seen := map[string]map[string]bool{}
	note := func(k, v string) {
		if seen[k] == nil {
			seen[k] = map[string]bool{}
		}
		seen[k][v] = true
	}
	vpt := types.NewPointer(vgT)
	rngT := vgT.Underlying().(*types.Struct)
	one := func(fn *ssa.Function, t string, maxLen int, g *rngRun, id string) {
		args := []AV{symNN("gen", vpt)}
		if t != "-" {
			args = append(args, cStr(t))
		}
		e, xs := invokeFn(p, r, fn, func(e *Engine, st *State) {
			prep(g)(e, st)
			o := st.symObj(args[0].single(), vgT)
			for i := 0; i < rngT.NumFields(); i++ {
				switch f := rngT.Field(i); f.Name() {
				case "Rand":
					st.write(o.ID, ".Rand", f.Type(), symNN("rng", f.Type()), false)
				case "MaxStringLength":
					st.write(o.ID, ".MaxStringLength", f.Type(), cInt(int64(maxLen)), false)
				}
			}
		}, args...)
		r.Counters["values generated"]++
		expect(r, e, xs, fmt.Sprintf("%s %s %d %s", fn.Name(), t, maxLen, id), p.fpos(fn), func(x Exit) (bool, string) {
			if w := x.st.tags["wrong"]; w != "" {
				return false, w
			}
			k, v := generatedAs(e, x.st, x.res[0], maxLen)
			if k == "" {
				return false, "what is generated is " + v
			}
			if want, known := map[string]string{"string": "string", "boolean": "boolean", "number": "number", "integer": "integer", "object": "object", "array": "array", "null": "null"}[t]; known && k != want {
				return false, "what is generated is of type " + k
			}
			note(t, k)
			note(t+"="+k, v)
			return true, ""
		})
	}
	for i, g := range rngRuns() {
		for _, t := range []string{"string", "boolean", "number", "integer", "object", "array", "null", "", "unknown"} {
			for _, n := range []int{0, 1, 2, 8, 64} {
				if n == 8 || t == "string" {
					one(typeM, t, n, g, "pattern "+itoa(i))
				}
			}
		}
	}
	for pin := 0; pin < 64; pin++ {
		one(typeM, "any", 8, &rngRun{at: []float64{.5}, pin: pin}, "first pick "+itoa(pin))
		one(valueM, "-", 8, &rngRun{at: []float64{1}, pin: pin}, "first pick "+itoa(pin))
		one(typeM, "string", 2, &rngRun{at: []float64{float64(pin) / 61}, pin: 1}, "letter "+itoa(pin))
	}
	for _, k := range []string{"string", "integer", "number", "boolean", "null"} {
		for _, t := range []string{"any", "-"} {
			r.check(seen[t][k], "occurs:"+t+":"+k, p.fpos(valueM), "a value of any type is never of type %s", k)
		}
	}
	for _, b := range []string{"true", "false"} {
		r.check(seen["boolean=boolean"][b], "occurs:boolean:"+b, p.fpos(typeM), "no generated truth value is %s", b)
	}
	var letters string
	for s := range seen["string=string"] {
		letters += s
	}
	n := 0
	for _, c := range "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" {
		if strings.ContainsRune(letters, c) {
			n++
		}
	}
	r.check(n == 62, "occurs:letters", p.fpos(typeM), "only %d letters and digits occur in generated texts", n)
	r.check(seen["string=string"][""], "occurs:empty", p.fpos(typeM), "no generated text is empty")

	// rows
	stT := p.typ(dsPkg, "Structure")
	type schema struct {
		name  string
		sch   interface{}
		types [][]string
	}
	col := func(t interface{}) map[string]interface{} {
		m := map[string]interface{}{"title": "t"}
		if t != nil {
			m["type"] = t
		}
		return m
	}
	table := func(cols ...interface{}) map[string]interface{} {
		return map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": cols}}
	}
	l := []interface{}{"integer", "null"}
	schemas := []schema{
		{"string", table(col("string")), [][]string{{"string"}}},
		{"every type", table(col("string"), col("integer"), col("number"), col("boolean"), col("null"), col("object"), col("array")), [][]string{{"string"}, {"integer"}, {"number"}, {"boolean"}, {"null"}, {"object"}, {"array"}}},
		{"several types", table(col(l), col("string")), [][]string{{"integer", "null"}, {"string"}}},
		{"no types", table(col([]interface{}{}), col(nil), map[string]interface{}{}), [][]string{{"string"}, {"string"}, {"string"}}},
		{"no columns", table(), [][]string{}},
		{"not a table", map[string]interface{}{"type": "object"}, nil},
		{"no items", map[string]interface{}{"type": "array"}, nil},
		{"columns missing", map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array"}}, nil},
		{"no schema", map[string]interface{}{}, nil},
	}
	optFns := map[string]*ssa.Function{}
	for _, n := range []string{"AssignSeed", "AssignMaxLen", "AssignUseRandomType"} {
		if optFns[n] = p.fn("generate." + n); !r.need(optFns[n] != nil, n) {
			return r
		}
	}
	structM, closeM := p.method(pkg, "TabularGenerator", "Structure"), p.method(pkg, "TabularGenerator", "Close")
	if !r.need(structM != nil && closeM != nil && stT != nil, "Structure and Close") {
		return r
	}
	rows := func(c schema, opts []string, g *rngRun, id string) {
		has := " " + strings.Join(opts, " ") + " "
		maxLen := 64
		if strings.Contains(has, " AssignMaxLen ") {
			maxLen = 8
		}
		free := strings.Contains(has, " AssignUseRandomType ")
		sp := symNN("st", types.NewPointer(stT))
		args := []AV{sp, Top}
		e, xs := invokeFn(p, r, mk, func(e *Engine, st *State) {
			prep(g)(e, st)
			o := st.symObj(sp.single(), stT)
			st.write(o.ID, ".Schema", anyMap, mapOf(st, c.sch.(map[string]interface{})), false)
			var fs []AV
			for _, n := range opts {
				fs = append(fs, AV{atoms: []*Atom{{K: KFunc, Fn: optFns[n], T: optFns[n].Signature}}})
			}
			args[1] = seqOf(mk.Signature.Params().At(1).Type(), fs...)
		}, args...)
		id = fmt.Sprintf("rows: %s, options%s, %s", c.name, has, id)
		r.Counters["generators"]++
		expect(r, e, xs, id, p.fpos(mk), func(x Exit) (bool, string) {
			if c.types == nil {
				return failedWell(x, 1)
			}
			if x.st.isZero(x.res[1]) != T || x.st.isZero(x.res[0]) != F {
				return false, "no generator is made: " + clip(x.res[1].Key())
			}
			gen := x.res[0]
			ends := []*State{x.st}
			for n := 0; n < 3; n++ {
				var next []*State
				for _, s := range ends {
					s = s.clone()
					s.tags["asked"] = ""
					ys := normalExits(e.run(readM, []AV{gen}, nil, s, "r"+itoa(n)))
					if len(e.undecided) > 0 || len(ys) == 0 || e.crashed() != "" {
						return false, "an entry is undecided or panics " + e.crashed()
					}
					for _, y := range ys {
						st := y.st
						if w := st.tags["wrong"]; w != "" {
							return false, w
						}
						if st.isZero(y.res[1]) != T {
							return false, "there is the error " + clip(y.res[1].Key())
						}
						if i, ok := intConst(st.norm(project(y.res[0], "Index", types.Typ[types.Int]))); !ok || i != int64(n) {
							return false, fmt.Sprintf("the index of entry %d is %s", n, clip(project(y.res[0], "Index", types.Typ[types.Int]).Key()))
						}
						if k := st.norm(project(y.res[0], "Key", strT)); st.isZero(k) != T {
							return false, "the key is " + clip(k.Key())
						}
						v := st.norm(project(y.res[0], "Value", anyTy)).single()
						if v == nil || v.K != KIface {
							return false, "the row is not known"
						}
						q := e.asSeq(st, st.norm(v.Args[0]))
						if q == nil || !closedSeq(q) || len(q.Args) != len(c.types) {
							return false, fmt.Sprintf("the row is %s, expected %d cells", clip(v.Key()), len(c.types))
						}
						for i, cell := range q.Args {
							k, txt := generatedAs(e, st, cell, maxLen)
							if k == "string" && len(txt) > maxLen/8 {
								note("long", itoa(maxLen))
							}
							switch {
							case k == "":
								return false, fmt.Sprintf("cell %d is %s", i, txt)
							case free:
								if c.name == "string" {
									note("free", k)
								}
							case !strings.Contains(" "+strings.Join(c.types[i], " ")+" ", " "+k+" "):
								return false, fmt.Sprintf("cell %d is of type %s, the column is of type %s", i, k, strings.Join(c.types[i], " or "))
							}
						}
						if rng := st.tags["rng"]; rng != "" && strings.Contains(rng, "rng:fixed") != strings.Contains(has, " AssignSeed ") {
							return false, "the random numbers are those of " + rng
						}
						next = append(next, st)
					}
				}
				ends = next
			}
			for _, s := range ends {
				val := gen
				if _, isP := ptrElem(structM.Signature.Recv().Type()); !isP {
					o, path, t := s.target(gen.single())
					if o == nil {
						return false, "the generator is not known"
					}
					val = s.read(o, path, t)
				}
				for _, y := range normalExits(e.run(structM, []AV{val}, nil, s.clone(), "s")) {
					if !sameAV(y.st.norm(y.res[0]), sp) {
						return false, "its structure is " + clip(y.res[0].Key())
					}
				}
				for _, y := range normalExits(e.run(closeM, []AV{val}, nil, s.clone(), "c")) {
					if y.st.isZero(y.res[0]) != T {
						return false, "closing it fails with " + clip(y.res[0].Key())
					}
				}
			}
			return true, ""
		})
	}
	sets := [][]string{nil, {"AssignSeed"}, {"AssignMaxLen"}, {"AssignUseRandomType"}, {"AssignSeed", "AssignMaxLen"}, {"AssignMaxLen", "AssignSeed"}, {"AssignSeed", "AssignMaxLen", "AssignUseRandomType"}}
	for i, g := range rngRuns() {
		for _, c := range schemas {
			for _, o := range sets {
				if i < 6 || c.name == "every type" {
					rows(c, o, g, "pattern "+itoa(i))
				}
			}
		}
	}
	for pin := 0; pin < 40; pin++ {
		rows(schemas[0], []string{"AssignUseRandomType"}, &rngRun{at: []float64{.5}, pin: pin}, "first pick "+itoa(pin))
	}
	for _, n := range []int{8, 64} {
		r.check(seen["long"][itoa(n)], "occurs:long:"+itoa(n), p.fpos(readM), "no text in a row has more than %d of at most %d characters", n/8, n)
	}
	for _, k := range []string{"string", "integer", "number", "boolean", "null"} {
		r.check(seen["free"][k], "occurs:random:"+k, p.fpos(readM), "with random types a cell is never of type %s", k)
	}
	return r
}
