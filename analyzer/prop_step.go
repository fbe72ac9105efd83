package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C36: step files hold every script as it is ---------------------------------------------------

type stepRun struct {
	p     *Program
	in    string // of the file that is read
	fails string // the operation that fails
	texts map[string]string
}

const stepSep = "\n---\n"

func (s *stepRun) wr(v AV) bool {
	a := stripIface(v).single()
	return a != nil && a.K == KSym && a.Name == "w"
}

// script: the reader a value is, its name.
func (s *stepRun) script(v AV) string {
	a := stripIface(v).single()
	if a != nil && a.K == KSym {
		if _, ok := s.texts[a.Name]; ok {
			return a.Name
		}
	}
	return ""
}

func (s *stepRun) put(st *State, text string) AV {
	if st.tags["fault"] != "" {
		st.tags["wrong"] = "more is written after a failure"
	}
	st.tags["writes"] += "."
	if s.fails == "write "+itoa(len(st.tags["writes"])) {
		st.tags["fault"] = "write"
		return symNN("fault@write", errT())
	}
	st.tags["out"] += text
	return vNil()
}

func (s *stepRun) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	wrote := func(text string, ok bool) ([]Outcome, bool) {
		if !ok {
			return nil, false
		}
		er := s.put(st, text)
		n := cInt(int64(len(text)))
		if st.isZero(er) != T {
			n = cInt(0)
		}
		return ret(st, n, er)
	}
	str := func(i int) string {
		x, _ := constBytes(e, st, a[i])
		return x
	}
	all := func() bool {
		for _, x := range a {
			if _, ok := constBytes(e, st, x); !ok {
				return false
			}
		}
		return true
	}
	list := func(l []string) ([]Outcome, bool) {
		t := resultTypes(c)[0]
		var out []AV
		for _, x := range l {
			if isStringy(t.Underlying().(*types.Slice).Elem()) && !isStringT(t.Underlying().(*types.Slice).Elem()) {
				out = append(out, peeked(str2bs(x), false))
			} else {
				out = append(out, cStr(x))
			}
		}
		return ret(st, seqOf(t, out...))
	}
	taken := func(r string) (string, AV) {
		if st.tags["closed:"+r] != "" {
			st.tags["wrong"] = "a script is read after it was closed"
		}
		if st.tags["read:"+r] != "" {
			return "", vNil()
		}
		st.tags["read:"+r] = "yes"
		if s.fails == "read "+r {
			st.tags["fault"] = "read"
			return s.texts[r][:1], symNN("fault@read", errT())
		}
		return s.texts[r], vNil()
	}
	switch name {
	case "io.WriteString":
		if s.wr(a[0]) {
			x, ok := constBytes(e, st, a[1])
			return wrote(x, ok)
		}
	case "fmt.Fprint":
		if l := e.asSeq(st, a[1]); s.wr(a[0]) && l != nil && closedSeq(l) {
			out, ok := "", true
			for _, x := range l.Args {
				y, is := constBytes(e, st, stripIface(x))
				if z := x.single(); z == nil || z.K != KIface || !isStringT(z.T) {
					is = false
				}
				out, ok = out+y, ok && is
			}
			return wrote(out, ok)
		}
	case "io.Copy":
		if r := s.script(a[1]); r != "" && s.wr(a[0]) {
			x, er := taken(r)
			fault := st.tags["fault"]
			if er.single().K == KSym {
				st.tags["fault"] = ""
			}
			if x != "" {
				if w := s.put(st, x); st.isZero(w) != T {
					return ret(st, cInt(0), w)
				}
			}
			st.tags["fault"] = fault
			return ret(st, cInt(int64(len(x))), er)
		}
	case "io.ReadAll", "io/ioutil.ReadAll":
		if r := s.script(a[0]); r != "" {
			x, er := taken(r)
			return ret(st, peeked(str2bs(x), false), er)
		}
	case "os.Open":
		if !sameAV(a[0], symNN("name", strT)) {
			return nil, false
		}
		if s.fails == "open" {
			st.tags["fault"] = "open"
			return ret(st, vNil(), symNN("fault@open", errT()))
		}
		st.tags["opened"] += "."
		return ret(st, symNN("file", resultTypes(c)[0]), vNil())
	case "os.ReadFile", "io/ioutil.ReadFile":
		if !sameAV(a[0], symNN("name", strT)) {
			return nil, false
		}
		if s.fails == "open" {
			st.tags["fault"] = "open"
			return ret(st, vNil(), symNN("fault@open", errT()))
		}
		x, er := taken("file")
		return ret(st, peeked(str2bs(x), false), er)
	case "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
		if x, ok := constBytes(e, st, a[0]); ok {
			n := "lit" + itoa(len(s.texts))
			s.texts[n] = x
			return ret(st, symNN(n, resultTypes(c)[0]))
		}
	case "fmt.Fprintf":
		if l := e.asSeq(st, a[2]); s.wr(a[0]) && l != nil && closedSeq(l) {
			f, _ := strConst(a[1])
			var xs []interface{}
			for _, x := range l.Args {
				y, ok := constBytes(e, st, stripIface(x))
				if !ok {
					return nil, false
				}
				xs = append(xs, y)
			}
			if strings.Count(f, "%") == strings.Count(f, "%s") {
				return wrote(fmt.Sprintf(f, xs...), true)
			}
		}
	case "strings.Split", "bytes.Split":
		if all() {
			return list(strings.Split(str(0), str(1)))
		}
	case "strings.SplitN", "bytes.SplitN":
		if n, ok := intConst(a[2]); ok {
			if _, ok := constBytes(e, st, a[0]); ok {
				return list(strings.SplitN(str(0), str(1), int(n)))
			}
		}
	case "strings.SplitAfter":
		if all() {
			return list(strings.SplitAfter(str(0), str(1)))
		}
	case "strings.Cut", "bytes.Cut":
		if all() {
			x, y, found := strings.Cut(str(0), str(1))
			if name == "strings.Cut" {
				return ret(st, cStr(x), cStr(y), cBool(found))
			}
			return ret(st, peeked(str2bs(x), false), peeked(str2bs(y), false), cBool(found))
		}
	case "strings.Index", "bytes.Index":
		if all() {
			return ret(st, cInt(int64(strings.Index(str(0), str(1)))))
		}
	case "strings.Count", "bytes.Count":
		if all() {
			return ret(st, cInt(int64(strings.Count(str(0), str(1)))))
		}
	}
	if len(a) > 0 {
		switch {
		case strings.HasSuffix(name, ".Write") && s.wr(a[0]) && len(a) == 2:
			x, ok := constBytes(e, st, a[1])
			return wrote(x, ok)
		case strings.HasSuffix(name, ".WriteString") && s.wr(a[0]) && len(a) == 2:
			x, ok := constBytes(e, st, a[1])
			return wrote(x, ok)
		case strings.HasSuffix(name, ".Close") && s.script(a[0]) != "":
			st.tags["closed:"+s.script(a[0])] += "."
			return ret(st, vNil())
		}
	}
	return nil, false
}

func checkStepFiles(p *Program) *Report {
	r := newReport("C36")
	r.Rule = "Abstract interpretation of step file reading and writing: every text of up to four parts out of a table of separators and near-separators must be split into exactly its scripts, every list of up to three scripts of every kind must be written as those scripts with a separator between them, byte for byte, with every write, read and opening failing in turn; failures are errors, nothing is written after one, and readers that can be closed are closed."
	stepT := p.typ(dsPkg, "TransformStep")
	rd, rf, wr := p.fn("stepfile.Read"), p.fn("stepfile.ReadFile"), p.fn("stepfile.Write")
	if !r.need(rd != nil && rf != nil && wr != nil && stepT != nil, "stepfile.Read, ReadFile and Write") {
		return r
	}
	var jobs []func(r *Report)
	// reading
	reading := func(fn *ssa.Function, in, fails string) {
		jobs = append(jobs, func(r *Report) {
			s := &stepRun{p: p, in: in, fails: fails, texts: map[string]string{"rd": in, "file": in}}
			arg := symNN("rd", fn.Signature.Params().At(0).Type())
			if fn == rf {
				arg = symNN("name", strT)
			}
			e, xs := invokeFn(p, r, fn, func(e *Engine, st *State) {
				e.streams = &streamCfg{bytes: &byteCfg{follow: true, rounds: 20}}
				e.preHook, e.extHook, e.preInvoke = s.hook, s.hook, true
				e.apart = true
				st.maxFresh = 60
			}, arg)
			r.Counters["texts read"]++
			expect(r, e, xs, fmt.Sprintf("%s %q fails %q", fn.Name(), in, fails), p.fpos(fn), func(x Exit) (bool, string) {
				if w := x.st.tags["wrong"]; w != "" {
					return false, w
				}
				if x.st.tags["opened"] != "" && x.st.tags["closed:file"] == "" {
					return false, "the file stays open"
				}
				if fails != "" {
					return failedWell(x, 1)
				}
				if x.st.isZero(x.res[1]) != T {
					return false, "there is the error " + clip(x.res[1].Key())
				}
				q := e.asSeq(x.st, x.st.norm(x.res[0]))
				want := strings.Split(in, stepSep)
				if q == nil || !closedSeq(q) || len(q.Args) != len(want) {
					return false, fmt.Sprintf("the steps are %s, expected %q", clip(x.res[0].Key()), want)
				}
				for i, w := range want {
					for _, f := range fieldsOf(stepT) {
						v, _, ok := readPath(x.st, q.Args[i], types.NewPointer(stepT), []string{f.name})
						switch {
						case !ok:
							return false, fmt.Sprintf("step %d is missing", i)
						case f.name != "Script":
							if x.st.isZero(v) != T {
								return false, fmt.Sprintf("%s of step %d is %s", f.name, i, clip(v.Key()))
							}
						default:
							y := v.single()
							if y == nil || y.K != KIface || !isStringT(y.T) {
								return false, fmt.Sprintf("step %d is %s, expected a string", i, clip(v.Key()))
							}
							if got, ok := constBytes(e, x.st, y.Args[0]); !ok || got != w {
								return false, fmt.Sprintf("step %d is %s, expected %q", i, clip(y.Args[0].Key()), w)
							}
						}
					}
				}
				return true, ""
			})
		})
	}
	parts := []string{"a", "\n---\n", "\n", "---", " ", "\r\n---\r\n", "\n----\n", "\t"}
	var texts []string
	var gen func(t string, n int)
	gen = func(t string, n int) {
		texts = append(texts, t)
		if n < 4 {
			for _, x := range parts {
				gen(t+x, n+1)
			}
		}
	}
	gen("", 0)
	for i, t := range texts {
		if len(t) < 12 || i%3 == 0 {
			reading(rd, t, "")
		}
		if i < 80 {
			reading(rf, t, "")
		}
	}
	for _, t := range []string{"a", "a\n---\nb"} {
		reading(rd, t, "read rd")
		reading(rf, t, "read file")
		reading(rf, t, "open")
	}

	// writing
	extT := func(pkg, name string) types.Type {
		if q := p.SSA.ImportedPackage(pkg); q != nil {
			if o := q.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
		return nil
	}
	bufT, fileT := extT("bytes", "Buffer"), extT("os", "File")
	if !r.need(bufT != nil && fileT != nil, "bytes.Buffer and os.File") {
		return r
	}
	bytesT := types.NewSlice(types.Typ[types.Byte])
	pt := types.NewPointer(stepT)
	writing := func(l []string, fails string) {
		jobs = append(jobs, func(r *Report) {
			s := &stepRun{p: p, fails: fails, texts: map[string]string{}}
			want, bad := "", ""
			for i, k := range l {
				if i > 0 {
					want += stepSep
				}
				switch k {
				case "other", "nil":
					if bad == "" {
						bad = k
					}
				case "reader", "file":
					s.texts["s"+itoa(i)] = k + itoa(i)
					fallthrough
				case "string", "bytes":
					want += k + itoa(i)
				case "tricky":
					want += "\n---\n \r\n%s\t\n"
				}
			}
			var args []AV
			for i := range l {
				args = append(args, symNN("step"+itoa(i), pt))
			}
			e, xs := invokeFn(p, r, wr, func(e *Engine, st *State) {
				e.streams = &streamCfg{bytes: &byteCfg{follow: true, rounds: 20}}
				e.preHook, e.extHook, e.preInvoke = s.hook, s.hook, true
				e.apart = true
				st.maxFresh = 60
				for i, k := range l {
					o := st.symObj(args[i].single(), stepT)
					v, n := vNil(), itoa(i)
					switch k {
					case "string":
						v = iface(strT, cStr(k+n))
					case "tricky":
						v = iface(strT, cStr("\n---\n \r\n%s\t\n"))
					case "bytes":
						v = iface(bytesT, peeked(str2bs(k+n), false))
					case "empty string":
						v = iface(strT, cStr(""))
					case "no bytes":
						v = iface(bytesT, peeked(str2bs(""), false))
					case "reader":
						v = iface(types.NewPointer(bufT), symNN("s"+n, types.NewPointer(bufT)))
					case "file":
						v = iface(types.NewPointer(fileT), symNN("s"+n, types.NewPointer(fileT)))
					case "other":
						v = iface(types.Typ[types.Int], cInt(2))
					}
					for _, f := range fieldsOf(stepT) {
						if f.name == "Script" {
							st.write(o.ID, "."+f.name, f.t, v, false)
						}
					}
				}
			}, seqOf(types.NewSlice(pt), args...), symNN("w", wr.Signature.Params().At(1).Type()))
			r.Counters["lists of steps written"]++
			expect(r, e, xs, fmt.Sprintf("write %q fails %q", l, fails), p.fpos(wr), func(x Exit) (bool, string) {
				st := x.st
				if w := st.tags["wrong"]; w != "" {
					return false, w
				}
				for i, k := range l {
					n := "s" + itoa(i)
					if k == "file" && st.tags["read:"+n] != "" && st.tags["closed:"+n] == "" {
						return false, "the script of step " + itoa(i) + " stays open"
					}
				}
				out := st.tags["out"]
				if !strings.HasPrefix(want, out) {
					return false, fmt.Sprintf("%q is written, expected %q", out, want)
				}
				if st.tags["fault"] != "" || bad != "" {
					return failedWell(x, 0)
				}
				if st.isZero(x.res[0]) != T {
					return false, "there is the error " + clip(x.res[0].Key())
				}
				if out != want {
					return false, fmt.Sprintf("%q is written, expected %q", out, want)
				}
				return true, ""
			})
		})
	}
	kinds := []string{"string", "bytes", "reader", "file", "empty string", "no bytes", "tricky", "other", "nil"}
	writing(nil, "")
	for _, a := range kinds {
		writing([]string{a}, "")
		for _, b := range kinds {
			writing([]string{a, b}, "")
			for _, c := range kinds {
				writing([]string{a, b, c}, "")
			}
		}
	}
	for _, a := range kinds[:4] {
		for _, b := range kinds[:4] {
			for i := 1; i <= 3; i++ {
				writing([]string{a, b}, "write "+itoa(i))
			}
			for i, k := range []string{a, b} {
				if k == "reader" || k == "file" {
					writing([]string{a, b}, "read s"+itoa(i))
				}
			}
		}
	}
	r.run(jobs)
	return r
}
