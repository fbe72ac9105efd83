package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C15: inspecting a document keeps its data ---------------------------------------------------
//
// Readers are terms: tee(r,w), limit(r,n), multi(r...), mem(name,r). Whoever is given a
// reader may read any amount of it; what is read of a file is remembered as read
// directly or through a tee. A file of the document is whole when what it delivers is
// the original content from its first byte.

type keeper struct {
	p     *Program
	files map[string]bool   // symbols of the document's files
	name  map[string]string // their names
	size  map[string]int    // length of the content, where it matters
	fmt   string            // format and codec of guesses
	codec string
	funcs int
	cfg   bool // whether a configuration is detected
}

func rdAtom(v AV) *Atom {
	a := stripIface(v).single()
	if a != nil && a.K == KApp && strings.HasPrefix(a.Name, "rd.") {
		return a
	}
	return nil
}

func a0(a []AV) AV {
	if len(a) == 0 {
		return AV{}
	}
	return a[0]
}

func (k *keeper) fileOf(v AV) string {
	if a := stripIface(v).single(); a != nil && a.K == KSym && k.files[a.Name] {
		return a.Name
	}
	return ""
}

// holds: v is or may contain a reader of the document.
func (k *keeper) holds(v AV) bool {
	if v.top {
		return false
	}
	for _, a := range v.atoms {
		if a.K == KSym && k.files[a.Name] || a.K == KApp && strings.HasPrefix(a.Name, "rd.") {
			return true
		}
		if a.K == KIface && k.holds(a.Args[0]) {
			return true
		}
	}
	return false
}

func bufID(v AV) string {
	if a := stripIface(v).single(); a != nil && a.K == KPtr {
		return a.Obj + a.Path
	}
	return "?"
}

// consume: any amount of v is read.
func (k *keeper) consume(st *State, v AV, via string) {
	if v.top {
		return
	}
	for _, a := range v.atoms {
		switch {
		case a.K == KIface:
			k.consume(st, a.Args[0], via)
		case a.K == KSym && k.files[a.Name]:
			t := "read:" + a.Name
			if cur := st.tags[t]; cur == "" {
				st.tags[t] = via
			} else if cur != via {
				st.tags[t] = "several"
			}
		case a.K == KPtr:
			st.tags["read:"+a.Obj+a.Path] = "direct"
		case a.K == KApp && a.Name == "rd.tee":
			w := "several"
			if via == "direct" {
				w = bufID(a.Args[1])
			}
			if st.tags["snap:"+w] != "" {
				st.tags["late:"+w] = "1"
			}
			k.consume(st, a.Args[0], w)
		case a.K == KApp && a.Name == "rd.mem":
			k.consume(st, a.Args[1], via)
		case a.K == KApp && a.Name == "rd.limit":
			k.consume(st, a.Args[0], via)
		case a.K == KApp && strings.HasPrefix(a.Name, "rd."):
			for _, x := range a.Args {
				k.consume(st, x, via)
			}
		}
	}
}

// whole: v delivers the content of the file from its first byte.
func (k *keeper) whole(st *State, v AV, file string) string {
	v = st.norm(v)
	if !v.top && len(v.atoms) > 1 {
		for _, a := range v.atoms {
			if why := k.whole(st, mk(a), file); why != "" {
				return why
			}
		}
		return ""
	}
	read := st.tags["read:"+file]
	if k.fileOf(v) == file {
		if read != "" {
			return "the file was read from and is not restored"
		}
		return ""
	}
	a := rdAtom(v)
	if a == nil {
		if x := stripIface(v).single(); x != nil && x.K == KApp && x.Name == "memfile" {
			if c := x.Args[1].single(); c != nil && c.K == KApp && c.Name == "readall" && k.fileOf(k.bottom(c.Args[0])) == file {
				return ""
			}
		}
		return "the file becomes " + clip(v.Key())
	}
	switch a.Name {
	case "rd.mem":
		if n := a.Args[0].single(); n == nil || !(n.K == KConst || n.K == KApp && strings.HasPrefix(n.Name, "file.")) {
			return "the file is named " + clip(a.Args[0].Key())
		} else if s, ok := strConst(a.Args[0]); ok && s != k.name[file] {
			return fmt.Sprintf("the file %q is renamed to %q", k.name[file], s)
		} else if n.K == KApp && k.fileOf(n.Args[0]) != file {
			return "the file gets the name of another"
		}
		if len(a.Args) == 3 {
			if !k.sizeOf(a.Args[2], file) {
				return "the size of the file becomes " + clip(a.Args[2].Key())
			}
		}
		return k.whole(st, a.Args[1], file)
	case "rd.wrap":
		return k.whole(st, a.Args[0], file)
	case "rd.multi":
		var parts []AV
		var flat func(v AV)
		flat = func(v AV) {
			if m := rdAtom(v); m != nil && (m.Name == "rd.multi" || m.Name == "rd.wrap") {
				for _, x := range m.Args {
					flat(x)
				}
				return
			}
			parts = append(parts, v)
		}
		flat(v)
		if len(parts) != 2 || k.fileOf(parts[1]) != file {
			break
		}
		b := bufID(parts[0])
		if m := rdAtom(parts[0]); m != nil && m.Name == "rd.snap" {
			b = k.snap(m.Args[0])
			if st.tags["late:"+b] != "" {
				return "the file is read after its buffer was looked at"
			}
		} else if c := st.tags["copy:"+b]; c != "" {
			if b = c; st.tags["late:"+b] != "" {
				return "the file is read after its buffer was looked at"
			}
		}
		if b == "?" {
			break
		}
		if st.tags["read:"+b] != "" {
			return "the buffer of what was read is itself read"
		}
		if read != "" && read != b {
			return "what was read of the file is not in the buffer that is put before it"
		}
		return ""
	}
	return "the file delivers " + clip(v.Key())
}

type namedInt struct {
	name string
	n    int64
}

func formatConsts(p *Program) (out []namedInt) {
	sc := p.typ(dsPkg, "DataFormat").(*types.Named).Obj().Pkg().Scope()
	for _, s := range sc.Names() {
		if c, isC := sc.Lookup(s).(*types.Const); isC && strings.HasSuffix(s, "DataFormat") && typeKey(c.Type()) == "dataset.DataFormat" {
			m, _ := constant.Int64Val(c.Val())
			if s = strings.ToLower(strings.TrimSuffix(s, "DataFormat")); s == "unknown" {
				s = ""
			}
			out = append(out, namedInt{s, m})
		}
	}
	return
}

// formatName: the name of a constant of type DataFormat.
func (k *keeper) formatName(v AV) AV {
	n, ok := intConst(v)
	if isZeroValue(v) {
		n, ok = 0, true
	}
	for _, f := range formatConsts(k.p) {
		if ok && f.n == int64(n) {
			return cStr(f.name)
		}
	}
	return app("formatName", v)
}

// sizeOf: v is the size of the file, converted or not.
func (k *keeper) sizeOf(v AV, file string) bool {
	if v.top || len(v.atoms) == 0 {
		return false
	}
	for _, a := range v.atoms {
		if n, ok := intConst(mk(a)); ok && n == -1 {
			continue
		}
		if a.K == KApp && strings.HasPrefix(a.Name, "conv") && len(a.Args) == 1 && k.sizeOf(a.Args[0], file) {
			continue
		}
		if a.K != KApp || a.Name != "file.Size" || k.fileOf(a.Args[0]) != file {
			return false
		}
	}
	return true
}

// snap: the buffer whose contents v is.
func (k *keeper) snap(v AV) string {
	if a := v.single(); a != nil && a.K == KApp {
		switch {
		case a.Name == "snap":
			return bufID(a.Args[0])
		case len(a.Args) == 1:
			return k.snap(a.Args[0])
		}
	}
	return ""
}

// bottom: what a chain of complete readers reads.
func (k *keeper) bottom(v AV) AV {
	for {
		a := rdAtom(v)
		if a == nil {
			return v
		}
		switch a.Name {
		case "rd.tee", "rd.wrap":
			v = a.Args[0]
		case "rd.mem":
			v = a.Args[1]
		default:
			return v
		}
	}
}

func readerType(t types.Type) bool {
	m, _, _ := types.LookupFieldOrMethod(t, true, nil, "Read")
	_, ok := m.(*types.Func)
	return ok
}

// opaque functions read from a reader they are given, and give none back.
func (k *keeper) opaque(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Results().Len() == 0 || s.Recv() != nil {
		return false
	}
	for i := 0; i < s.Results().Len(); i++ {
		if readerType(s.Results().At(i).Type()) {
			return false
		}
	}
	rd := false
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		if typeKey(t) == "*bytes.Buffer" {
			return false
		}
		if _, isI := t.Underlying().(*types.Interface); isI && readerType(t) {
			rd = true
		}
		if e, ok := ptrElem(t); ok && e == k.p.typ(dsPkg, "Dataset") {
			return false
		}
	}
	return rd
}

func (k *keeper) hook(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
	rd := func(op string, args ...AV) ([]Outcome, bool) {
		return ret(st, mk(&Atom{K: KApp, Name: "rd." + op, Args: args, T: resultTypes(c)[0], NonNil: true}))
	}
	switch name {
	case "io.TeeReader":
		st.tags["tee:"+bufID(a[1])] = "1"
		return rd("tee", a[0], a[1])
	case "bytes.NewBuffer", "bytes.NewBufferString":
		if st.isZero(a[0]) == T || k.snap(a[0]) != "" {
			t, _ := ptrElem(resultTypes(c)[0])
			id, _ := st.fresh("BUF@" + itoa(int(site.Pos())))
			st.heap[id] = &Obj{ID: id, T: t, F: map[string]AV{}}
			if b := k.snap(a[0]); b != "" {
				st.tags["copy:"+id] = b
			}
			return ret(st, mk(&Atom{K: KPtr, Obj: id, T: resultTypes(c)[0], NonNil: true}))
		}
	case "bytes.NewReader", "strings.NewReader":
		if b := k.snap(a[0]); b != "" {
			return rd("snap", a[0])
		}
	case "io.LimitReader":
		return rd("limit", a[0], a[1])
	case "io.NopCloser", "io/ioutil.NopCloser", "bufio.NewReader":
		if name != "bufio.NewReader" {
			return rd("wrap", a[0])
		}
	case "io.MultiReader":
		items, ok := e.variadic(st, a[0])
		if !ok {
			e.fail("a chain of an unknown number of readers")
			return rd("multi")
		}
		return rd("multi", items...)
	case "github.com/qri-io/qfs.NewMemfileReader", "github.com/qri-io/qfs.NewMemfileReaderSize":
		return rd("mem", a...)
	}
	if strings.HasSuffix(name, "/template.Template).Funcs") && len(a) == 2 {
		if m := a[1].single(); m != nil && m.K == KMap {
			st.tags["funcs"] = m.Obj
		}
		return ret(st, a[0])
	}
	if strings.HasSuffix(name, "/template.Template).Execute") {
		return k.execute(e, st)
	}
	if x := rdAtom(a0(a)); x != nil && x.Name == "rd.unpack" && strings.HasSuffix(name, ".Close") {
		return ret(st, vNil())
	}
	meth := ""
	if strings.HasPrefix(name, "invoke:") && len(a) > 0 {
		meth = name[strings.LastIndex(name, ".")+1:]
		f := k.fileOf(a[0])
		switch meth {
		case "FileName":
			if f != "" {
				return ret(st, cStr(k.name[f]))
			}
			if x := rdAtom(a[0]); x != nil && x.Name == "rd.mem" {
				return ret(st, x.Args[0])
			}
		case "FullPath", "MediaType", "ModTime", "IsDirectory", "Size":
			if f != "" || rdAtom(a[0]) != nil {
				return ret(st, app("file."+meth, a[0]))
			}
		}
	}
	any := false
	for _, v := range a {
		any = any || k.holds(v)
	}
	if !any {
		return nil, false
	}
	if name == "io.ReadAll" || name == "io/ioutil.ReadAll" {
		return k.readAll(e, st, c, site, a[0])
	}
	for i, v := range a {
		k.consume(st, v, "direct")
		// what is decoded into
		if i < len(c.Args) {
			if el, ok := ptrElem(c.Args[i].Type()); ok && el != k.p.typ(dsPkg, "Structure") {
				e.havocReach(st, v, map[string]bool{})
			}
		}
	}
	st.tags["called"] = name
	if strings.HasSuffix(name, "dsio.ConvertFile") && len(a) == 6 {
		st.heap["CONVERT"] = &Obj{ID: "CONVERT", T: strT, F: map[string]AV{}}
		for i := 1; i < 6; i++ {
			st.heap["CONVERT"].F[itoa(i)] = a[i]
		}
		st.heap["CONVERT"].F["0"] = stripIface(a[0])
		for j, f := range []string{"Format", "Schema", "FormatConfig"} {
			v, _, _ := readPath(st, a[2], c.Args[2].Type(), []string{f})
			st.heap["CONVERT"].F["out"+itoa(j)] = v
		}
	}
	bad := st.clone()
	var ok, fail []AV
	hasErr := false
	for i, t := range resultTypes(c) {
		if typeKey(t) == "error" {
			hasErr = true
			n, _ := bad.fresh("failed@" + name)
			ok, fail = append(ok, vNil()), append(fail, symNN(n, t))
			continue
		}
		n, _ := st.fresh(fmt.Sprintf("res%d@%s", i, name))
		v := sym(n, t)
		if el, isP := ptrElem(t); isP {
			v = symNN(n, t)
			if el == k.p.typ(dsPkg, "Structure") {
				o := st.symObj(v.single(), el)
				fm, cd := cStr(k.fmt), cStr(k.codec)
				for i, x := range a {
					if i >= len(c.Args) {
						break
					}
					switch typeKey(c.Args[i].Type()) {
					case "dataset.DataFormat":
						fm = k.formatName(x)
					case "compression.Format":
						cd = st.norm(x)
					}
				}
				st.write(o.ID, ".Format", strT, fm, false)
				st.write(o.ID, ".Compression", strT, cd, false)
				st.assumeZero(n+"*.FormatConfig", !k.cfg)
				st.assumeZero(n+"*.Schema", false)
				st.tags["guess"] = n
			}
		}
		ok = append(ok, v)
		m, _ := bad.fresh(fmt.Sprintf("bad%d@%s", i, name))
		fail = append(fail, sym(m, t))
	}
	outs := []Outcome{{st: st, res: ok}}
	if hasErr {
		bad.tags["fault"] = name
		outs = append(outs, Outcome{st: bad, res: fail})
	}
	return outs, true
}

// readAll: all of a reader, or of as much as a limit allows.
func (k *keeper) readAll(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, v AV) ([]Outcome, bool) {
	k.consume(st, v, "direct")
	bad := st.clone()
	bad.tags["fault"] = "reading"
	n, _ := bad.fresh("readErr")
	part, _ := bad.fresh("readPart")
	bt := types.NewSlice(types.Typ[types.Byte])
	res := mk(&Atom{K: KApp, Name: "readall", Args: []AV{stripIface(v)}, T: bt})
	if a := rdAtom(v); a != nil && a.Name == "rd.limit" {
		lim, ok := intConst(a.Args[1])
		size, ok2 := k.size[k.fileOf(k.bottom(a.Args[0]))]
		if !ok || !ok2 {
			e.fail("a limit that is not a number: " + clip(a.Args[1].Key()))
		}
		res = cStr(strings.Repeat("x", min(int(lim), size)))
	} else if size, ok := k.size[k.fileOf(k.bottom(v))]; ok {
		res = cStr(strings.Repeat("x", size))
	}
	return []Outcome{
		{st: st, res: []AV{res, vNil()}},
		{st: bad, res: []AV{sym(part, bt), symNN(n, errT())}},
	}, true
}

const keepBody, keepReadme, keepViz = "doc*.bodyFile", "doc*.Readme*.scriptFile", "doc*.Viz*.scriptFile"

func newKeeper(p *Program) *keeper {
	return &keeper{p: p, files: map[string]bool{keepBody: true, keepReadme: true, keepViz: true},
		name: map[string]string{keepBody: "body.csv", keepReadme: "readme.md", keepViz: "viz.html"}, size: map[string]int{}, fmt: "csv"}
}

func (k *keeper) run(r *Report, fn *ssa.Function, prep func(st *State), args ...AV) (*Engine, []Exit) {
	e := newEngine(k.p)
	e.inlineHook = func(f *ssa.Function) bool { return !k.opaque(f) }
	e.extHook = k.hook
	e.preHook = func(e *Engine, st *State, c *ssa.CallCommon, site ssa.Instruction, name string, a []AV) ([]Outcome, bool) {
		switch name {
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
			if b := bufID(a[0]); st.tags["tee:"+b] != "" {
				st.tags["snap:"+b] = "1"
				return ret(st, mk(&Atom{K: KApp, Name: "snap", Args: []AV{a[0]}, T: resultTypes(c)[0]}))
			}
		}
		if name == "compression.Decompressor" && len(a) == 2 && k.holds(a[1]) {
			// reads the header of what it unpacks
			k.consume(st, a[1], "direct")
			bad := st.clone()
			bad.tags["fault"] = name
			n, _ := bad.fresh("failed@" + name)
			t := resultTypes(c)
			return []Outcome{
				{st: st, res: []AV{mk(&Atom{K: KApp, Name: "rd.unpack", Args: []AV{a[1]}, T: t[0], NonNil: true}), vNil()}},
				{st: bad, res: []AV{vNil(), symNN(n, t[1])}},
			}, true
		}
		return nil, false
	}
	st := baseState(k.p)
	st.assumeZero("doc", false)
	if prep != nil {
		prep(st)
	}
	xs := normalExits(e.run(fn, args, nil, st, "m"))
	r.engine(e)
	return e, xs
}

// kept: the files and all fields of a document but the named ones are what they were.
func (k *keeper) kept(st *State, tn, root string, except ...string) string {
	t := k.p.typ(dsPkg, tn)
	skip := map[string]bool{}
	for _, x := range except {
		skip[x] = true
	}
	for _, f := range fieldsOf(t) {
		if skip[f.name] {
			continue
		}
		name := root + "*." + f.name
		got, _, _ := readPath(st, symNN(root, types.NewPointer(t)), types.NewPointer(t), []string{f.name})
		if k.files[name] {
			if st.isZero(sym(name, f.t)) == T {
				if st.isZero(got) != T {
					return "a file appears in " + name
				}
				continue
			}
			if why := k.whole(st, got, name); why != "" {
				return strings.TrimPrefix(name, "doc*.") + ": " + why
			}
			continue
		}
		if !same(st, got, sym(name, f.t)) {
			return fmt.Sprintf("%s is changed to %s", strings.TrimPrefix(name, "doc*."), clip(got.Key()))
		}
	}
	return ""
}

func checkKeep(p *Program) *Report {
	r := newReport("C15")
	r.Rule = "Abstract interpretation of structure detection, preview creation and rendering, in which readers are terms and everyone who is given one may read any amount of it and fail: at every exit, failing ones included, each file of the document must deliver its original content from the first byte, set fields must be unchanged, and what is filled in must be what was detected."
	var jobs []func(r *Report)
	dsT := types.NewPointer(p.typ(dsPkg, "Dataset"))
	doc := symNN("doc", dsT)

	if fn := p.fn("detect.Structure"); r.need(fn != nil, "detect.Structure") {
		k := newKeeper(p)
		jobs = append(jobs, func(r *Report) {
			e, xs := k.run(r, fn, nil, vNil())
			expect(r, e, xs, "detect:none", p.fpos(fn), func(x Exit) (bool, string) {
				return x.st.isZero(x.res[0]) == F, "no document is no error"
			})
		})
		if fr := p.fn("detect.FromReader"); r.need(fr != nil, "detect.FromReader") && fr.Signature.Params().Len() == 3 {
			fT, cT := fr.Signature.Params().At(0).Type(), fr.Signature.Params().At(1).Type()
			for _, f := range formatConsts(p) {
				for _, cd := range []string{"", "gzip", "zst"} {
					jobs = append(jobs, func(r *Report) {
						k := newKeeper(p)
						e, xs := k.run(r, fr, nil, mk(&Atom{K: KConst, C: constant.MakeInt64(f.n), T: fT}), mk(&Atom{K: KConst, C: constant.MakeString(cd), T: cT}), symNN(keepBody, fr.Signature.Params().At(2).Type()))
						expect(r, e, xs, "reader:"+f.name+","+cd, p.fpos(fr), func(x Exit) (bool, string) {
							st := x.st
							if failed := st.tags["fault"] != ""; failed || st.isZero(x.res[2]) != T {
								return failed && st.isZero(x.res[2]) == F, "the error is " + clip(x.res[2].Key())
							}
							for _, w := range []struct {
								f string
								v AV
							}{{"Format", cStr(f.name)}, {"Compression", cStr(cd)}} {
								if v, _, _ := readPath(st, x.res[0], fr.Signature.Results().At(0).Type(), []string{w.f}); !same(st, v, w.v) && !(st.isZero(v) == T && st.isZero(w.v) == T) {
									return false, "the structure's " + w.f + " is " + clip(v.Key())
								}
							}
							v, _, _ := readPath(st, x.res[0], fr.Signature.Results().At(0).Type(), []string{"Schema"})
							if a := v.single(); a == nil || a.K != KSym || !strings.HasPrefix(a.Name, "res0@") {
								return false, "the schema is " + clip(v.Key())
							}
							return true, ""
						})
					})
				}
			}
		}
		for _, ext := range []struct{ name, fmt, codec string }{{"body.csv", "csv", ""}, {"body.json", "json", ""}, {"body.xlsx", "xlsx", ""}, {"body.cbor", "cbor", ""}, {"body.ndjson", "ndjson", ""}, {"body.csv.gz", "csv", "gzip"}, {"body.txt", "", ""}, {"body", "", ""}} {
			for mask := 0; mask < 32; mask++ {
				for _, format := range []string{"", "csv", "json", "xlsx"} {
					hasSt, schema, config, codec, body := mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0, mask&16 != 0
					if !hasSt && (schema || config || codec || format != "") {
						continue
					}
					jobs = append(jobs, func(r *Report) {
						k.detectJob(r, fn, doc, ext.name, ext.fmt, ext.codec, format, hasSt, schema, config, codec, body, true)
						k.detectJob(r, fn, doc, ext.name, ext.fmt, ext.codec, format, hasSt, schema, config, codec, body, false)
					})
				}
			}
		}
	}
	k0 := newKeeper(p)
	k0.previewJobs(r, &jobs, doc)
	k0.renderJobs(r, &jobs, doc)
	r.run(jobs)
	r.atLeast(len(jobs), 400, "scenarios")
	return r
}

func (k0 *keeper) detectJob(r *Report, fn *ssa.Function, doc AV, name, fm, cd, format string, hasSt, schema, config, codec, body, cfg bool) {
	p := k0.p
	k := newKeeper(p)
	k.name[keepBody], k.fmt, k.codec, k.cfg = name, fm, cd, cfg
	stT := p.typ(dsPkg, "Structure")
	id := fmt.Sprintf("detect:%s:structure=%v,format=%s,schema=%v,config=%v,codec=%v,body=%v,found=%v", name, hasSt, format, schema, config, codec, body, cfg)
	e, xs := k.run(r, fn, func(st *State) {
		st.assumeZero("doc*.Structure", !hasSt)
		st.assumeZero(keepBody, !body)
		if hasSt {
			o := st.symObj(symNN("doc*.Structure", types.NewPointer(stT)).single(), stT)
			st.write(o.ID, ".Format", strT, cStr(format), false)
			st.assumeZero("doc*.Structure*.Schema", !schema)
			st.assumeZero("doc*.Structure*.FormatConfig", !config)
			st.assumeZero("doc*.Structure*.Compression", !codec)
		}
	}, doc)
	needs := !hasSt || format == "" || !schema || !config && (format == "csv" || format == "xlsx")
	expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
		st := x.st
		if why := k.kept(st, "Dataset", "doc", "Structure"); why != "" {
			return false, why
		}
		got, _, _ := readPath(st, doc, types.NewPointer(p.typ(dsPkg, "Dataset")), []string{"Structure"})
		failed := st.tags["fault"] != "" || needs && (!body || fm == "")
		if failed != (st.isZero(x.res[0]) == F) || !failed && st.isZero(x.res[0]) != T {
			return false, "the error is " + clip(x.res[0].Key())
		}
		if failed && !hasSt {
			if st.isZero(got) != T {
				return false, "a structure appears although detection failed"
			}
			return true, ""
		}
		if st.isZero(got) != F {
			return false, "there is no structure"
		}
		guess := st.tags["guess"]
		if needs && !failed && guess == "" && st.tags["called"] == "" {
			return false, "the body is not looked at"
		}
		for _, f := range fieldsOf(stT) {
			v, _, _ := readPath(st, got, types.NewPointer(stT), []string{f.name})
			old := sym("doc*.Structure*."+f.name, f.t)
			set := hasSt && !map[string]bool{"Format": format == "", "Schema": !schema, "FormatConfig": !config, "Compression": !codec}[f.name]
			if f.name == "Format" && hasSt {
				old = cStr(format)
			}
			if set || failed || !needs {
				if hasSt && !same(st, v, old) && !(st.isZero(old) == T && st.isZero(v) == T) {
					return false, fmt.Sprintf("the structure's %s is changed to %s", f.name, clip(v.Key()))
				}
				continue
			}
			wants := []AV{}
			if guess != "" {
				wants = append(wants, sym(guess+"*."+f.name, f.t))
			}
			switch f.name {
			case "Format":
				wants = []AV{cStr(fm)}
			case "Compression":
				wants = []AV{cStr(cd)}
			case "FormatConfig":
				if hasSt && format != "" && format != fm {
					// the configuration of another format
					wants = []AV{vNil()}
				}
			}
			hit := false
			for _, w := range wants {
				hit = hit || same(st, v, w) || st.isZero(v) == T && st.isZero(w) == T
			}
			if guess == "" && (f.name == "Schema" || f.name == "FormatConfig") {
				hit = !v.top // detected by other means: its own properties decide
			} else if guess == "" && !hit {
				hit = st.isZero(v) == T
			}
			if !hit {
				return false, fmt.Sprintf("the structure's %s becomes %s, expected what was detected", f.name, clip(v.Key()))
			}
		}
		return true, ""
	})
}

// execute: a template may call any of its functions, and fail.
func (k *keeper) execute(e *Engine, st *State) ([]Outcome, bool) {
	bad := st.clone()
	bad.tags["fault"] = "rendering"
	outs := []Outcome{{st: st, res: []AV{vNil()}}, {st: bad, res: []AV{symNN("renderErr", errT())}}}
	o := st.get(st.tags["funcs"])
	if o == nil {
		e.fail("the functions of the template are unknown")
		return outs, true
	}
	k.funcs = 0
	for _, en := range o.Ents {
		f := stripIface(en.Val).single()
		if en.P == PAbsent || f == nil || f.K != KFunc || f.Fn == nil || !k.p.inRepo(f.Fn) {
			continue
		}
		k.funcs++
		var args []AV
		for _, q := range f.Fn.Params {
			args = append(args, sym("arg:"+q.Name(), q.Type()))
		}
		n := st.clone()
		n.env = map[ssa.Value]AV{}
		for _, x := range normalExits(e.run(f.Fn, args, f.Args, n, "tmpl:"+f.Fn.Name())) {
			y := x.st.clone()
			delete(y.tags, "fault")
			y.env = st.env
			y.defers = st.defers
			outs = append(outs, Outcome{st: y, res: []AV{vNil()}})
		}
	}
	return outs, true
}

func (k0 *keeper) previewJobs(r *Report, jobs *[]func(r *Report), doc AV) {
	p := k0.p
	fn := p.fn("preview.Create")
	if !r.need(fn != nil, "preview.Create") {
		return
	}
	dsT := doc.single().T
	ctx := sym("ctx", fn.Signature.Params().At(0).Type())
	*jobs = append(*jobs, func(r *Report) {
		e, xs := newKeeper(p).run(r, fn, nil, ctx, vNil())
		expect(r, e, xs, "preview:none", p.fpos(fn), func(x Exit) (bool, string) {
			return x.st.isZero(x.res[1]) == F, "no document is no error"
		})
	})
	for _, size := range []int{-2, -1, 0, 5, 996, 997, 998, 5000} { // -2: no readme, -1: no file
		for mask := 0; mask < 4; mask++ {
			hasSt, body := mask&1 != 0, mask&2 != 0
			*jobs = append(*jobs, func(r *Report) {
				k := newKeeper(p)
				k.size[keepReadme] = size
				id := fmt.Sprintf("preview:readme=%d,structure=%v,body=%v", size, hasSt, body)
				e, xs := k.run(r, fn, func(st *State) {
					st.assumeZero("doc*.Commit", false)
					st.assumeZero("doc*.Structure", !hasSt)
					st.assumeZero("doc*.Readme", size == -2)
					st.assumeZero(keepBody, !body)
					if size > -2 {
						st.assumeZero(keepReadme, size == -1)
					}
				}, ctx, doc)
				expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
					st := x.st
					if why := k.kept(st, "Dataset", "doc", "Body"); why != "" {
						return false, why
					}
					if size > -2 {
						if why := k.kept(st, "Readme", "doc*.Readme", "Text"); why != "" {
							return false, why
						}
					}
					if hasSt {
						if why := k.kept(st, "Structure", "doc*.Structure"); why != "" {
							return false, why
						}
					}
					if failed := st.tags["fault"] != "" || body && !hasSt; failed || st.isZero(x.res[1]) != T {
						return failed && st.isZero(x.res[1]) == F, "the error is " + clip(x.res[1].Key())
					}
					get := func(path ...string) AV {
						v, _, _ := readPath(st, x.res[0], dsT, path)
						return v
					}
					if size >= 0 {
						want := strings.Repeat("x", min(size, 997))
						if size >= 997 {
							want += "..."
						}
						if t := get("Readme", "Text"); !same(st, t, cStr(want)) {
							s, _ := strConst(t)
							return false, fmt.Sprintf("of a readme of %d bytes the preview has %d: %s", size, len(s), clip(t.Key()))
						}
					} else if size == -1 && !same(st, get("Readme", "Text"), sym("doc*.Readme*.Text", strT)) {
						return false, "the text of the readme is changed without a file"
					}
					for _, f := range fieldsOf(p.typ(dsPkg, "Dataset")) {
						if f.name == "Body" || f.name == "bodyFile" || f.name == "Readme" {
							continue
						}
						if !same(st, get(f.name), sym("doc*."+f.name, f.t)) {
							return false, "the preview's " + f.name + " is " + clip(get(f.name).Key())
						}
					}
					b := get("Body")
					if !body {
						return same(st, b, sym("doc*.Body", anyTy)), "the preview has a body although there is none: " + clip(b.Key())
					}
					cv := st.get("CONVERT")
					if cv == nil {
						return false, "the body is not converted"
					}
					if k.fileOf(k.bottom(cv.F["0"])) != keepBody {
						return false, "what is converted is " + clip(cv.F["0"].Key())
					}
					for _, w := range []struct {
						what, key string
						want      AV
					}{
						{"the structure the body is read with", "1", symNN("doc*.Structure", cv.F["1"].single().T)},
						{"the format of the preview's body", "out0", cStr("json")},
						{"the schema of the preview's body", "out1", sym("doc*.Structure*.Schema", anyMap)},
						{"the number of entries", "3", cInt(100)},
						{"the first entry", "4", cInt(0)},
						{"whether all entries are taken", "5", cBool(false)},
					} {
						if !same(st, cv.F[w.key], w.want) {
							return false, w.what + " is " + clip(cv.F[w.key].Key())
						}
					}
					a := b.single()
					if a == nil || a.K != KIface || typeKey(a.T) != "encoding/json.RawMessage" || a.Args[0].single() == nil || !strings.HasPrefix(a.Args[0].single().Name, "res0@") {
						return false, "the preview's body is " + clip(b.Key())
					}
					return true, ""
				})
			})
		}
	}
}

func (k0 *keeper) renderJobs(r *Report, jobs *[]func(r *Report), doc AV) {
	p := k0.p
	fn := p.fn("dsviz.Render")
	if !r.need(fn != nil, "dsviz.Render") {
		return
	}
	for mask := 0; mask < 32; mask++ {
		viz, html, script, hasSt, body := mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0, mask&16 != 0
		if !viz && (html || script) {
			continue
		}
		*jobs = append(*jobs, func(r *Report) {
			k := newKeeper(p)
			id := fmt.Sprintf("render:viz=%v,html=%v,script=%v,structure=%v,body=%v", viz, html, script, hasSt, body)
			e, xs := k.run(r, fn, func(st *State) {
				st.assumeZero("doc*.Viz", !viz)
				st.assumeZero("doc*.Structure", !hasSt)
				st.assumeZero(keepBody, !body)
				if viz {
					t := p.typ(dsPkg, "Viz")
					o := st.symObj(symNN("doc*.Viz", types.NewPointer(t)).single(), t)
					f := otherString("OTHER:html", []string{"html"})
					if html {
						f = cStr("html")
					}
					st.write(o.ID, ".Format", strT, f, false)
					st.assumeZero(keepViz, !script)
				}
			}, doc)
			expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
				st := x.st
				if why := k.kept(st, "Dataset", "doc"); why != "" {
					return false, why
				}
				if viz {
					if why := k.kept(st, "Viz", "doc*.Viz", "Format"); why != "" {
						return false, why
					}
				}
				if hasSt {
					if why := k.kept(st, "Structure", "doc*.Structure"); why != "" {
						return false, why
					}
				}
				failed := st.tags["fault"] != "" || !viz || !html || !script
				if failed && st.isZero(x.res[1]) != F {
					return false, "the failure of " + st.tags["fault"] + " is not reported"
				}
				if st.isZero(x.res[1]) == T && st.isZero(x.res[0]) != F {
					return false, "nothing is rendered and there is no error"
				}
				return true, ""
			})
			if viz && html && script {
				r.check(k.funcs >= 4, id+":functions", p.fpos(fn), "only %d functions of the template are found", k.funcs)
			}
		})
	}
}
