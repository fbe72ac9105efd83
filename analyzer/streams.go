package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- streams -------------------------------------------------------------------------
//
// When Engine.streams is set, byte sinks are tracked: what has been written to
// each of them is an abstract string, and (with faults on) every operation that
// can fail in the outside world also has a failing outcome, marked by the tag
// "fault" with the position of the operation.

type streamCfg struct {
	faults bool
	src    *srcCfg
	bytes  *byteCfg
}

const (
	kGzip  = "github.com/klauspost/compress/gzip"
	kZstd  = "github.com/klauspost/compress/zstd"
	kCodec = "github.com/ugorji/go/codec"
	kXlsx  = "github.com/360EntSecGroup-Skylar/excelize"
)

var streamModels map[string]Model

func init() {
	streamModels = map[string]Model{
		"invoke:io.Writer.Write":      sWrite,
		"invoke:io.WriteCloser.Write": sWrite,
		"invoke:io.WriteCloser.Close": sCloseAny,
		"invoke:io.Closer.Close":      sCloseAny,
		"io.WriteString":              sWrite,
		"fmt.Fprintf":                 sFprintf,
		"fmt.Fprint":                  sFprint,
		"fmt.Fprintln":                sFprint,
		"encoding/csv.NewWriter": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			v := e.newStream(fr, st, site, "CSVW", c.Signature().Results().At(0).Type(), a[0])
			o := st.mut(v.single().Obj)
			o.F[".Comma"] = cInt(',')
			o.F[".UseCRLF"] = cBool(false)
			return ret(st, v)
		},
		"(*encoding/csv.Writer).Write":    sCSVWrite,
		"(*encoding/csv.Writer).WriteAll": nil,
		"(*encoding/csv.Writer).Flush":    sCSVFlush,
		"(*encoding/csv.Writer).Error":    sCSVError,
		kGzip + ".NewWriter": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return ret(st, e.newStream(fr, st, site, "gzip", resultTypes(c)[0], a[0]))
		},
		kZstd + ".NewWriter": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			outs := []Outcome{}
			if e.faulty(st) {
				bad, err := e.fault(fr, st, site)
				outs = append(outs, Outcome{st: bad, res: []AV{vNil(), err}})
			}
			return append(outs, Outcome{st: st, res: []AV{e.newStream(fr, st, site, "zstd", resultTypes(c)[0], a[0]), vNil()}}), true
		},
		"(*" + kGzip + ".Writer).Write":  sWrite,
		"(*" + kGzip + ".Writer).Close":  sCompClose,
		"(*" + kGzip + ".Writer).Flush":  sCompFlush,
		"(*" + kZstd + ".Encoder).Write": sWrite,
		"(*" + kZstd + ".Encoder).Close": sCompClose,
		"(*" + kZstd + ".Encoder).Flush": sCompFlush,
		"bufio.NewWriter": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return ret(st, e.newStream(fr, st, site, "bufio", resultTypes(c)[0], a[0]))
		},
		"(*bufio.Writer).Write":       sWrite,
		"(*bufio.Writer).WriteString": sWrite,
		"(*bufio.Writer).Flush":       sBufioFlush,
		"encoding/json.MarshalIndent": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			outs, ok := mMarshal(e, fr, st, c, site, a[:1])
			if !ok {
				return nil, false
			}
			for i, o := range outs {
				if x := o.res[0].single(); x != nil && x.K == KApp && x.Name == "json" {
					n := *x
					n.Name = "jsonindent"
					n.key = ""
					outs[i].res = []AV{mk(&n), o.res[1]}
				}
			}
			return outs, true
		},
		"(*encoding/json.Encoder).Encode": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			x := a[0].single()
			if x == nil || x.K != KApp || x.Name != "jsonenc" {
				return nil, false
			}
			outs, ok := mMarshal(e, fr, st, c, site, []AV{a[1]})
			if !ok {
				return nil, false
			}
			var res []Outcome
			for _, o := range outs {
				if o.st.isZero(o.res[1]) != T {
					res = append(res, Outcome{st: o.st, res: []AV{o.res[1]}})
					continue
				}
				res = append(res, e.sinkOutcomes(fr, o.st, site, x.Args[0], cat(o.res[0], cStr("\n")), func(err AV) []AV { return []AV{err} })...)
			}
			return res, true
		},
		kCodec + ".NewEncoder": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return ret(st, appNN("codecenc", a[0], a[1]))
		},
		"(*" + kCodec + ".Encoder).Encode": sCodecEncode,
		kGzip + ".NewReader":               sDecomp("gunzip"),
		kZstd + ".NewReader":               sDecomp("unzstd"),
		"(*" + kGzip + ".Reader).Close":    sDecompClose,
		"(*" + kZstd + ".Decoder).Close":   sDecompClose,
		"bufio.NewReader":                  sWrapReader("bufio"),
		"bufio.NewReaderSize":              sWrapReader("bufio"),
		"encoding/csv.NewReader": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			v := e.newStream(fr, st, site, "CSVR", c.Signature().Results().At(0).Type(), a[0])
			o := st.mut(v.single().Obj)
			o.F[".Comma"] = cInt(',')
			return ret(st, v)
		},
		kXlsx + ".NewFile": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return ret(st, e.newStream(fr, st, site, "xlsx", resultTypes(c)[0], vNil()))
		},
		"(*" + kXlsx + ".File).NewSheet": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return ret(st, app("sheetindex", a[1]))
		},
		"(*" + kXlsx + ".File).SetActiveSheet": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return ret(st)
		},
		"(*" + kXlsx + ".File).SetCellValue": sSetCell,
		"(*" + kXlsx + ".File).SetCellStr":   sSetCell,
		"(*" + kXlsx + ".File).WriteTo": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return sXlsxWrite(e, fr, st, site, a, func(err AV) []AV { return []AV{Top, err} })
		},
		"(*" + kXlsx + ".File).Write": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return sXlsxWrite(e, fr, st, site, a, func(err AV) []AV { return []AV{err} })
		},
	}
	delete(streamModels, "(*encoding/csv.Writer).WriteAll")
	for name, m := range hashModels() {
		streamModels[name] = m
	}
	for name, m := range byteModels() {
		streamModels[name] = m
	}
}

// fault makes the failing variant of an operation.
func (e *Engine) fault(fr *frame, st *State, site ssa.Instruction) (*State, AV) {
	if fr == nil && site != nil {
		fr = &frame{fn: site.Parent(), ctx: "h", info: e.info(site.Parent())}
	}
	bad := st.clone()
	n, _ := bad.fresh("fault@" + e.site(fr, site))
	pos := "?"
	if fr != nil {
		pos = e.p.pos(fr.fn, site)
	}
	if bad.tags["fault"] == "" {
		bad.tags["fault"] = pos
	}
	e.events["fault:"+pos] = true
	return bad, symNN(n, errT())
}

// faulty: failures are considered, and none has happened yet on this path.
func (e *Engine) faulty(st *State) bool {
	return e.streams.faults && st.tags["fault"] == ""
}

// failed is the error a stream keeps from an earlier failure.
func (e *Engine) failed(st *State, w AV) (AV, bool) {
	a := w.single()
	if a != nil && a.K == KIface {
		return e.failed(st, a.Args[0])
	}
	if a == nil || a.K != KPtr || !strings.HasPrefix(a.Obj, "STREAM:") || st.get(a.Obj) == nil {
		return AV{}, false
	}
	v, ok := st.get(a.Obj).F["#err"]
	return v, ok
}

func (e *Engine) setFailed(st *State, w, err AV) {
	a := w.single()
	if a != nil && a.K == KIface {
		e.setFailed(st, a.Args[0], err)
		return
	}
	if a != nil && a.K == KPtr && strings.HasPrefix(a.Obj, "STREAM:") && st.get(a.Obj) != nil {
		st.mut(a.Obj).F["#err"] = err
	}
}

func (e *Engine) newStream(fr *frame, st *State, site ssa.Instruction, kind string, pt types.Type, w AV) AV {
	el, _ := ptrElem(pt)
	id, sum := st.fresh("STREAM:" + kind + ":" + e.site(fr, site))
	st.heap[id] = &Obj{ID: id, T: el, F: map[string]AV{"#w": w, "#kind": cStr(kind), "#buf": cStr(""), "#closed": cBool(false)}, Summary: sum}
	return ptr(id, "", el)
}

// sinkObj finds the object holding what was written to w.
func (e *Engine) sinkObj(st *State, w AV) (id, path string, ok bool) {
	a := w.single()
	if a == nil {
		return "", "", false
	}
	switch a.K {
	case KIface:
		return e.sinkObj(st, a.Args[0])
	case KPtr:
		if strings.HasPrefix(a.Obj, "STREAM:") {
			return a.Obj, "#buf", st.get(a.Obj) != nil
		}
		o := st.get(a.Obj)
		if o == nil {
			return "", "", false
		}
		k := typeKey(a.T)
		if k == "bytes.Buffer" || k == "strings.Builder" || strings.HasSuffix(typeKey(o.T), "bytes.Buffer") || pathIsBuffer(o.T, a.Path) {
			return a.Obj, a.Path + ".#buf", true
		}
	case KSym:
		id := "SINK:" + a.Name
		if st.get(id) == nil {
			st.heap[id] = &Obj{ID: id, T: types.Typ[types.String], F: map[string]AV{"#buf": cStr("")}}
		}
		return id, "#buf", true
	}
	return "", "", false
}

func pathIsBuffer(t types.Type, path string) bool {
	pt := pathType(t, path)
	return pt != nil && typeKey(pt) == "bytes.Buffer"
}

func (e *Engine) sinkContent(st *State, w AV) AV {
	id, path, ok := e.sinkObj(st, w)
	if !ok {
		return Top
	}
	o := st.get(id)
	if v, ok := o.F[path]; ok {
		return v
	}
	if o.Havoc {
		return Top
	}
	return cStr("")
}

// sinkWrite appends content to the sink w; canFail tells whether the outside
// world is reached (memory buffers never fail).
func (e *Engine) sinkWrite(st *State, w, content AV) (okSt *State, canFail bool) {
	id, path, ok := e.sinkObj(st, w)
	if !ok {
		e.fail("write to an unknown destination " + clip(w.Key()))
		return st, true
	}
	o := st.mut(id)
	cur, has := o.F[path]
	if !has {
		cur = cStr("")
		if o.Havoc {
			cur = Top
		}
	}
	if strings.HasPrefix(id, "STREAM:") {
		if b, ok := boolConst(o.F["#closed"]); !ok || b {
			content = app("AFTER-CLOSE", content)
		}
	}
	o.F[path] = cat(cur, content)
	return st, e.sinkFails(st, w)
}

func (e *Engine) sinkFails(st *State, w AV) bool {
	a := w.single()
	if a == nil {
		return true
	}
	switch a.K {
	case KIface:
		return e.sinkFails(st, a.Args[0])
	case KPtr:
		if o := st.get(a.Obj); o != nil && strings.HasPrefix(a.Obj, "STREAM:") {
			return e.sinkFails(st, o.F["#w"])
		}
		return false
	}
	return true
}

func (e *Engine) sinkOutcomes(fr *frame, st *State, site ssa.Instruction, w, content AV, res func(err AV) []AV) []Outcome {
	if err, ok := e.failed(st, w); ok {
		return []Outcome{{st: st, res: res(err)}}
	}
	var outs []Outcome
	pre := st.clone()
	okSt, fails := e.sinkWrite(st, w, content)
	if fails && e.faulty(pre) {
		bad, err := e.fault(fr, pre, site)
		e.setFailed(bad, w, err)
		outs = append(outs, Outcome{st: bad, res: res(err)})
	}
	return append(outs, Outcome{st: okSt, res: res(vNil())})
}

func sWrite(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	return e.sinkOutcomes(fr, st, site, a[0], e.bytesVal(st, a[1]), func(err AV) []AV {
		n := Top
		if x := err.single(); x != nil && x.K == KNil {
			n = lenOf(e, st, a[1])
		}
		return []AV{n, err}
	}), true
}

func sFprintf(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	f, ok := strConst(a[1])
	items, ok2 := e.variadic(st, a[2])
	v := Top
	if ok && ok2 {
		v = e.format(fr, st, c, site, f, items)
	}
	return e.sinkOutcomes(fr, st, site, a[0], v, func(err AV) []AV { return []AV{Top, err} }), true
}

func sFprint(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	items, ok := e.variadic(st, a[1])
	v := Top
	if ok && len(items) == 1 {
		v = e.fmtArg(fr, st, c, site, 'v', items[0])
		if strings.HasSuffix(c.StaticCallee().Name(), "ln") {
			v = cat(v, cStr("\n"))
		}
	}
	return e.sinkOutcomes(fr, st, site, a[0], v, func(err AV) []AV { return []AV{Top, err} }), true
}

func sCSVWrite(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		e.fail("CSV writer of unknown identity")
		return nil, false
	}
	o := st.get(x.Obj)
	rec := a[1]
	if s := e.asSeq(st, rec); s != nil {
		rec = mk(&Atom{K: KSeq, Args: s.Args, Must: s.Must, Open: s.Open})
	}
	if v, ok := o.F["#err"]; ok {
		return ret(st, v)
	}
	row := app("csvrow", o.F[".Comma"], o.F[".UseCRLF"], rec)
	var outs []Outcome
	if e.faulty(st) && e.sinkFails(st, o.F["#w"]) {
		// once failed, the writer stays failed
		bad, err := e.fault(fr, st, site)
		bad.mut(x.Obj).F["#err"] = err
		outs = append(outs, Outcome{st: bad, res: []AV{err}})
	}
	n := st.mut(x.Obj)
	n.F["#buf"] = cat(n.F["#buf"], row)
	return append(outs, Outcome{st: st, res: []AV{vNil()}}), true
}

// Flush hands the buffered rows on; a failure is only reported by Error.
func sCSVFlush(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		e.fail("CSV writer of unknown identity")
		return nil, false
	}
	o := st.get(x.Obj)
	w, buf := o.F["#w"], o.F["#buf"]
	var outs []Outcome
	if _, ok := o.F["#err"]; ok {
		return ret(st)
	}
	if e.faulty(st) && e.sinkFails(st, w) {
		bad, err := e.fault(fr, st, site)
		bad.mut(x.Obj).F["#err"] = err
		outs = append(outs, Outcome{st: bad})
	}
	st.mut(x.Obj).F["#buf"] = cStr("")
	ok, _ := e.sinkWrite(st, w, buf)
	return append(outs, Outcome{st: ok}), true
}

func sCSVError(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		return nil, false
	}
	if v, ok := st.get(x.Obj).F["#err"]; ok {
		return ret(st, v)
	}
	return ret(st, vNil())
}

func sCompClose(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		e.fail("compressor of unknown identity")
		return nil, false
	}
	o := st.get(x.Obj)
	if b, ok := boolConst(o.F["#closed"]); ok && b {
		return ret(st, vNil())
	}
	if err, ok := e.failed(st, a[0]); ok {
		return ret(st, err)
	}
	kind, _ := strConst(o.F["#kind"])
	content := app(kind, o.F["#buf"])
	var outs []Outcome
	if e.faulty(st) && e.sinkFails(st, o.F["#w"]) {
		bad, err := e.fault(fr, st, site)
		outs = append(outs, Outcome{st: bad, res: []AV{err}})
	}
	st.mut(x.Obj).F["#closed"] = cBool(true)
	ok, _ := e.sinkWrite(st, o.F["#w"], content)
	return append(outs, Outcome{st: ok, res: []AV{vNil()}}), true
}

func sCompFlush(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	var outs []Outcome
	if e.faulty(st) {
		bad, err := e.fault(fr, st, site)
		outs = append(outs, Outcome{st: bad, res: []AV{err}})
	}
	return append(outs, Outcome{st: st, res: []AV{vNil()}}), true
}

func sBufioFlush(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		return nil, false
	}
	o := st.get(x.Obj)
	w, buf := o.F["#w"], o.F["#buf"]
	if err, ok := e.failed(st, a[0]); ok {
		return ret(st, err)
	}
	st.mut(x.Obj).F["#buf"] = cStr("")
	return e.sinkOutcomes(fr, st, site, w, buf, func(err AV) []AV { return []AV{err} }), true
}

// sCloseAny: closing something the outside world handed in.
func sCloseAny(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	var outs []Outcome
	if e.faulty(st) {
		bad, err := e.fault(fr, st, site)
		outs = append(outs, Outcome{st: bad, res: []AV{err}})
	}
	return append(outs, Outcome{st: st, res: []AV{vNil()}}), true
}

func sCodecEncode(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil || x.K != KApp || x.Name != "codecenc" {
		e.fail("codec encoder of unknown identity")
		return nil, false
	}
	kind, canon := "", Top
	if h := x.Args[1].single(); h != nil && h.K == KIface {
		kind = typeKey(h.T)
		if p := h.Args[0].single(); p != nil && p.K == KPtr {
			if o := st.get(p.Obj); o != nil && !o.Havoc {
				canon = cBool(false)
				for k, v := range o.F {
					if strings.HasSuffix(k, ".Canonical") {
						canon = v
					}
				}
			}
		}
	}
	name := "codec:" + kind
	if strings.HasSuffix(kind, "codec.CborHandle") {
		name = "cbor"
	}
	v := a[1]
	if i := v.single(); i != nil && i.K == KIface {
		if s := e.asSeq(st, i.Args[0]); s != nil && st.isZero(i.Args[0]) != T {
			v = iface(i.T, mk(&Atom{K: KSeq, Args: s.Args, Must: s.Must, Open: s.Open}))
		}
	}
	var outs []Outcome
	if e.faulty(st) {
		// a value that cannot be encoded
		bad := st.clone()
		n, _ := bad.fresh("encodeErr@" + e.site(fr, site))
		bad.tags["marshal"] = "failed"
		outs = append(outs, Outcome{st: bad, res: []AV{symNN(n, errT())}})
	}
	return append(outs, e.sinkOutcomes(fr, st, site, x.Args[0], app(name, canon, v), func(err AV) []AV { return []AV{err} })...), true
}

func sSetCell(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		e.fail("workbook of unknown identity")
		return nil, false
	}
	name := ""
	for i, v := range []AV{a[1], a[2]} {
		if i == 1 {
			name += "!"
		}
		if s, ok := strConst(v); ok {
			name += s
		} else if v.top {
			e.fail("cell of unknown name")
		} else {
			name += v.Key()
		}
	}
	o := st.mut(x.Obj)
	v := a[3]
	if o.Summary {
		v = Top
	}
	o.F["cell:"+name] = v
	return ret(st)
}

func sXlsxWrite(e *Engine, fr *frame, st *State, site ssa.Instruction, a []AV, res func(AV) []AV) ([]Outcome, bool) {
	x := a[0].single()
	if x == nil || x.K != KPtr || st.get(x.Obj) == nil {
		e.fail("workbook of unknown identity")
		return nil, false
	}
	o := st.get(x.Obj)
	doc := &Atom{K: KApp, Name: "xlsx"}
	for _, k := range sortedAV(o.F) {
		if strings.HasPrefix(k, "cell:") {
			doc.Names = append(doc.Names, strings.TrimPrefix(k, "cell:"))
			doc.Args = append(doc.Args, o.F[k])
		}
	}
	if doc.Names == nil {
		doc.Names = []string{}
	}
	return e.sinkOutcomes(fr, st, site, a[1], mk(doc), res), true
}

func sortedAV(m map[string]AV) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// sDecomp: a decompressor over a source; construction reads a header and may fail.
func sDecomp(name string) Model {
	return func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		v := mk(&Atom{K: KApp, Name: name, Args: []AV{a[0]}, T: resultTypes(c)[0], NonNil: true})
		bad := st.clone()
		n, _ := bad.fresh("headerErr@" + e.site(fr, site))
		bad.tags["fault"] = e.p.pos(fr.fn, site)
		return []Outcome{{st: bad, res: []AV{vNil(), symNN(n, errT())}}, {st: st, res: []AV{v, vNil()}}}, true
	}
}

func sDecompClose(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
	if x := a[0].single(); x != nil && x.K == KApp {
		e.events["closed:"+x.Name] = true
	}
	if len(resultTypes(c)) == 0 {
		return ret(st)
	}
	return ret(st, vNil())
}

func sWrapReader(name string) Model {
	return func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		v := e.newStream(fr, st, site, name, resultTypes(c)[0], a[0])
		return ret(st, v)
	}
}
