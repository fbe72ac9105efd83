package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	dsioPkg   = modPath + "/dsio"
	compPkg   = modPath + "/compression"
	detectPkg = modPath + "/detect"
	valsPkg   = modPath + "/vals"
)

// invokeFn runs fn on abstract arguments from the initialised program state.
func invokeFn(p *Program, r *Report, fn *ssa.Function, prep func(e *Engine, st *State), args ...AV) (*Engine, []Exit) {
	e := newEngine(p)
	st := baseState(p)
	if prep != nil {
		prep(e, st)
	}
	xs := e.run(fn, args, nil, st, "m")
	r.engine(e)
	return e, normalExits(xs)
}

func constValue(p *Program, pkg, name string) (AV, bool) {
	sp := p.ByPth[pkg]
	if sp == nil {
		return Top, false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return Top, false
	}
	v := c.Val()
	if iv := constant.ToInt(v); v.Kind() != constant.String && iv.Kind() == constant.Int {
		v = iv
	}
	return mk(&Atom{K: KConst, C: v}), true
}

// otherString is an arbitrary string that is none of the listed ones.
func otherString(name string, not []string) AV {
	symNotMu.Lock()
	defer symNotMu.Unlock()
	if symNotConst[name] == nil {
		l := append([]string{}, not...)
		symNotConst[name] = func(c *Atom) bool {
			s, ok := strConst(mk(c))
			return ok && inList(l, s)
		}
	}
	return sym(name, types.Typ[types.String])
}

var formatNames = []struct{ name, con, short string }{
	{"csv", "CSVDataFormat", "CSV"}, {"json", "JSONDataFormat", "JSON"}, {"ndjson", "NDJSONDataFormat", "NDJSON"},
	{"cbor", "CBORDataFormat", "CBOR"}, {"xml", "XMLDataFormat", ""}, {"xlsx", "XLSXDataFormat", "XLSX"},
}
var compNames = []struct{ name, con string }{{"gzip", "FmtGZip"}, {"gz", "FmtGZip"}, {"zst", "FmtZStandard"}, {"zstd", "FmtZStandard"}}
var typeNames = []struct{ name, con string }{
	{"string", "TypeString"}, {"integer", "TypeInteger"}, {"number", "TypeNumber"}, {"boolean", "TypeBoolean"}, {"object", "TypeObject"}, {"array", "TypeArray"}, {"null", "TypeNull"},
}

func checkRegistry(p *Program) *Report {
	r := newReport("C20")
	r.Rule = "Abstract interpretation of every name table and dispatcher of the library, exhaustively over the known names and for one arbitrary other name: formats, compressions and types must parse back from the names they print, be rejected otherwise, and each format must be dispatched to its own reader, writer and schema detector; each compression to its own codec, the same in both directions."
	anchors := map[string]*ssa.Function{}
	need := func(n string, f *ssa.Function) *ssa.Function {
		r.need(f != nil, n)
		anchors[n] = f
		return f
	}
	parse := need("dataset.ParseDataFormatString", p.fn("dataset.ParseDataFormatString"))
	fstr := need("format name", p.method(dsPkg, "DataFormat", "String"))
	fmar := need("format encoder", p.method(dsPkg, "DataFormat", "MarshalJSON"))
	funm := need("format decoder", p.method(dsPkg, "DataFormat", "UnmarshalJSON"))
	supp := need("dataset.SupportedDataFormats", p.fn("dataset.SupportedDataFormats"))
	nrd := need("dsio.NewEntryReader", p.fn("dsio.NewEntryReader"))
	nwr := need("dsio.NewEntryWriter", p.fn("dsio.NewEntryWriter"))
	sch := need("detect.Schema", p.fn("detect.Schema"))
	ffn := need("detect.FormatFromFilename", p.fn("detect.FormatFromFilename"))
	bfn := need("Structure.BodyFilename", p.method(dsPkg, "Structure", "BodyFilename"))
	cpar := need("compression.ParseFormat", p.fn("compression.ParseFormat"))
	comp := need("compression.Compressor", p.fn("compression.Compressor"))
	deco := need("compression.Decompressor", p.fn("compression.Decompressor"))
	tfs := need("vals.TypeFromString", p.fn("vals.TypeFromString"))
	tstr := need("type name", p.method(valsPkg, "Type", "String"))
	tmar := need("type encoder", p.method(valsPkg, "Type", "MarshalJSON"))
	tunm := need("type decoder", p.method(valsPkg, "Type", "UnmarshalJSON"))
	con := func(pkg, name string) AV {
		v, ok := constValue(p, pkg, name)
		r.need(ok, "constant "+name)
		return v
	}
	unknownF := con(dsPkg, "UnknownDataFormat")
	fcon := map[string]AV{}
	for _, f := range formatNames {
		fcon[f.name] = con(dsPkg, f.con)
	}
	for _, c := range compNames {
		con(compPkg, c.con)
	}
	for _, t := range typeNames {
		con(valsPkg, t.con)
	}
	if len(r.Violations) > 0 {
		return r
	}
	okNil := func(x Exit, i int) bool { return x.st.isZero(x.res[i]) == T }
	failed := func(x Exit, i int) bool { return x.st.isZero(x.res[i]) == F }
	is := func(id string, fn *ssa.Function, e *Engine, xs []Exit, want AV) {
		expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
			if len(x.res) > 1 && !okNil(x, 1) {
				return false, "an error is possible: " + clip(x.res[1].Key())
			}
			return same(x.st, x.res[0], want), fmt.Sprintf("the result is %s, expected %s", clip(x.res[0].Key()), want)
		})
	}
	jsonStr := func(id string, fn *ssa.Function, e *Engine, xs []Exit, want string) {
		expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
			if x.st.tags["marshal"] == "failed" {
				return failed(x, 1), "an encoding failure is not returned"
			}
			if !okNil(x, 1) {
				return false, "an error is possible: " + clip(x.res[1].Key())
			}
			if a := x.res[0].single(); a != nil && a.K == KApp && a.Name == "json" && same(x.st, unwrapIface(a.Args[0]), cStr(want)) {
				return true, ""
			}
			return same(x.st, x.res[0], cStr(fmt.Sprintf("%q", want))), fmt.Sprintf("encoded as %s, expected %q", clip(x.res[0].Key()), want)
		})
	}
	decoded := func(id string, fn *ssa.Function, t types.Type, text string, want AV) {
		pt := types.NewPointer(t)
		e, xs := invokeFn(p, r, fn, nil, symNN("tgt", pt), cStr(fmt.Sprintf("%q", text)))
		expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
			if !okNil(x, 0) {
				return false, fmt.Sprintf("decoding %q may fail: %s", text, clip(x.res[0].Key()))
			}
			o := x.st.symObj(sym("tgt", pt).single(), t)
			got := x.st.read(o, "", t)
			return same(x.st, got, want), fmt.Sprintf("decoding %q gives %s, expected %s", text, clip(got.Key()), want)
		})
	}

	// data formats
	var names []string
	for _, f := range formatNames {
		names = append(names, f.name, "."+f.name)
		e, xs := invokeFn(p, r, fstr, nil, fcon[f.name])
		is("format-name:"+f.name, fstr, e, xs, cStr(f.name))
		for _, nm := range []string{f.name, "." + f.name} {
			e, xs = invokeFn(p, r, parse, nil, cStr(nm))
			is("format-parse:"+nm, parse, e, xs, fcon[f.name])
		}
		e, xs = invokeFn(p, r, fmar, nil, fcon[f.name])
		jsonStr("format-encode:"+f.name, fmar, e, xs, f.name)
		decoded("format-decode:"+f.name, funm, p.typ(dsPkg, "DataFormat"), f.name, fcon[f.name])
	}
	for _, nm := range []string{"jsonl", ".jsonl"} {
		names = append(names, nm)
		e, xs := invokeFn(p, r, parse, nil, cStr(nm))
		is("format-parse:"+nm, parse, e, xs, fcon["ndjson"])
	}
	e, xs := invokeFn(p, r, parse, nil, cStr(""))
	is("format-parse:none", parse, e, xs, unknownF)
	e, xs = invokeFn(p, r, fstr, nil, unknownF)
	is("format-name:none", fstr, e, xs, cStr(""))
	e, xs = invokeFn(p, r, fmar, nil, unknownF)
	expect(r, e, xs, "format-encode:none", p.fpos(fmar), func(x Exit) (bool, string) {
		return failed(x, 1), "an unknown format can be encoded"
	})
	other := otherString("OTHER:format", append(names, ""))
	e, xs = invokeFn(p, r, parse, nil, other)
	expect(r, e, xs, "format-parse:other", p.fpos(parse), func(x Exit) (bool, string) {
		return failed(x, 1) && same(x.st, x.res[0], unknownF), fmt.Sprintf("an unknown format name gives %s, error %s", clip(x.res[0].Key()), clip(x.res[1].Key()))
	})
	e, xs = invokeFn(p, r, supp, nil)
	expect(r, e, xs, "formats-supported", p.fpos(supp), func(x Exit) (bool, string) {
		s := e.asSeq(x.st, x.res[0])
		if s == nil || s.Open || len(s.Args) != 5 {
			return false, "the list of supported formats is " + clip(x.res[0].Key())
		}
		for _, f := range formatNames {
			found := false
			for i, v := range s.Args {
				found = found || s.Must[i] && same(x.st, v, fcon[f.name])
			}
			if found != (f.name != "xml") {
				return false, fmt.Sprintf("%s supported: %v", f.name, found)
			}
		}
		return true, ""
	})

	// readers, writers, schema detection
	stT := types.NewPointer(p.typ(dsPkg, "Structure"))
	ioT := func(fn *ssa.Function, i int) AV { return symNN("stream", fn.Signature.Params().At(i).Type()) }
	dispatch := func(fn *ssa.Function, format AV, kind, want string) {
		for _, cp := range []string{"unknown", "none"} {
			e, xs := invokeFn(p, r, fn, func(e *Engine, st *State) {
				e.laxStores = true // which type is constructed does not depend on list elements
				o := st.symObj(symNN("st", stT).single(), p.typ(dsPkg, "Structure"))
				st.write(o.ID, ".Format", types.Typ[types.String], format, false)
				if cp == "none" {
					st.assumeZero("st*.Compression", true)
				}
			}, symNN("st", stT), ioT(fn, 1))
			expect(r, e, xs, fmt.Sprintf("%s:%s", kind, format), p.fpos(fn), func(x Exit) (bool, string) {
				if want == "" {
					return failed(x, 1), fmt.Sprintf("format %s gets a %s", format, kind)
				}
				if failed(x, 1) {
					return true, ""
				}
				for _, a := range x.res[0].atoms {
					if a.K != KNil && (a.K != KIface || !strings.HasSuffix(typeKey(a.T), "dsio."+want)) {
						return false, fmt.Sprintf("format %s gets %s, expected %s", format, clip(a.Key()), want)
					}
				}
				return !x.res[0].top && x.st.isZero(x.res[0]) != T, "the " + kind + " is unknown"
			})
			if want == "" {
				continue
			}
			// some exit succeeds
			any := false
			for _, x := range xs {
				any = any || x.st.isZero(x.res[1]) != F
			}
			r.check(any, fmt.Sprintf("%s-available:%s", kind, format), p.fpos(fn), "format %s never gets a %s", format, kind)
		}
	}
	for _, f := range formatNames {
		rd, wr := "", ""
		if f.short != "" {
			rd, wr = f.short+"Reader", f.short+"Writer"
		}
		dispatch(nrd, cStr(f.name), "reader", rd)
		dispatch(nwr, cStr(f.name), "writer", wr)
		// schema detection
		called := map[string]bool{}
		e := newEngine(p)
		e.inlineHook = func(fn *ssa.Function) bool {
			return !(strings.HasPrefix(shortName(fn), "detect.") && strings.HasSuffix(fn.Name(), "Schema") && fn.Name() != "Schema" && fn.Object() != nil && fn.Object().Exported())
		}
		st := baseState(p)
		o := st.symObj(symNN("st", stT).single(), p.typ(dsPkg, "Structure"))
		st.write(o.ID, ".Format", types.Typ[types.String], cStr(f.name), false)
		xs := normalExits(e.run(sch, []AV{symNN("st", stT), ioT(sch, 1)}, nil, st, "m"))
		r.engine(e)
		for n := range e.extCalled {
			if strings.HasPrefix(n, "detect.") && strings.HasSuffix(n, "Schema") {
				called[strings.TrimPrefix(n, "detect.")] = true
			}
		}
		if f.short == "" {
			expect(r, e, xs, "schema:"+f.name, p.fpos(sch), func(x Exit) (bool, string) {
				return failed(x, 2), "an unsupported format gets a schema"
			})
		} else {
			r.check(len(xs) > 0 && len(called) == 1 && called[f.short+"Schema"], "schema:"+f.name, p.fpos(sch), "format %s gets its schema from %v", f.name, sortedKeys(called))
		}
	}
	dispatch(nrd, other, "reader", "")
	dispatch(nwr, other, "writer", "")
	dispatch(nrd, cStr(""), "reader", "")
	dispatch(nwr, cStr(""), "writer", "")

	// file names
	for _, f := range append(formatNames[:len(formatNames):len(formatNames)], struct{ name, con, short string }{"jsonl", "NDJSONDataFormat", ""}) {
		want := con(dsPkg, f.con)
		for _, c := range append(compNames[:len(compNames):len(compNames)], struct{ name, con string }{"", "FmtNone"}) {
			wantC := con(compPkg, c.con)
			nm := "a.dir/some.body." + f.name
			if c.name != "" {
				nm += "." + c.name
			}
			e, xs := invokeFn(p, r, ffn, nil, cStr(nm))
			expect(r, e, xs, "filename:"+f.name+"."+c.name, p.fpos(ffn), func(x Exit) (bool, string) {
				return okNil(x, 2) && same(x.st, x.res[0], want) && same(x.st, x.res[1], wantC), fmt.Sprintf("%q is taken for format %s, compression %s, error %s", nm, x.res[0], x.res[1], clip(x.res[2].Key()))
			})
			// the name made for a structure
			e, xs = invokeFn(p, r, bfn, func(e *Engine, st *State) {
				o := st.symObj(symNN("st", stT).single(), p.typ(dsPkg, "Structure"))
				st.write(o.ID, ".Format", types.Typ[types.String], cStr(f.name), false)
				st.write(o.ID, ".Compression", types.Typ[types.String], cStr(c.name), false)
			}, symNN("st", stT))
			is("body-name:"+f.name+"."+c.name, bfn, e, xs, cStr(strings.TrimSuffix("body."+f.name+"."+c.name, ".")))
		}
	}
	for _, nm := range []string{"body", "body.gz", "body.docx", "body.docx.gz"} {
		e, xs := invokeFn(p, r, ffn, nil, cStr(nm))
		expect(r, e, xs, "filename:"+nm, p.fpos(ffn), func(x Exit) (bool, string) {
			return failed(x, 2), fmt.Sprintf("%q is taken for format %s", nm, x.res[0])
		})
	}
	// compression
	var cn []string
	for _, c := range compNames {
		cn = append(cn, c.name)
		e, xs := invokeFn(p, r, cpar, nil, cStr(c.name))
		is("compression-parse:"+c.name, cpar, e, xs, con(compPkg, c.con))
		for _, d := range []struct {
			fn        *ssa.Function
			what      string
			gzip, zst string
		}{{comp, "Compressor", "gzip.NewWriter", "zstd.NewWriter"}, {deco, "Decompressor", "gzip.NewReader", "zstd.NewReader"}} {
			e, xs := invokeFn(p, r, d.fn, nil, cStr(c.name), ioT(d.fn, 1))
			gz, zs := false, false
			for n := range e.extCalled {
				gz = gz || strings.Contains(n, d.gzip)
				zs = zs || strings.Contains(n, d.zst)
			}
			any := false
			for _, x := range xs {
				any = any || x.st.isZero(x.res[1]) != F
			}
			r.check(any && gz == (c.con == "FmtGZip") && zs == (c.con == "FmtZStandard"), "codec:"+d.what+":"+c.name, p.fpos(d.fn), "%s %q uses gzip: %v, zstd: %v, can succeed: %v", d.what, c.name, gz, zs, any)
		}
	}
	oc := otherString("OTHER:compression", cn)
	for _, fn := range []*ssa.Function{cpar, comp, deco} {
		args := []AV{oc}
		if fn != cpar {
			args = append(args, ioT(fn, 1))
		}
		e, xs := invokeFn(p, r, fn, nil, args...)
		expect(r, e, xs, "compression-other:"+fn.Name(), p.fpos(fn), func(x Exit) (bool, string) {
			return failed(x, 1), "an unknown compression is accepted"
		})
	}
	// types
	var tn []string
	for _, t := range typeNames {
		tn = append(tn, t.name)
		tv := con(valsPkg, t.con)
		e, xs := invokeFn(p, r, tfs, nil, cStr(t.name))
		is("type-parse:"+t.name, tfs, e, xs, tv)
		e, xs = invokeFn(p, r, tstr, nil, tv)
		is("type-name:"+t.name, tstr, e, xs, cStr(t.name))
		e, xs = invokeFn(p, r, tmar, nil, tv)
		jsonStr("type-encode:"+t.name, tmar, e, xs, t.name)
		decoded("type-decode:"+t.name, tunm, p.typ(valsPkg, "Type"), t.name, tv)
	}
	e, xs = invokeFn(p, r, tfs, nil, otherString("OTHER:type", tn))
	is("type-parse:other", tfs, e, xs, con(valsPkg, "TypeUnknown"))
	r.atLeast(r.Obligations, 200, "table entries")
	return r
}
