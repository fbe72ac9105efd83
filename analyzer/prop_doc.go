package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the published document model --------------------------------------------------

type fspec struct{ field, key string }

// docKeys: which JSON key carries which field. This is the specification the
// code is compared with, not something read from the code.
var docKeys = map[string][]fspec{
	"Dataset": {{"Body", "body"}, {"BodyBytes", "bodyBytes"}, {"BodyPath", "bodyPath"}, {"Commit", "commit"}, {"ID", "id"}, {"Meta", "meta"},
		{"Name", "name"}, {"Path", "path"}, {"Peername", "peername"}, {"PreviousPath", "previousPath"}, {"ProfileID", "profileID"}, {"Readme", "readme"},
		{"NumVersions", "numVersions"}, {"Qri", "qri"}, {"Structure", "structure"}, {"Stats", "stats"}, {"Transform", "transform"}, {"Viz", "viz"}},
	"Commit": {{"Author", "author"}, {"Message", "message"}, {"Path", "path"}, {"Qri", "qri"}, {"Signature", "signature"}, {"Timestamp", "timestamp"}, {"Title", "title"}, {"RunID", "runID"}},
	"Meta": {{"AccessURL", "accessURL"}, {"AccrualPeriodicity", "accrualPeriodicity"}, {"Citations", "citations"}, {"Contributors", "contributors"}, {"Description", "description"},
		{"DownloadURL", "downloadURL"}, {"HomeURL", "homeURL"}, {"Identifier", "identifier"}, {"Keywords", "keywords"}, {"Language", "language"}, {"License", "license"},
		{"Path", "path"}, {"Qri", "qri"}, {"ReadmeURL", "readmeURL"}, {"Title", "title"}, {"Theme", "theme"}, {"Version", "version"}},
	"Structure": {{"Checksum", "checksum"}, {"Compression", "compression"}, {"Depth", "depth"}, {"Encoding", "encoding"}, {"ErrCount", "errCount"}, {"Entries", "entries"}, {"Format", "format"},
		{"FormatConfig", "formatConfig"}, {"Length", "length"}, {"Path", "path"}, {"Qri", "qri"}, {"Schema", "schema"}, {"Strict", "strict"}},
	"Transform": {{"Config", "config"}, {"Path", "path"}, {"Qri", "qri"}, {"Resources", "resources"}, {"ScriptPath", "scriptPath"}, {"Text", "text"}, {"Secrets", "secrets"},
		{"Steps", "steps"}, {"Syntax", "syntax"}, {"SyntaxVersion", "syntaxVersion"}, {"Syntaxes", "syntaxes"}},
	"Readme": {{"Format", "format"}, {"Path", "path"}, {"Qri", "qri"}, {"ScriptPath", "scriptPath"}, {"Text", "text"}, {"RenderedPath", "renderedPath"}},
	"Viz":    {{"Format", "format"}, {"Path", "path"}, {"Qri", "qri"}, {"ScriptPath", "scriptPath"}, {"Text", "text"}, {"RenderedPath", "renderedPath"}},
	"Stats":  {{"Path", "path"}, {"Qri", "qri"}, {"Stats", "stats"}},
}

var kindOf = map[string]string{"Dataset": "ds:0", "Commit": "cm:0", "Meta": "md:0", "Structure": "st:0", "Transform": "tf:0", "Readme": "rm:0", "Viz": "vz:0", "Stats": "sa:0"}

// never written out
var notEncoded = map[string]bool{"Transform.Secrets": true, "Viz.Path": true, "Readme.Path": true}

// names a decoded meta document does not keep as custom entries
var metaReserved = map[string]bool{"data": true, "image": true, "keyword": true, "length": true, "timestamp": true}

func init() {
	// an arbitrary custom metadata key differs from every published name
	symNotConst["KEY:custom"] = func(c *Atom) bool {
		s, ok := strConst(mk(c))
		if !ok {
			return false
		}
		if metaReserved[s] || metaReserved[strings.ToLower(s)] {
			return true
		}
		for _, f := range docKeys["Meta"] {
			if f.key == s || strings.ToLower(f.key) == s {
				return true
			}
		}
		return s == ""
	}
}

func fieldType(p *Program, tn, f string) types.Type {
	t := p.typ(dsPkg, tn)
	if t == nil {
		return nil
	}
	for _, x := range fieldsOf(t) {
		if x.name == f {
			return x.t
		}
	}
	return nil
}

// docCall runs a method of a document type on the symbolic receiver "doc".
func docCall(p *Program, r *Report, tn, method string, prep func(e *Engine, st *State), args ...AV) (*Engine, []Exit, *ssa.Function) {
	t := p.typ(dsPkg, tn)
	fn := p.method(dsPkg, tn, method)
	if t == nil || fn == nil {
		return nil, nil, nil
	}
	e := newEngine(p)
	st := baseState(p)
	pt := types.NewPointer(t)
	st.assumeZero("doc", false)
	if prep != nil {
		prep(e, st)
	}
	recv := sym("doc", pt)
	if _, isP := ptrElem(fn.Signature.Recv().Type()); !isP {
		recv = st.read(st.symObj(recv.single(), t), "", t)
	}
	xs := e.run(fn, append([]AV{recv}, args...), nil, st, "m")
	r.engine(e)
	return e, normalExits(xs), fn
}

func jsonObj(v AV) *Atom {
	a := v.single()
	if a == nil || a.K != KApp || a.Name != "json" {
		return nil
	}
	o := a.Args[0].single()
	if o == nil || o.K != KApp || o.Name != "jobj" {
		return nil
	}
	return o
}

// jsonObjs: every alternative of an encoder's result; nil unless all are objects.
func jsonObjs(v AV) []*Atom {
	if v.top {
		return nil
	}
	var out []*Atom
	for _, a := range v.atoms {
		o := jsonObj(mk(a))
		if o == nil {
			return nil
		}
		out = append(out, o)
	}
	return out
}

func jget(o *Atom, key string) (AV, bool, bool) {
	for i, n := range o.Names {
		if n == key {
			return o.Args[i], true, o.Must[i]
		}
	}
	return AV{}, false, false
}

func unwrapIface(v AV) AV {
	if a := v.single(); a != nil && a.K == KIface {
		return unwrapIface(a.Args[0])
	}
	return v
}

// sameJSON: two values that encode identically because they are the same value.
func sameVal(st *State, got, want AV) bool {
	return same(st, unwrapIface(got), want) || same(st, got, want)
}

// ---- C02: encoding ----------------------------------------------------------------

func checkEncode(p *Program) *Report {
	r := newReport("C02")
	r.Rule = "Abstract interpretation of every JSON encoder of every document type. Per field: assume it set (resp. unset), everything else unknown, and read the abstract JSON object that reaches the result: the published key must definitely be present and hold exactly the value of that field (resp. be absent or hold an empty value); custom metadata is decided for one arbitrary key. An encoder failure must be returned as an error."
	var jobs []func(r *Report)
	n := 0
	for _, tn := range docTypes {
		for _, m := range []string{"MarshalJSON", "MarshalJSONObject"} {
			if tn == "Dataset" && m == "MarshalJSONObject" {
				continue
			}
			if !r.need(p.method(dsPkg, tn, m) != nil, m+" of "+tn) {
				continue
			}
			for _, f := range docKeys[tn] {
				if !r.need(fieldType(p, tn, f.field) != nil, "field "+tn+"."+f.field) {
					continue
				}
				n++
				for _, set := range []bool{true, false} {
					jobs = append(jobs, func(r *Report) { encodeField(p, r, tn, m, f, set) })
				}
			}
			if tn == "Meta" {
				jobs = append(jobs, func(r *Report) { encodeCustom(p, r, m) })
			}
		}
	}
	r.run(jobs)
	r.atLeast(n, 146, "encoded fields")
	return r
}

// otherField: a field whose being set rules out the reference form
func otherField(tn, not string) string {
	for _, f := range docKeys[tn] {
		if f.field != not && f.field != "Path" && f.field != "Qri" && !notEncoded[tn+"."+f.field] {
			return f.field
		}
	}
	return ""
}

func encodeField(p *Program, r *Report, tn, m string, f fspec, set bool) {
	ft := fieldType(p, tn, f.field)
	nm := "doc*." + f.field
	e, xs, fn := docCall(p, r, tn, m, func(e *Engine, st *State) {
		if set {
			st.assumeNonEmpty(nm, ft)
		} else {
			st.assumeZero(nm, true)
		}
		if m == "MarshalJSON" && (!set || f.field == "Path" || f.field == "Qri" || notEncoded[tn+"."+f.field]) {
			if o := otherField(tn, f.field); o != "" {
				st.assumeNonEmpty("doc*."+o, fieldType(p, tn, o))
			} else {
				st.assumeZero("doc*.Path", true)
			}
		}
	})
	id := fmt.Sprintf("encode:%s.%s:%s", tn, f.field, m)
	expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
		if x.st.tags["marshal"] == "failed" {
			return x.st.isZero(x.res[1]) == F, fmt.Sprintf("an encoding failure is not returned (error %s)", x.res[1])
		}
		if x.st.isZero(x.res[1]) != T {
			return false, "encoding may fail although nothing failed: " + x.res[1].Key()
		}
		os := jsonObjs(x.res[0])
		if len(os) == 0 {
			return false, fmt.Sprintf("field %s %s: the result is not a JSON object of known content: %s", f.field, setStr(set), clip(x.res[0].Key()))
		}
		for _, o := range os {
			if ok, why := encodedOK(x, o, tn, f, nm, ft, set); !ok {
				return false, why
			}
		}
		return true, ""
	})
}

func encodedOK(x Exit, o *Atom, tn string, f fspec, nm string, ft types.Type, set bool) (bool, string) {
	v, present, must := jget(o, f.key)
	if f.field == "Qri" {
		want := cStr(kindOf[tn])
		if set && tn != "Meta" {
			want = sym(nm, ft)
		}
		return must && sameVal(x.st, v, want), fmt.Sprintf("kind %s: key \"qri\" holds %s, expected %s", setStr(set), v, want)
	}
	if notEncoded[tn+"."+f.field] {
		if tn == "Transform" {
			return !present || x.st.isZero(v) == T, fmt.Sprintf("%s is written out under %q", f.field, f.key)
		}
		return !present || sameVal(x.st, v, sym(nm, ft)) || x.st.isZero(v) == T, fmt.Sprintf("key %q holds %s", f.key, v)
	}
	if set {
		return present && must && sameVal(x.st, v, sym(nm, ft)), fmt.Sprintf("field %s is set but key %q %s", f.field, f.key, presStr(v, present, must))
	}
	return !present || x.st.isZero(unwrapIface(v)) == T, fmt.Sprintf("field %s is not set but key %q holds %s", f.field, f.key, v)
}

func setStr(b bool) string {
	if b {
		return "set"
	}
	return "not set"
}

func presStr(v AV, present, must bool) string {
	if !present {
		return "is missing from the output"
	}
	if !must {
		return "may be missing from the output"
	}
	return "holds " + clip(v.Key())
}

func clip(s string) string {
	if len(s) > 240 {
		return s[:240] + "..."
	}
	return s
}

func encodeCustom(p *Program, r *Report, m string) {
	ft := fieldType(p, "Meta", "meta")
	if !r.need(ft != nil, "custom metadata of Meta") {
		return
	}
	for _, has := range []bool{true, false} {
		e, xs, fn := docCall(p, r, "Meta", m, func(e *Engine, st *State) {
			st.facts["$KEY:custom"] = Fact{}
			st.assumeNonEmpty("doc*.meta", ft)
			st.assumeZero("has:doc*.meta*[$KEY:custom]", !has)
		})
		expect(r, e, xs, "encode-custom:Meta:"+m, p.fpos(fn), func(x Exit) (bool, string) {
			if x.st.tags["marshal"] == "failed" {
				return x.st.isZero(x.res[1]) == F, "an encoding failure is not returned"
			}
			os := jsonObjs(x.res[0])
			if len(os) == 0 {
				return false, "the result is not a JSON object of known content: " + clip(x.res[0].Key())
			}
			for _, o := range os {
				v, present, must := jget(o, "$KEY:custom")
				if has && !(present && must && sameVal(x.st, v, sym("doc*.meta*[$KEY:custom]", types.NewInterfaceType(nil, nil)))) {
					return false, "a custom metadata entry " + presStr(v, present, must)
				}
				if !has && present {
					return false, "a custom key that was never set appears in the output"
				}
			}
			return true, ""
		})
	}
}

// ---- C03: decoding ----------------------------------------------------------------

func checkDecode(p *Program) *Report {
	r := newReport("C03")
	r.Rule = "Abstract interpretation of every JSON decoder of every document type over an abstract document. Per published key: assume it present (resp. absent), everything else unknown; on every successful exit the field must hold exactly that key's decoded value (resp. be unset), whatever the target held before. A string document must give a reference and nothing else; a failed decode must return an error and leave the target alone; unknown metadata keys are decided for one arbitrary key."
	var jobs []func(r *Report)
	n := 0
	for _, tn := range docTypes {
		if !r.need(p.method(dsPkg, tn, "UnmarshalJSON") != nil, "decoder of "+tn) {
			continue
		}
		for _, f := range docKeys[tn] {
			if !r.need(fieldType(p, tn, f.field) != nil, "field "+tn+"."+f.field) {
				continue
			}
			n++
			for _, present := range []bool{true, false} {
				jobs = append(jobs, func(r *Report) { decodeField(p, r, tn, f, present) })
			}
		}
		jobs = append(jobs, func(r *Report) { decodeString(p, r, tn) })
	}
	jobs = append(jobs, func(r *Report) { decodeCustom(p, r) })
	jobs = append(jobs, func(r *Report) { decodeResource(p, r) })
	r.run(jobs)
	r.atLeast(n, 80, "decoded fields")
	return r
}

func dataSym() AV { return sym("data", types.NewSlice(types.Typ[types.Byte])) }

func untouched(p *Program, st *State, tn string) (bool, string) {
	t := p.typ(dsPkg, tn)
	pt := types.NewPointer(t)
	for _, f := range fieldsOf(t) {
		v, _, _ := readPath(st, sym("doc", pt), pt, []string{f.name})
		if !same(st, v, sym("doc*."+f.name, f.t)) {
			return false, fmt.Sprintf("a failed decode changes %s to %s", f.name, v)
		}
	}
	return true, ""
}

func decodeField(p *Program, r *Report, tn string, f fspec, present bool) {
	t := p.typ(dsPkg, tn)
	pt := types.NewPointer(t)
	ft := fieldType(p, tn, f.field)
	e, xs, fn := docCall(p, r, tn, "UnmarshalJSON", func(e *Engine, st *State) {
		e.docs["data"] = &JDoc{Kind: "object", Keys: map[string]bool{f.key: present}}
		st.assumeZero("data", false)
		if present {
			st.assumeNonEmpty(strings.TrimPrefix(decSym("data", f.key, ft).Key(), "$"), ft)
		}
	}, dataSym())
	id := fmt.Sprintf("decode:%s.%s", tn, f.field)
	expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
		if x.st.tags["unmarshal"] == "failed" {
			if x.st.isZero(x.res[0]) != F {
				return false, "a decoding failure is not returned as an error: " + x.res[0].Key()
			}
			return untouched(p, x.st, tn)
		}
		if x.st.isZero(x.res[0]) != T {
			return false, "decoding a well-formed document may fail: " + x.res[0].Key()
		}
		v, _, _ := readPath(x.st, sym("doc", pt), pt, []string{f.field})
		if present {
			want := decSym("data", f.key, ft)
			return same(x.st, v, want), fmt.Sprintf("key %q is present but field %s ends up as %s", f.key, f.field, clip(v.Key()))
		}
		if f.field == "Qri" && same(x.st, v, cStr(kindOf[tn])) {
			return true, ""
		}
		return x.st.isZero(v) == T, fmt.Sprintf("key %q is absent but field %s ends up as %s", f.key, f.field, clip(v.Key()))
	})
}

func decodeString(p *Program, r *Report, tn string) {
	t := p.typ(dsPkg, tn)
	pt := types.NewPointer(t)
	e, xs, fn := docCall(p, r, tn, "UnmarshalJSON", func(e *Engine, st *State) {
		e.docs["data"] = &JDoc{Kind: "string"}
		st.assumeZero("data", false)
	}, dataSym())
	expect(r, e, xs, "decode-reference:"+tn, p.fpos(fn), func(x Exit) (bool, string) {
		if x.st.isZero(x.res[0]) != T {
			return false, "decoding a string reference may fail: " + x.res[0].Key()
		}
		for _, f := range fieldsOf(t) {
			v, _, _ := readPath(x.st, sym("doc", pt), pt, []string{f.name})
			if f.name == "Path" {
				if !same(x.st, v, sym("dec(data):string", f.t)) {
					return false, "a string reference gives path " + v.Key()
				}
			} else if x.st.isZero(v) != T {
				return false, fmt.Sprintf("a string reference leaves %s = %s", f.name, clip(v.Key()))
			}
		}
		return true, ""
	})
}

func decodeCustom(p *Program, r *Report) {
	t := p.typ(dsPkg, "Meta")
	pt := types.NewPointer(t)
	ft := fieldType(p, "Meta", "meta")
	if !r.need(ft != nil, "custom metadata of Meta") {
		return
	}
	key := &Atom{K: KSym, Name: "KEY:custom", T: types.Typ[types.String]}
	keys := map[string]bool{}
	for _, f := range docKeys["Meta"] {
		keys[f.key] = true
	}
	e, xs, fn := docCall(p, r, "Meta", "UnmarshalJSON", func(e *Engine, st *State) {
		st.facts["$KEY:custom"] = Fact{}
		e.docs["data"] = &JDoc{Kind: "object", Keys: keys, KeySyms: []*Atom{key}}
		st.assumeZero("data", false)
	}, dataSym())
	expect(r, e, xs, "decode-custom:Meta", p.fpos(fn), func(x Exit) (bool, string) {
		if x.st.tags["unmarshal"] == "failed" {
			return x.st.isZero(x.res[0]) == F, "a decoding failure is not returned"
		}
		v, _, _ := readPath(x.st, sym("doc", pt), pt, []string{"meta"})
		got, has := mapAt(e, x.st, v, ft, mk(key))
		if x.st.truth(has) != T || !sameVal(x.st, got, decSym("data", "KEY:custom", ft.Underlying().(*types.Map).Elem())) {
			return false, fmt.Sprintf("an unknown metadata key is not kept: custom metadata %s, entry %s (present %s)", clip(v.Key()), clip(got.Key()), has)
		}
		for k := range keys {
			_, has := mapAt(e, x.st, v, ft, cStr(k))
			if x.st.truth(has) != F {
				return false, fmt.Sprintf("the published key %q is also kept as custom metadata", k)
			}
		}
		return true, ""
	})
}

func decodeResource(p *Program, r *Report) {
	t := p.typ(dsPkg, "TransformResource")
	if !r.need(t != nil && p.method(dsPkg, "TransformResource", "UnmarshalJSON") != nil, "decoder of a transform resource") {
		return
	}
	pt := types.NewPointer(t)
	for _, kind := range []string{"string", "object"} {
		e, xs, fn := docCall(p, r, "TransformResource", "UnmarshalJSON", func(e *Engine, st *State) {
			e.docs["data"] = &JDoc{Kind: kind, Keys: map[string]bool{"path": true}}
			st.assumeZero("data", false)
		}, dataSym())
		expect(r, e, xs, "decode-resource:"+kind, p.fpos(fn), func(x Exit) (bool, string) {
			if x.st.tags["unmarshal"] == "failed" {
				return x.st.isZero(x.res[0]) == F, "a decoding failure is not returned"
			}
			v, _, _ := readPath(x.st, sym("doc", pt), pt, []string{"Path"})
			want := sym("dec(data):string", types.Typ[types.String])
			if kind == "object" {
				want = decSym("data", "path", types.Typ[types.String])
			}
			return x.st.isZero(x.res[0]) == T && same(x.st, v, want), "resource path ends up as " + v.Key()
		})
	}
}

// ---- C04: reference form; C05: emptiness ------------------------------------------

// content fields: those that make a document more than a reference
func contentFields(p *Program, tn string) []fld {
	var out []fld
	for _, f := range docKeys[tn] {
		if f.field != "Path" && f.field != "Qri" {
			out = append(out, fld{f.field, fieldType(p, tn, f.field)})
		}
	}
	if tn == "Meta" {
		out = append(out, fld{"meta", fieldType(p, tn, "meta")})
	}
	return out
}

func checkReference(p *Program) *Report {
	r := newReport("C04")
	r.Rule = "Abstract interpretation of every document encoder under: location set and nothing else; location set and one content field set (each in turn, the rest unknown); no location. The abstract JSON result must be the location string in the first case only, an object in the others."
	var jobs []func(r *Report)
	n := 0
	for _, tn := range docTypes {
		if !r.need(p.method(dsPkg, tn, "MarshalJSON") != nil, "encoder of "+tn) {
			continue
		}
		jobs = append(jobs, func(r *Report) {
			e, xs, fn := docCall(p, r, tn, "MarshalJSON", func(e *Engine, st *State) {
				st.assumeZero("doc*.Path", false)
				for _, f := range contentFields(p, tn) {
					st.assumeZero("doc*."+f.name, true)
				}
			})
			expect(r, e, xs, "reference:"+tn, p.fpos(fn), func(x Exit) (bool, string) {
				if x.st.tags["marshal"] == "failed" {
					return true, ""
				}
				a := x.res[0].single()
				return a != nil && a.K == KApp && a.Name == "json" && same(x.st, unwrapIface(a.Args[0]), sym("doc*.Path", types.Typ[types.String])), "a document with only a location is not encoded as that location: " + clip(x.res[0].Key())
			})
			e, xs, fn = docCall(p, r, tn, "MarshalJSON", func(e *Engine, st *State) { st.assumeZero("doc*.Path", true) })
			expect(r, e, xs, "reference-nopath:"+tn, p.fpos(fn), func(x Exit) (bool, string) {
				return x.st.tags["marshal"] == "failed" || jsonObjs(x.res[0]) != nil, "a document without a location is not encoded as an object: " + clip(x.res[0].Key())
			})
		})
		for _, f := range contentFields(p, tn) {
			if !r.need(f.t != nil, "field "+tn+"."+f.name) {
				continue
			}
			n++
			jobs = append(jobs, func(r *Report) {
				e, xs, fn := docCall(p, r, tn, "MarshalJSON", func(e *Engine, st *State) {
					st.assumeZero("doc*.Path", false)
					st.assumeNonEmpty("doc*."+f.name, f.t)
				})
				expect(r, e, xs, "reference-not:"+tn+"."+f.name, p.fpos(fn), func(x Exit) (bool, string) {
					return x.st.tags["marshal"] == "failed" || jsonObjs(x.res[0]) != nil, fmt.Sprintf("a document whose %s is set may be reduced to its location: %s", f.name, clip(x.res[0].Key()))
				})
			})
		}
	}
	r.run(jobs)
	r.atLeast(n, 60, "content fields")
	return r
}

func checkEmpty(p *Program) *Report {
	r := newReport("C05")
	r.Rule = "Abstract interpretation of every emptiness test: all content fields unset (location, kind and open file handles unknown) must give true; each content field set in turn, the rest unknown, must give false."
	var jobs []func(r *Report)
	n := 0
	for _, tn := range docTypes {
		if !r.need(p.method(dsPkg, tn, "IsEmpty") != nil, "emptiness test of "+tn) {
			continue
		}
		jobs = append(jobs, func(r *Report) {
			e, xs, fn := docCall(p, r, tn, "IsEmpty", func(e *Engine, st *State) {
				for _, f := range contentFields(p, tn) {
					st.assumeZero("doc*."+f.name, true)
				}
			})
			expect(r, e, xs, "empty:"+tn, p.fpos(fn), func(x Exit) (bool, string) {
				return x.st.truth(x.res[0]) == T, "a document with no content field set is not reported empty: " + clip(x.res[0].Key())
			})
		})
		for _, f := range contentFields(p, tn) {
			if !r.need(f.t != nil, "field "+tn+"."+f.name) {
				continue
			}
			n++
			jobs = append(jobs, func(r *Report) {
				e, xs, fn := docCall(p, r, tn, "IsEmpty", func(e *Engine, st *State) { st.assumeNonEmpty("doc*."+f.name, f.t) })
				expect(r, e, xs, "nonempty:"+tn+"."+f.name, p.fpos(fn), func(x Exit) (bool, string) {
					return x.st.truth(x.res[0]) == F, fmt.Sprintf("a document whose %s is set may be reported empty: %s", f.name, clip(x.res[0].Key()))
				})
			})
		}
	}
	r.run(jobs)
	r.atLeast(n, 60, "content fields")
	return r
}

// ---- C06: dropping values ------------------------------------------------------------

var dropTransient = map[string][]string{
	"Dataset": {"Body", "BodyBytes", "Name", "Peername", "Path", "ProfileID", "NumVersions"},
	"Commit":  {"Path"}, "Meta": {"Path"}, "Structure": {"Path"}, "Transform": {"Path", "Secrets", "Text"}, "Viz": {"Path", "Text"}, "Readme": {"Path", "Text"},
}
var dropDerived = map[string][]string{
	"Dataset": {"Path", "Qri"}, "Commit": {"Path", "Qri"}, "Meta": {"Path", "Qri"}, "Structure": {"Checksum", "Depth", "ErrCount", "Entries", "Length", "Path", "Qri"},
	"Transform": {"Path", "Qri"}, "Viz": {"Path", "Qri"}, "Readme": {"Path", "Qri"}, "Stats": {"Path", "Qri"},
}

func inList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func checkDrop(p *Program) *Report {
	r := newReport("C06")
	r.Rule = "Abstract interpretation of the operations that strip transient and derived values, for all inputs at once: at every exit each field in the published transient (resp. derived) set must be unset and every other field must hold exactly its entry value; for a whole dataset the derived values of every component present are decided as well, and components keep all other fields."
	var jobs []func(r *Report)
	for _, op := range []struct {
		m    string
		spec map[string][]string
	}{{"DropTransientValues", dropTransient}, {"DropDerivedValues", dropDerived}} {
		for _, tn := range docTypes {
			cleared, has := op.spec[tn]
			if !has || !r.need(p.method(dsPkg, tn, op.m) != nil, op.m+" of "+tn) {
				continue
			}
			jobs = append(jobs, func(r *Report) {
				t := p.typ(dsPkg, tn)
				pt := types.NewPointer(t)
				scenarios := []string{"unknown", "absent"}
				for _, f := range fieldsOf(t) {
					if _, ok := isComponent(f.t); ok {
						scenarios = append(scenarios, f.name)
					}
				}
				for _, comps := range scenarios {
					e, xs, fn := docCall(p, r, tn, op.m, func(e *Engine, st *State) {
						for _, f := range fieldsOf(t) {
							if _, ok := isComponent(f.t); ok {
								if comps == "absent" || comps == f.name {
									st.assumeZero("doc*."+f.name, comps == "absent")
								}
							}
						}
					})
					for _, f := range fieldsOf(t) {
						id := op.m + ":" + tn + "." + f.name
						expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
							v, _, _ := readPath(x.st, sym("doc", pt), pt, []string{f.name})
							if inList(cleared, f.name) {
								return x.st.isZero(v) == T, fmt.Sprintf("%s should be cleared but holds %s", f.name, clip(v.Key()))
							}
							return same(x.st, v, sym("doc*."+f.name, f.t)), fmt.Sprintf("%s should be kept but ends up as %s", f.name, clip(v.Key()))
						})
						c, isC := isComponent(f.t)
						if !isC || comps != f.name {
							continue
						}
						ct := p.typ(dsPkg, c)
						for _, g := range fieldsOf(ct) {
							expect(r, e, xs, id+"."+g.name, p.fpos(fn), func(x Exit) (bool, string) {
								v, _, _ := readPath(x.st, sym("doc", pt), pt, []string{f.name, g.name})
								if op.m == "DropDerivedValues" && inList(dropDerived[c], g.name) {
									return x.st.isZero(v) == T, fmt.Sprintf("%s.%s should be cleared but holds %s", f.name, g.name, clip(v.Key()))
								}
								return same(x.st, v, sym("doc*."+f.name+"*."+g.name, g.t)), fmt.Sprintf("%s.%s should be kept but ends up as %s", f.name, g.name, clip(v.Key()))
							})
						}
					}
				}
			})
		}
	}
	r.run(jobs)
	r.atLeast(r.Obligations, 250, "field outcomes")
	return r
}

// ---- C07: comparison ------------------------------------------------------------------

func checkCompare(p *Program) *Report {
	r := newReport("C07")
	r.Rule = "Abstract interpretation of every component comparison that ignores location: with every compared field equal and location and file handles unknown the result must be true; with one compared field different and the rest unknown it must be false; nil operands are decided separately."
	n := 0
	for _, tn := range []string{"Transform", "Readme", "Viz"} {
		t := p.typ(dsPkg, tn)
		fn := p.method(dsPkg, tn, "ShallowCompare")
		if !r.need(t != nil && fn != nil, "comparison of "+tn) {
			continue
		}
		pt := types.NewPointer(t)
		run := func(a, b AV, prep func(st *State)) (*Engine, []Exit) {
			e := newEngine(p)
			st := baseState(p)
			prep(st)
			xs := normalExits(e.run(fn, []AV{a, b}, nil, st, "m"))
			r.engine(e)
			return e, xs
		}
		A, B := symNN("a", pt), symNN("b", pt)
		want := func(e *Engine, xs []Exit, id string, tr Tri, text string) {
			expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) { return x.st.truth(x.res[0]) == tr, text + ": " + clip(x.res[0].Key()) })
		}
		e, xs := run(vNil(), vNil(), func(st *State) {})
		want(e, xs, "compare-nil:"+tn, T, "two absent components do not compare equal")
		e, xs = run(A, vNil(), func(st *State) {})
		want(e, xs, "compare-nil:"+tn, F, "a present and an absent component may compare equal")
		e, xs = run(vNil(), B, func(st *State) {})
		want(e, xs, "compare-nil:"+tn, F, "an absent and a present component may compare equal")
		e, xs = run(A, B, func(st *State) {
			ao := st.symObj(A.single(), t)
			bo := st.symObj(B.single(), t)
			for _, f := range docKeys[tn] {
				if f.field != "Path" {
					ft := fieldType(p, tn, f.field)
					st.write(bo.ID, "."+f.field, ft, st.read(ao, "."+f.field, ft), false)
				}
			}
		})
		want(e, xs, "compare-equal:"+tn, T, "components that agree on every field but their location do not compare equal")
		for _, f := range docKeys[tn] {
			if f.field == "Path" {
				continue
			}
			n++
			ft := fieldType(p, tn, f.field)
			e, xs = run(A, B, func(st *State) {
				x, y := sym("a*."+f.field, ft), sym("b*."+f.field, ft)
				st.facts[pairKey(x.Key(), y.Key())] = Fact{Z: 2}
				for _, pr := range [][2]AV{{x, y}, {y, x}} {
					st.facts[app("deepeq", pr[0], pr[1]).Key()] = Fact{Z: 1}
					st.facts[app("deepeq", iface(ft, pr[0]), iface(ft, pr[1])).Key()] = Fact{Z: 1}
				}
			})
			want(e, xs, "compare-differ:"+tn+"."+f.field, F, "components that differ in "+f.field+" may compare equal")
		}
	}
	r.atLeast(n, 20, "compared fields")
	return r
}

// ---- C08: signing bytes ----------------------------------------------------------------

func checkSigning(p *Program) *Report {
	r := newReport("C08")
	r.Rule = "Abstract interpretation of the signing-bytes computation, exhaustively over the 2^9 combinations of which of the nine identified parts are present: the abstract string at every exit must be exactly the newline-joined, prefix-sorted list of prefix:value for the parts present, the commit contributing its timestamp in UTC."
	t := p.typ(dsPkg, "Dataset")
	fn := p.method(dsPkg, "Dataset", "SigningBytes")
	if !r.need(t != nil && fn != nil, "signing bytes") {
		return r
	}
	str := types.Typ[types.String]
	parts := []struct{ prefix, comp, field string }{
		{"id", "", "ID"}, {"bd", "", "BodyPath"}, {"cm", "Commit", "Timestamp"}, {"md", "Meta", "Path"}, {"rm", "Readme", "Path"},
		{"st", "Structure", "Path"}, {"tf", "Transform", "Path"}, {"sa", "Stats", "Path"}, {"vz", "Viz", "Path"},
	}
	var jobs []func(r *Report)
	for mask := 0; mask < 1<<9; mask++ {
		for _, absent := range []bool{true, false} {
			jobs = append(jobs, func(r *Report) {
				var want []AV
				var desc []string
				e, xs, fn := docCall(p, r, "Dataset", "SigningBytes", func(e *Engine, st *State) {
					for i, q := range parts {
						on := mask>>i&1 == 1
						nm := "doc*." + q.field
						if q.comp != "" {
							// an absent part: no component at all, or one without the value
							st.assumeZero("doc*."+q.comp, !on && absent)
							nm = "doc*." + q.comp + "*." + q.field
						}
						st.assumeZero(nm, !on)
						if on {
							desc = append(desc, q.prefix)
							v := sym(nm, str)
							if q.prefix == "cm" {
								v = AV{}
							}
							want = append(want, v)
						}
					}
				})
				id := "signing:" + strings.Join(desc, "+")
				expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
					segs, ok := catParts(x.res[0])
					if len(want) == 0 {
						s, isC := strConst(x.res[0])
						if isC && s == "" || x.st.isZero(x.res[0]) == T {
							return true, ""
						}
						return false, "nothing to sign but the bytes are " + clip(x.res[0].Key())
					}
					if !ok {
						return false, "signing bytes of unknown content: " + clip(x.res[0].Key())
					}
					// expected: "p1:" v1 "\np2:" v2 ...
					if len(segs) != 2*len(want) {
						return false, fmt.Sprintf("with %v present the signing bytes are %s", desc, clip(x.res[0].Key()))
					}
					for i := range want {
						pre := desc[i] + ":"
						if i > 0 {
							pre = "\n" + pre
						}
						s, isC := strConst(segs[2*i])
						if !isC || s != pre {
							return false, fmt.Sprintf("with %v present, entry %d starts with %s, expected %q", desc, i, segs[2*i], pre)
						}
						v := segs[2*i+1]
						if desc[i] == "cm" {
							if !utcRFC3339(v) {
								return false, "the commit contributes " + v.Key() + ", expected its timestamp, UTC, RFC 3339"
							}
							continue
						}
						if !same(x.st, v, want[i]) {
							return false, fmt.Sprintf("with %v present, %s: contributes %s, expected %s", desc, desc[i], v, want[i])
						}
					}
					return true, ""
				})
			})
		}
	}
	r.run(jobs)
	r.atLeast(len(jobs), 1024, "presence combinations")
	return r
}

// catParts splits a concatenation into segments.
func catParts(v AV) ([]AV, bool) {
	a := v.single()
	if a == nil {
		return nil, false
	}
	if a.K == KApp && a.Name == "cat" {
		return a.Args, true
	}
	return []AV{v}, true
}

// utcRFC3339: Format(UTC(timestamp), RFC3339 or RFC3339Nano)
func utcRFC3339(v AV) bool {
	a := v.single()
	if a == nil || a.K != KApp || !strings.Contains(a.Name, "Format") || len(a.Args) != 2 {
		return false
	}
	l, ok := strConst(a.Args[1])
	if !ok || l != "2006-01-02T15:04:05Z07:00" {
		return false
	}
	u := a.Args[0].single()
	if u == nil || u.K != KApp {
		return false
	}
	utc := u.Name == "(time.Time).UTC" && len(u.Args) == 1
	in := u.Name == "(time.Time).In" && len(u.Args) == 2 && u.Args[1].Key() == "$G:time.UTC"
	if !utc && !in {
		return false
	}
	return u.Args[0].Key() == "$doc*.Commit*.Timestamp"
}

// ---- C09: path map --------------------------------------------------------------------

func checkPathMap(p *Program) *Report {
	r := newReport("C09")
	r.Rule = "Abstract interpretation of the component-path listing: per component present/absent in turn (others unknown), and per ignored name; the abstract result map must contain exactly the component's location under its name, or no entry."
	t := p.typ(dsPkg, "Dataset")
	fn := p.method(dsPkg, "Dataset", "PathMap")
	if !r.need(t != nil && fn != nil, "component path listing") {
		return r
	}
	str := types.Typ[types.String]
	mt := types.NewMap(str, str)
	entries := []struct{ key, field string }{{"body", "BodyPath"}, {"commit", "Commit"}, {"meta", "Meta"}, {"dataset", "Path"}, {"readme", "Readme"}, {"structure", "Structure"}, {"transform", "Transform"}, {"viz", "Viz"}, {"stats", "Stats"}}
	look := func(e *Engine, x Exit, key string) (AV, AV) { return mapAt(e, x.st, x.res[0], mt, cStr(key)) }
	// every list of up to two ignored names, and all of them
	names := []string{"unrelated"}
	for _, en := range entries {
		names = append(names, en.key)
	}
	lists := [][]string{nil, names}
	for _, a := range names {
		lists = append(lists, []string{a})
		for _, b := range names {
			lists = append(lists, []string{a, b})
		}
	}
	var jobs []func(r *Report)
	for _, en := range entries {
		comp := en.field != "BodyPath" && en.field != "Path"
		for _, on := range []bool{true, false} {
			for _, ig := range lists {
				en, comp, on, ig := en, comp, on, ig
				jobs = append(jobs, func(r *Report) {
					args := vNil()
					listed := on
					if len(ig) > 0 {
						var names []AV
						for _, n := range ig {
							names = append(names, cStr(n))
							listed = listed && n != en.key
						}
						args = seqOf(types.NewSlice(str), names...)
					}
					e, xs, fn := docCall(p, r, "Dataset", "PathMap", func(e *Engine, st *State) { st.assumeZero("doc*."+en.field, !on) }, args)
					expect(r, e, xs, "pathmap:"+en.key, p.fpos(fn), func(x Exit) (bool, string) {
						v, has := look(e, x, en.key)
						if listed {
							nm := "doc*." + en.field
							if comp {
								nm += "*.Path"
							}
							return x.st.truth(has) == T && same(x.st, v, sym(nm, str)), fmt.Sprintf("%s is present (ignoring %q) but its entry is %s (present: %s)", en.key, ig, clip(v.Key()), has)
						}
						return x.st.truth(has) == F, fmt.Sprintf("%s should not be listed (present: %v, ignoring %q) but its entry is %s (present: %s)", en.key, on, ig, clip(v.Key()), has)
					})
				})
			}
		}
	}
	r.run(jobs)
	// no other names appear
	e, xs, _ := docCall(p, r, "Dataset", "PathMap", nil, vNil())
	expect(r, e, xs, "pathmap:names", p.fpos(fn), func(x Exit) (bool, string) {
		for _, a := range x.res[0].atoms {
			o := e.mapObj(x.st, a, mt)
			if x.res[0].top || o == nil || o.Rest != RNone {
				return false, "the listing has unknown names"
			}
			for _, en := range o.Ents {
				s, _ := strConst(en.Key)
				known := false
				for _, q := range entries {
					known = known || q.key == s
				}
				if !known && en.P != PAbsent {
					return false, "the listing has an unexpected name " + en.Key.Key()
				}
			}
		}
		return true, ""
	})
	// no dataset at all
	e = newEngine(p)
	xs = normalExits(e.run(fn, []AV{vNil(), vNil()}, nil, baseState(p), "m"))
	expect(r, e, xs, "pathmap:nil", p.fpos(fn), func(x Exit) (bool, string) {
		for _, en := range entries {
			if _, has := look(e, x, en.key); x.st.truth(has) != F {
				return false, "listing the paths of no dataset names " + en.key
			}
		}
		return x.st.isZero(x.res[0]) == F, "listing the paths of no dataset gives no map"
	})
	r.atLeast(r.Obligations, 2000, "entries decided")
	return r
}
