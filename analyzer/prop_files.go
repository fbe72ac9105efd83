package main

import (
	"fmt"
	"go/types"
)

// ---- C13: opening and inlining the files a document refers to -----------------------

// globalValue reads a package-level variable as initialised.
func globalValue(p *Program, st *State, pkg, name string) (AV, bool) {
	sp := p.ByPth[pkg]
	if sp == nil {
		return Top, false
	}
	g := sp.Var(name)
	if g == nil {
		return Top, false
	}
	el, _ := ptrElem(g.Type())
	o := st.get("G:" + shortStr(g.String()))
	if o == nil {
		return Top, false
	}
	v := st.read(o, "", el)
	return v, !v.top && !v.isBottom()
}

func unwrapAll(v AV) AV {
	if v.top {
		return v
	}
	out := Bottom
	for _, a := range v.atoms {
		if a.K == KIface {
			out = union(out, unwrapAll(a.Args[0]))
		} else {
			out = union(out, mk(a))
		}
	}
	return out
}

func checkOpen(p *Program) *Report {
	r := newReport("C13")
	r.Rule = "Abstract interpretation of every operation that opens or inlines a file a document refers to, per combination of inline text/bytes/value set, path set, resolver given, and resolver/read failing or not: at every exit the error, the opened file and every field of the document must be the specified ones."
	type opener struct{ tn, m, text, path, file, name string }
	ops := []opener{
		{"Transform", "OpenScriptFile", "Text", "ScriptPath", "scriptFile", "transform.star"},
		{"Readme", "OpenScriptFile", "Text", "ScriptPath", "scriptFile", "readme.md"},
		{"Viz", "OpenScriptFile", "Text", "ScriptPath", "scriptFile", "template.html"},
		{"Readme", "OpenRenderedFile", "", "RenderedPath", "renderedFile", ""},
		{"Viz", "OpenRenderedFile", "", "RenderedPath", "renderedFile", ""},
		{"Transform", "InlineScriptFile", "Text", "ScriptPath", "scriptFile", "transform.star"},
		{"Readme", "InlineScriptFile", "Text", "ScriptPath", "scriptFile", "readme.md"},
		{"Viz", "InlineScriptFile", "Text", "ScriptPath", "scriptFile", "template.html"},
		{"Dataset", "OpenBodyFile", "BodyBytes", "BodyPath", "bodyFile", "body"},
	}
	st0 := baseState(p)
	errNoRes, ok1 := globalValue(p, st0, dsPkg, "ErrNoResolver")
	errInline, ok2 := globalValue(p, st0, dsPkg, "ErrInlineBody")
	if !r.need(ok1, "the error for a missing resolver") || !r.need(ok2, "the error for an inline body") {
		return r
	}
	ctxT := types.NewInterfaceType(nil, nil)
	n := 0
	var jobs []func(r *Report)
	for _, op := range ops {
		fn := p.method(dsPkg, op.tn, op.m)
		if !r.need(fn != nil && fieldType(p, op.tn, op.path) != nil && fieldType(p, op.tn, op.file) != nil, op.m+" of "+op.tn) {
			continue
		}
		n++
		for mask := 0; mask < 32; mask++ {
			text, path, res, body, opened := mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0, mask&16 != 0
			if op.text == "" && text || body && op.tn != "Dataset" {
				continue
			}
			jobs = append(jobs, func(r *Report) {
				t := p.typ(dsPkg, op.tn)
				pt := types.NewPointer(t)
				resT := fn.Signature.Params().At(1).Type()
				resolver := vNil()
				if res {
					resolver = symNN("resolver", resT)
				}
				e, xs, fn := docCall(p, r, op.tn, op.m, func(e *Engine, st *State) {
					if op.text != "" {
						// an empty, non-nil byte slice counts as inline data: no assumption on its length
						st.assumeZero("doc*."+op.text, !text)
					}
					st.assumeZero("doc*."+op.path, !path)
					st.assumeZero("doc*."+op.file, !opened)
					if op.tn == "Dataset" {
						st.assumeZero("doc*.Body", !body)
					}
				}, sym("ctx", ctxT), resolver)
				id := fmt.Sprintf("%s:%s:inline=%v,path=%v,resolver=%v,body=%v,open=%v", op.m, op.tn, text, path, res, body, opened)
				inline := op.m == "InlineScriptFile"
				expect(r, e, xs, id, p.fpos(fn), func(x Exit) (bool, string) {
					st := x.st
					get := func(f string) AV {
						v, _, _ := readPath(st, sym("doc", pt), pt, []string{f})
						return v
					}
					old := func(f string) AV { return sym("doc*."+f, fieldType(p, op.tn, f)) }
					err := x.res[0]
					wantFile := old(op.file)
					fileLoose := false // any file is acceptable (after a failure)
					wantText, wantPath := AV{}, old(op.path)
					if op.text != "" {
						wantText = old(op.text)
					}
					errOK, errWant := false, ""
					failed := st.tags["resolve"] == "failed"
					readFailed := st.tags["readall"] == "failed"
					switch {
					case inline && !res:
						errOK, errWant = st.isZero(err) == T, "no error"
					case body:
						errOK, errWant = same(st, err, errInline), "the inline-body error"
					case text:
						errOK, errWant = st.isZero(err) == T, "no error"
						nm := cStr(op.name)
						if op.tn == "Dataset" && path {
							nm = old(op.path)
						}
						wantFile = app("memfile", nm, old(op.text))
					case !path:
						errOK, errWant = st.isZero(err) == T, "no error"
					case !res:
						errOK, errWant = same(st, err, errNoRes), "the no-resolver error"
					case failed:
						errOK, errWant = st.isZero(err) == F, "an error, as the resolver failed"
						fileLoose = true
					default:
						errOK, errWant = st.isZero(err) == T, "no error"
						wantFile = app("resolve", resolver, old(op.path))
					}
					if inline && res && !failed {
						have := wantFile
						switch {
						case readFailed:
							errOK, errWant = st.isZero(err) == F, "an error, as reading the file failed"
						case !text && !path && st.isZero(old(op.file)) == T:
							// nothing to inline
						default:
							errOK, errWant = st.isZero(err) == T, "no error"
							wantText = app("readall", have)
							wantPath = cStr("")
						}
					}
					if !errOK {
						return false, fmt.Sprintf("%s: the error is %s, expected %s", id, clip(err.Key()), errWant)
					}
					for _, f := range fieldsOf(t) {
						got := get(f.name)
						switch f.name {
						case op.file:
							if fileLoose {
								continue
							}
							if !sameFile(st, got, wantFile) {
								return false, fmt.Sprintf("%s: the opened file is %s, expected %s", id, clip(got.Key()), clip(wantFile.Key()))
							}
						case op.text:
							if !sameFile(st, got, wantText) {
								return false, fmt.Sprintf("%s: %s ends up as %s, expected %s", id, f.name, clip(got.Key()), clip(wantText.Key()))
							}
						case op.path:
							if !same(st, got, wantPath) {
								return false, fmt.Sprintf("%s: %s ends up as %s, expected %s", id, f.name, clip(got.Key()), clip(wantPath.Key()))
							}
						default:
							if !same(st, got, old(f.name)) {
								return false, fmt.Sprintf("%s changes %s to %s", id, f.name, clip(got.Key()))
							}
						}
					}
					return true, ""
				})
			})
		}
	}
	r.run(jobs)
	r.atLeast(n, 9, "opening operations")
	r.atLeast(len(jobs), 60, "scenarios")
	return r
}

// sameFile compares values that may be wrapped in interfaces at different depths.
func sameFile(st *State, got, want AV) bool {
	return same(st, got, want) || same(st, stripIface(got), stripIface(want))
}

// stripIface removes interface wrappers everywhere in a value.
func stripIface(v AV) AV {
	if v.top {
		return v
	}
	out := Bottom
	for _, a := range v.atoms {
		if a.K == KIface {
			out = union(out, stripIface(a.Args[0]))
			continue
		}
		if a.K == KApp && len(a.Args) > 0 {
			n := *a
			n.key = ""
			n.Args = make([]AV, len(a.Args))
			for i, x := range a.Args {
				n.Args[i] = stripIface(x)
			}
			out = union(out, mk(&n))
			continue
		}
		out = union(out, mk(a))
	}
	return out
}
