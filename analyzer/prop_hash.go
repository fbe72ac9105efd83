package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C12: checksums; C14: documents out of untyped values ------------------------------

const mhPkg = "github.com/multiformats/go-multihash"

const sha256Code = 0x12

func hashOf(v AV) AV { return app("base58", app("multihash", app("sha256", v), cInt(sha256Code))) }

func hashModels() map[string]Model {
	failing := func(e *Engine, fr *frame, st *State, site ssa.Instruction, v AV) ([]Outcome, bool) {
		var outs []Outcome
		if e.faulty(st) {
			bad, err := e.fault(fr, st, site)
			outs = append(outs, Outcome{st: bad, res: []AV{vNil(), err}})
		}
		return append(outs, Outcome{st: st, res: []AV{v, vNil()}}), true
	}
	sum := func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		id, path, ok := e.sinkObj(st, a[0])
		if !ok {
			return nil, false
		}
		d := app("sha256", st.get(id).F[path])
		if st.isZero(a[1]) == T {
			return ret(st, d)
		}
		return ret(st, cat(e.bytesVal(st, a[1]), d))
	}
	reset := func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		id, path, ok := e.sinkObj(st, a[0])
		if !ok {
			return nil, false
		}
		st.mut(id).F[path] = cStr("")
		return ret(st)
	}
	b58 := func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		return ret(st, app("base58", e.bytesVal(st, a[0])))
	}
	return map[string]Model{
		"crypto/sha256.New": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			t := types.NewPointer(e.p.typ(dsPkg, "Commit")) // any pointer type will do
			w := e.newStream(fr, st, site, "sha256", t, vNil())
			return ret(st, iface(t, w))
		},
		"crypto/sha256.Sum256": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			v := app("sha256", e.bytesVal(st, a[0]))
			v.atoms[0].T = resultTypes(c)[0]
			return ret(st, v)
		},
		"io.Copy": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			x := unwrapIface(a[1]).single()
			if x == nil || x.K != KApp || x.Name != "bytes.NewReader" && x.Name != "strings.NewReader" {
				return nil, false
			}
			return e.sinkOutcomes(fr, st, site, a[0], e.bytesVal(st, x.Args[0]), func(err AV) []AV { return []AV{Top, err} }), true
		},
		"invoke:hash.Hash.Write": sWrite,
		"invoke:hash.Hash.Sum":   sum,
		"invoke:hash.Hash.Reset": reset,
		mhPkg + ".Encode": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			return failing(e, fr, st, site, app("multihash", e.bytesVal(st, a[0]), a[1]))
		},
		mhPkg + ".EncodeName": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			code := a[1]
			if s, ok := strConst(code); ok && s == "sha2-256" {
				code = cInt(sha256Code)
			}
			return failing(e, fr, st, site, app("multihash", e.bytesVal(st, a[0]), code))
		},
		mhPkg + ".Sum": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			v := app("multihash", app("hash", e.bytesVal(st, a[0]), a[1], a[2]), a[1])
			code, ok := intConst(a[1])
			n, ok2 := intConst(a[2])
			if ok && ok2 && code == sha256Code && (n == -1 || n == 32) {
				v = app("multihash", app("sha256", e.bytesVal(st, a[0])), a[1])
			}
			return failing(e, fr, st, site, v)
		},
		"(" + mhPkg + ".Multihash).B58String":                    b58,
		"github.com/mr-tron/base58/base58.Encode":                b58,
		"github.com/mr-tron/base58/base58.FastBase58Encoding":    b58,
		"github.com/mr-tron/base58/base58.TrivialBase58Encoding": b58,
		"github.com/mr-tron/base58.Encode":                       b58,
		"github.com/mr-tron/base58.FastBase58Encoding":           b58,
		"invoke:encoding/json.Marshaler.MarshalJSON": func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			x := a[0].single()
			if x == nil || x.K != KSym {
				return nil, false
			}
			return failing(e, fr, st, site, app("encoding", a[0]))
		},
	}
}

func checkHashes(p *Program) *Report {
	r := newReport("C12")
	r.Rule = "Abstract interpretation of the checksum functions with SHA-256, multihash and base58 as uninterpreted functions and every step failing or not: the result must be exactly base58(multihash(sha256(data))) of exactly the given bytes, or of exactly the encoding of the given document, or an error; the legacy signable bytes must be the timestamp, a newline and the checksum."
	r.Assume = []string{"crypto/sha256, go-multihash and base58 compute what they say"}
	bytesT := types.NewSlice(types.Typ[types.Byte])
	hb, jh := p.fn("dataset.HashBytes"), p.fn("dataset.JSONHash")
	sh := p.method(dsPkg, "Structure", "Hash")
	sb := p.method(dsPkg, "Dataset", "SignableBytes")
	mj := p.method(dsPkg, "Structure", "MarshalJSON")
	for _, f := range []struct {
		fn *ssa.Function
		n  string
	}{{hb, "dataset.HashBytes"}, {jh, "dataset.JSONHash"}, {sh, "Structure.Hash"}, {sb, "Dataset.SignableBytes"}, {mj, "Structure.MarshalJSON"}} {
		r.need(f.fn != nil, f.n)
	}
	if len(r.Violations) > 0 {
		return r
	}
	faults := func(e *Engine, st *State) { e.streams = &streamCfg{faults: true} }
	fails := 0
	outcome := func(x Exit, want AV) (bool, string) {
		if x.st.tags["fault"] != "" || x.st.tags["marshal"] == "failed" {
			fails++
			return x.st.isZero(x.res[1]) == F, "a failure is not returned as an error"
		}
		if x.st.isZero(x.res[1]) != T {
			return false, "an error is possible although nothing failed: " + clip(x.res[1].Key())
		}
		return x.res[0].Key() == want.Key(), fmt.Sprintf("the result is %s, expected %s", clip(x.res[0].Key()), clip(want.Key()))
	}
	// arbitrary bytes, and no bytes at all
	for _, c := range []struct {
		n      string
		v, enc AV
	}{{"bytes", sym("data", bytesT), sym("data", bytesT)}, {"no bytes", vNil(), cStr("")}} {
		e, xs := invokeFn(p, r, hb, faults, c.v)
		expect(r, e, xs, "hash:"+c.n, p.fpos(hb), func(x Exit) (bool, string) {
			if ok, _ := outcome(x, hashOf(c.v)); ok {
				return true, ""
			}
			return outcome(x, hashOf(c.enc))
		})
	}
	// an arbitrary document
	m := symNN("doc", jh.Signature.Params().At(0).Type())
	e, xs := invokeFn(p, r, jh, faults, m)
	expect(r, e, xs, "hash:document", p.fpos(jh), func(x Exit) (bool, string) { return outcome(x, hashOf(app("encoding", m))) })
	// a structure: exactly its encoding, whatever it holds
	for _, k := range []string{"any", "reference", "empty"} {
		prep := func(e *Engine, st *State) {
			faults(e, st)
			for _, f := range contentFields(p, "Structure") {
				if k != "any" {
					st.assumeZero("doc*."+f.name, true)
				}
			}
			switch k {
			case "any":
				st.assumeNonEmpty("doc*.Format", types.Typ[types.String])
			case "reference":
				st.assumeZero("doc*.Path", false)
			case "empty":
				st.assumeZero("doc*.Path", true)
			}
		}
		_, ms, _ := docCall(p, r, "Structure", "MarshalJSON", prep)
		want := map[string]bool{}
		for _, x := range ms {
			if x.st.tags["marshal"] != "failed" {
				for _, a := range x.res[0].atoms {
					want[a.Key()] = true
				}
			}
		}
		r.need(len(want) > 0, "encoding of a structure")
		e, xs, _ := docCall(p, r, "Structure", "Hash", prep)
		expect(r, e, xs, "hash:structure:"+k, p.fpos(sh), func(x Exit) (bool, string) {
			if x.st.tags["fault"] != "" || x.st.tags["marshal"] == "failed" {
				return x.st.isZero(x.res[1]) == F, "a failure is not returned as an error"
			}
			for _, a := range x.res[0].atoms {
				enc, ok := hashed(a)
				for _, y := range enc.atoms {
					ok = ok && want[y.Key()]
				}
				if !ok || enc.top {
					return false, fmt.Sprintf("the hash of a structure is %s, which is not the hash of its encoding", clip(x.res[0].Key()))
				}
			}
			return !x.res[0].top && len(x.res[0].atoms) > 0 && x.st.isZero(x.res[1]) == T, "the hash of a structure is unknown, or fails for no reason"
		})
	}
	// legacy signable bytes
	ts := fieldType(p, "Commit", "Timestamp")
	if r.need(ts != nil, "commit timestamp") {
		for i := 0; i < 4; i++ {
			hasC, hasS := i&1 != 0, i&2 != 0
			e, xs, _ := docCall(p, r, "Dataset", "SignableBytes", func(e *Engine, st *State) {
				st.assumeZero("doc*.Commit", !hasC)
				st.assumeZero("doc*.Structure", !hasS)
			})
			expect(r, e, xs, fmt.Sprintf("signable:%v:%v", hasC, hasS), p.fpos(sb), func(x Exit) (bool, string) {
				if !hasC || !hasS {
					return x.st.isZero(x.res[1]) == F, "signable bytes without a commit or structure are not refused"
				}
				if x.st.isZero(x.res[1]) != T {
					return false, "signable bytes are refused: " + clip(x.res[1].Key())
				}
				segs, ok := catParts(x.res[0])
				ok = ok && len(segs) == 3 && utcRFC3339(segs[0]) && same(x.st, segs[2], sym("doc*.Structure*.Checksum", types.Typ[types.String]))
				if ok {
					s, isC := strConst(segs[1])
					ok = isC && s == "\n"
				}
				return ok, "the signable bytes are not the commit time (UTC, RFC 3339), a newline and the structure's checksum, but " + clip(x.res[0].Key())
			})
		}
	}
	r.Counters["failing steps"] = fails
	r.atLeast(fails, 1, "failing steps")
	return r
}

// hashed: the value whose hash this is.
func hashed(a *Atom) (AV, bool) {
	for _, op := range []string{"base58", "multihash", "sha256"} {
		if a == nil || a.K != KApp || a.Name != op || len(a.Args) == 0 {
			return AV{}, false
		}
		if op == "multihash" {
			if c, ok := intConst(a.Args[1]); !ok || c != sha256Code {
				return AV{}, false
			}
		}
		v := a.Args[0]
		if op == "sha256" {
			return v, true
		}
		a = v.single()
	}
	return AV{}, false
}

func checkExtract(p *Program) *Report {
	r := newReport("C14")
	r.Rule = "Abstract interpretation of every function extracting a document from an untyped value: a document pointer must come back as itself, a document value as a copy with every field equal, bytes must be decoded exactly as the document's own decoder does (per published key present or absent, a string reference, a failure), and a value of any other type must be refused with an error."
	var jobs []func(r *Report)
	n := 0
	for _, tn := range docTypes {
		fn := p.fn("dataset.Unmarshal" + tn)
		if tn == "Meta" || tn == "Stats" {
			if fn == nil {
				continue
			}
		} else if !r.need(fn != nil, "dataset.Unmarshal"+tn) {
			continue
		}
		n++
		t := p.typ(dsPkg, tn)
		pt := types.NewPointer(t)
		run := func(r *Report, id string, prep func(e *Engine, st *State), mkArg func(st *State) AV, f func(e *Engine, x Exit) (bool, string)) {
			e := newEngine(p)
			st := baseState(p)
			if prep != nil {
				prep(e, st)
			}
			xs := normalExits(e.run(fn, []AV{mkArg(st)}, nil, st, "m"))
			r.engine(e)
			expect(r, e, xs, "extract:"+tn+":"+id, p.fpos(fn), func(x Exit) (bool, string) { return f(e, x) })
		}
		okErr := func(x Exit) bool { return x.st.isZero(x.res[1]) == T }
		doc := sym("doc", pt)
		jobs = append(jobs, func(r *Report) {
			run(r, "pointer", func(e *Engine, st *State) { st.assumeZero("doc", false) }, func(st *State) AV { return iface(pt, doc) }, func(e *Engine, x Exit) (bool, string) {
				if !okErr(x) || !same(x.st, x.res[0], doc) {
					return false, "a document is not handed back as it is: " + describe(x)
				}
				return untouched(p, x.st, tn)
			})
			run(r, "value", func(e *Engine, st *State) { st.assumeZero("doc", false) }, func(st *State) AV {
				return iface(t, st.read(st.symObj(doc.single(), t), "", t))
			}, func(e *Engine, x Exit) (bool, string) {
				if !okErr(x) || x.st.isZero(x.res[0]) != F {
					return false, "a document value is not accepted: " + describe(x)
				}
				for _, f := range fieldsOf(t) {
					v, _, _ := readPath(x.st, x.res[0], pt, []string{f.name})
					if !same(x.st, v, sym("doc*."+f.name, f.t)) {
						return false, fmt.Sprintf("of a document value, %s comes back as %s", f.name, clip(v.Key()))
					}
				}
				return true, ""
			})
		})
		// bytes
		for _, f := range docKeys[tn] {
			for _, present := range []bool{true, false} {
				jobs = append(jobs, func(r *Report) {
					ft := fieldType(p, tn, f.field)
					if !r.need(ft != nil, "field "+tn+"."+f.field) {
						return
					}
					run(r, "bytes:"+f.key, func(e *Engine, st *State) {
						e.docs["data"] = &JDoc{Kind: "object", Keys: map[string]bool{f.key: present}}
						st.assumeZero("data", false)
						if present {
							st.assumeNonEmpty(strings.TrimPrefix(decSym("data", f.key, ft).Key(), "$"), ft)
						}
					}, func(st *State) AV { return iface(dataSym().atoms[0].T, dataSym()) }, func(e *Engine, x Exit) (bool, string) {
						if x.st.tags["unmarshal"] == "failed" {
							return x.st.isZero(x.res[1]) == F, "a decoding failure is not returned as an error"
						}
						if !okErr(x) || x.st.isZero(x.res[0]) != F {
							return false, "a well-formed document is not accepted: " + describe(x)
						}
						v, _, _ := readPath(x.st, x.res[0], pt, []string{f.field})
						if present {
							return same(x.st, v, decSym("data", f.key, ft)), fmt.Sprintf("key %q is present but field %s ends up as %s", f.key, f.field, clip(v.Key()))
						}
						if f.field == "Qri" && same(x.st, v, cStr(kindOf[tn])) {
							return true, ""
						}
						return x.st.isZero(v) == T, fmt.Sprintf("key %q is absent but field %s ends up as %s", f.key, f.field, clip(v.Key()))
					})
				})
			}
		}
		jobs = append(jobs, func(r *Report) {
			run(r, "reference", func(e *Engine, st *State) {
				e.docs["data"] = &JDoc{Kind: "string"}
				st.assumeZero("data", false)
			}, func(st *State) AV { return iface(dataSym().atoms[0].T, dataSym()) }, func(e *Engine, x Exit) (bool, string) {
				if !okErr(x) || x.st.isZero(x.res[0]) != F {
					return false, "a string reference is not accepted: " + describe(x)
				}
				v, _, _ := readPath(x.st, x.res[0], pt, []string{"Path"})
				return same(x.st, v, sym("dec(data):string", types.Typ[types.String])), "a string reference gives path " + clip(v.Key())
			})
			// anything else
			other := "Commit"
			if tn == other {
				other = "Meta"
			}
			any := types.NewInterfaceType(nil, nil)
			ot := p.typ(dsPkg, other)
			for _, o := range []types.Type{types.Typ[types.String], types.Typ[types.Int], types.Typ[types.Bool], types.Typ[types.Float64], types.NewMap(types.Typ[types.String], any), types.NewSlice(any), types.NewPointer(ot), types.NewSlice(types.Typ[types.Int32]), types.NewPointer(pt)} {
				run(r, "other:"+typeKey(o), func(e *Engine, st *State) { st.assumeZero("other", false) }, func(st *State) AV { return iface(o, sym("other", o)) }, func(e *Engine, x Exit) (bool, string) {
					return x.st.isZero(x.res[1]) == F, "a value of type " + typeKey(o) + " is not refused"
				})
			}
			run(r, "other:nil", nil, func(st *State) AV { return vNil() }, func(e *Engine, x Exit) (bool, string) {
				return x.st.isZero(x.res[1]) == F, "nothing at all is not refused"
			})
		})
	}
	r.run(jobs)
	r.atLeast(n, 6, "extraction functions")
	return r
}
