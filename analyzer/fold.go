package main

import (
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- library functions of constants ----------------------------------------------------------
//
// In byte mode, calls of pure text and number functions with constant arguments are
// folded, so that what a helper makes of known bytes stays known.

type foldFn func(a []AV) ([]AV, bool)

func foldErr(name string, err error) AV {
	if err == nil {
		return vNil()
	}
	return symNN("unmarshalErr@fold:"+name, errT())
}

func cFloat(f float64) (AV, bool) {
	c := constant.MakeFloat64(f)
	if c.Kind() == constant.Unknown {
		return Top, false
	}
	return mk(&Atom{K: KConst, C: c}), true
}

func cUint(n uint64) AV { return mk(&Atom{K: KConst, C: constant.MakeUint64(n)}) }

var folds = map[string]foldFn{
	"strconv.Atoi": func(a []AV) ([]AV, bool) {
		s, ok := strConst(a[0])
		n, err := strconv.Atoi(s)
		return []AV{cInt(int64(n)), foldErr("Atoi", err)}, ok
	},
	"strconv.ParseInt": func(a []AV) ([]AV, bool) {
		s, ok := strConst(a[0])
		b, ok1 := intConst(a[1])
		z, ok2 := intConst(a[2])
		if !ok || !ok1 || !ok2 {
			return nil, false
		}
		n, err := strconv.ParseInt(s, int(b), int(z))
		return []AV{cInt(n), foldErr("ParseInt", err)}, true
	},
	"strconv.ParseUint": func(a []AV) ([]AV, bool) {
		s, ok := strConst(a[0])
		b, ok1 := intConst(a[1])
		z, ok2 := intConst(a[2])
		if !ok || !ok1 || !ok2 {
			return nil, false
		}
		n, err := strconv.ParseUint(s, int(b), int(z))
		return []AV{cUint(n), foldErr("ParseUint", err)}, true
	},
	"strconv.ParseFloat": func(a []AV) ([]AV, bool) {
		s, ok := strConst(a[0])
		if z, ok1 := intConst(a[1]); !ok || !ok1 || z != 64 {
			return nil, false
		}
		f, err := strconv.ParseFloat(s, 64)
		v, fin := cFloat(f)
		if err == nil && !fin {
			return nil, false
		}
		return []AV{v, foldErr("ParseFloat", err)}, true
	},
	"strconv.ParseBool": func(a []AV) ([]AV, bool) {
		s, ok := strConst(a[0])
		b, err := strconv.ParseBool(s)
		return []AV{cBool(b), foldErr("ParseBool", err)}, ok
	},
	"strconv.Unquote": func(a []AV) ([]AV, bool) {
		s, ok := strConst(a[0])
		t, err := strconv.Unquote(s)
		return []AV{cStr(t), foldErr("Unquote", err)}, ok
	},
	"encoding/hex.DecodeString": func(a []AV) ([]AV, bool) {
		s, ok := strConst(a[0])
		t, err := hex.DecodeString(s)
		return []AV{cStr(string(t)), foldErr("DecodeString", err)}, ok
	},
	"unicode/utf16.DecodeRune": func(a []AV) ([]AV, bool) {
		x, ok1 := intConst(a[0])
		y, ok2 := intConst(a[1])
		return []AV{cInt(int64(utf16.DecodeRune(rune(x), rune(y))))}, ok1 && ok2
	},
	"unicode/utf16.IsSurrogate": func(a []AV) ([]AV, bool) {
		x, ok := intConst(a[0])
		return []AV{cBool(utf16.IsSurrogate(rune(x)))}, ok
	},
	"unicode/utf8.RuneLen": func(a []AV) ([]AV, bool) {
		x, ok := intConst(a[0])
		return []AV{cInt(int64(utf8.RuneLen(rune(x))))}, ok
	},
	"unicode/utf8.ValidRune": func(a []AV) ([]AV, bool) {
		x, ok := intConst(a[0])
		return []AV{cBool(utf8.ValidRune(rune(x)))}, ok
	},
	"unicode.IsSpace": func(a []AV) ([]AV, bool) {
		x, ok := intConst(a[0])
		return []AV{cBool(unicode.IsSpace(rune(x)))}, ok
	},
	"unicode.IsDigit": func(a []AV) ([]AV, bool) {
		x, ok := intConst(a[0])
		return []AV{cBool(unicode.IsDigit(rune(x)))}, ok
	},
	"strings.ContainsAny": foldSS(func(x, y string) AV { return cBool(strings.ContainsAny(x, y)) }),
	"strings.Contains":    foldSS(func(x, y string) AV { return cBool(strings.Contains(x, y)) }),
	"strings.HasPrefix":   foldSS(func(x, y string) AV { return cBool(strings.HasPrefix(x, y)) }),
	"strings.HasSuffix":   foldSS(func(x, y string) AV { return cBool(strings.HasSuffix(x, y)) }),
	"strings.TrimPrefix":  foldSS(func(x, y string) AV { return cStr(strings.TrimPrefix(x, y)) }),
	"strings.TrimSuffix":  foldSS(func(x, y string) AV { return cStr(strings.TrimSuffix(x, y)) }),
	"strings.Trim":        foldSS(func(x, y string) AV { return cStr(strings.Trim(x, y)) }),
	"bytes.Contains":      foldSS(func(x, y string) AV { return cBool(strings.Contains(x, y)) }),
	"bytes.ContainsAny":   foldSS(func(x, y string) AV { return cBool(strings.ContainsAny(x, y)) }),
	"bytes.TrimPrefix":    foldSS(func(x, y string) AV { return cStr(strings.TrimPrefix(x, y)) }),
	"bytes.TrimSuffix":    foldSS(func(x, y string) AV { return cStr(strings.TrimSuffix(x, y)) }),
	"bytes.Trim":          foldSS(func(x, y string) AV { return cStr(strings.Trim(x, y)) }),
	"strings.IndexByte":   foldSB(func(x string, c byte) AV { return cInt(int64(strings.IndexByte(x, c))) }),
	"bytes.IndexByte":     foldSB(func(x string, c byte) AV { return cInt(int64(strings.IndexByte(x, c))) }),
	"strings.ContainsRune": func(a []AV) ([]AV, bool) {
		s, ok := strConst(a[0])
		c, ok2 := intConst(a[1])
		return []AV{cBool(strings.ContainsRune(s, rune(c)))}, ok && ok2
	},
	"strings.IndexRune": func(a []AV) ([]AV, bool) {
		s, ok := strConst(a[0])
		c, ok2 := intConst(a[1])
		return []AV{cInt(int64(strings.IndexRune(s, rune(c))))}, ok && ok2
	},
}

func init() {
	ss := map[string]func(x, y string) AV{
		"HasPrefix": func(x, y string) AV { return cBool(strings.HasPrefix(x, y)) },
		"HasSuffix": func(x, y string) AV { return cBool(strings.HasSuffix(x, y)) },
		"EqualFold": func(x, y string) AV { return cBool(strings.EqualFold(x, y)) },
		"Index":     func(x, y string) AV { return cInt(int64(strings.Index(x, y))) },
		"IndexAny":  func(x, y string) AV { return cInt(int64(strings.IndexAny(x, y))) },
		"LastIndex": func(x, y string) AV { return cInt(int64(strings.LastIndex(x, y))) },
		"Count":     func(x, y string) AV { return cInt(int64(strings.Count(x, y))) },
		"TrimLeft":  func(x, y string) AV { return cStr(strings.TrimLeft(x, y)) },
		"TrimRight": func(x, y string) AV { return cStr(strings.TrimRight(x, y)) },
	}
	s1 := map[string]func(x string) AV{
		"TrimSpace": func(x string) AV { return cStr(strings.TrimSpace(x)) },
		"ToLower":   func(x string) AV { return cStr(strings.ToLower(x)) },
		"ToUpper":   func(x string) AV { return cStr(strings.ToUpper(x)) },
	}
	for _, pkg := range []string{"strings.", "bytes."} {
		for n, f := range ss {
			folds[pkg+n] = foldSS(f)
		}
		for n, f := range s1 {
			folds[pkg+n] = func(a []AV) ([]AV, bool) {
				x, ok := strConst(a[0])
				return []AV{f(x)}, ok
			}
		}
		folds[pkg+"LastIndexByte"] = foldSB(func(x string, c byte) AV { return cInt(int64(strings.LastIndexByte(x, c))) })
		folds[pkg+"ReplaceAll"] = func(a []AV) ([]AV, bool) {
			x, ok := strConst(a[0])
			y, ok2 := strConst(a[1])
			z, ok3 := strConst(a[2])
			return []AV{cStr(strings.ReplaceAll(x, y, z))}, ok && ok2 && ok3
		}
	}
	folds["bytes.ContainsRune"] = folds["strings.ContainsRune"]
	folds["bytes.IndexRune"] = folds["strings.IndexRune"]
	folds["strconv.FormatInt"] = func(a []AV) ([]AV, bool) {
		x, ok := intConst(a[0])
		b, ok2 := intConst(a[1])
		if !ok || !ok2 || b < 2 || b > 36 {
			return nil, false
		}
		return []AV{cStr(strconv.FormatInt(x, int(b)))}, true
	}
	folds["strconv.Itoa"] = func(a []AV) ([]AV, bool) {
		x, ok := intConst(a[0])
		return []AV{cStr(strconv.FormatInt(x, 10))}, ok
	}
}

func foldSS(f func(x, y string) AV) foldFn {
	return func(a []AV) ([]AV, bool) {
		x, ok := strConst(a[0])
		y, ok2 := strConst(a[1])
		if !ok || !ok2 {
			return nil, false
		}
		return []AV{f(x, y)}, true
	}
}

func foldSB(f func(x string, c byte) AV) foldFn {
	return func(a []AV) ([]AV, bool) {
		x, ok := strConst(a[0])
		c, ok2 := intConst(a[1])
		if !ok || !ok2 {
			return nil, false
		}
		return []AV{f(x, byte(c))}, true
	}
}

// foldModels puts the folds before the models of the same functions.
func foldModels(m map[string]Model) {
	for name, f := range folds {
		next := m[name]
		m[name] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			if e.byteMode() && e.streams.bytes.follow {
				args := make([]AV, len(a))
				for i, x := range a {
					args[i] = x
					if i < len(c.Args) && isStringy(c.Args[i].Type()) {
						args[i] = e.bytesVal(st, e.seqView(st, x))
					}
				}
				if res, ok := f(args); ok {
					return []Outcome{{st: st, res: res}}, true
				}
			}
			if next != nil {
				return next(e, fr, st, c, site, a)
			}
			return nil, false
		}
	}
	enc := func(e *Engine, st *State, c AV) (string, bool) {
		n, ok := intConst(c)
		return string(rune(n)), ok && e.byteMode() && e.streams.bytes.follow
	}
	m["unicode/utf8.EncodeRune"] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		s, ok := enc(e, st, a[1])
		if !ok {
			return nil, false
		}
		items, _, _ := byteParts(cStr(s))
		if !e.storeBytes(st, a[0], items) {
			return nil, false
		}
		return ret(st, cInt(int64(len(s))))
	}
	m["unicode/utf8.AppendRune"] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		s, ok := enc(e, st, a[1])
		items, open, ok2 := byteParts(e.seqView(st, a[0]))
		if !ok || !ok2 || open {
			return nil, false
		}
		more, _, _ := byteParts(cStr(s))
		return ret(st, peeked(append(append([]AV{}, items...), more...), false))
	}
	for _, name := range []string{"(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune"} {
		next := m[name]
		m[name] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
			if s, ok := enc(e, st, a[1]); ok {
				st, _ = e.sinkWrite(st, a[0], cStr(s))
				return []Outcome{{st: st, res: []AV{cInt(int64(len(s))), vNil()}}}, true
			}
			if next != nil {
				return next(e, fr, st, c, site, a)
			}
			return nil, false
		}
	}
	sprintf := m["fmt.Sprintf"]
	m["fmt.Sprintf"] = func(e *Engine, fr *frame, st *State, c *ssa.CallCommon, site ssa.Instruction, a []AV) ([]Outcome, bool) {
		if e.byteMode() && e.streams.bytes.follow {
			f, ok := strConst(a[0])
			items, ok2 := e.variadic(st, a[1])
			var args []interface{}
			for _, x := range items {
				i := x.single()
				if i == nil || i.K != KIface {
					ok = false
					break
				}
				if isStringy(i.T) {
					s, isC := strConst(e.bytesVal(st, e.seqView(st, i.Args[0])))
					ok = ok && isC
					args = append(args, s)
					continue
				}
				n, isC := intConst(i.Args[0])
				b, isB := i.T.Underlying().(*types.Basic)
				ok = ok && isC && isB
				if isB && b.Kind() == types.Uint8 {
					args = append(args, byte(n))
				} else {
					args = append(args, n)
				}
			}
			if ok && ok2 {
				return ret(st, cStr(fmt.Sprintf(f, args...)))
			}
		}
		if sprintf != nil {
			return sprintf(e, fr, st, c, site, a)
		}
		return nil, false
	}
}
