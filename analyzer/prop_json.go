package main

import (
	"fmt"
	"go/constant"
	"strconv"
	"strings"
)

// ---- C25: JSON text is decoded to what it says -------------------------------------------------

func jsonItems() []cItem {
	var out []cItem
	add := func(name, text string, w func(s *bScn, st *State, v AV) string) {
		out = append(out, cItem{name, bytesOf(text), w})
	}
	str := func(name, body, want string) { add(name, `"`+body+`"`, wantStr(want)) }

	add("literal", "null", wantNil)
	add("literal", "true", wantConst(boolT, constant.MakeBool(true)))
	add("literal", "false", wantConst(boolT, constant.MakeBool(false)))
	for _, t := range []string{"nul1", "nulL", "trua", "truE", "falsy", "falsE", "nXll", "tXue", "fXlse"} {
		add("literal that is none", t, nil)
	}

	for _, n := range []int64{0, 1, 7, 9, 10, 42, 1234567890, 9007199254740993, 9223372036854775807} {
		add("whole number", strconv.FormatInt(n, 10), wantInt(n))
		add("negative whole number", strconv.FormatInt(-n, 10), wantInt(-n))
	}
	for d := '0'; d <= '9'; d++ {
		add("whole number by its first digit", string(d), wantInt(int64(d-'0')))
		add("whole number by its first digit", string(d)+"0", wantIntText(string(d)+"0"))
	}
	add("whole number", "-9223372036854775808", wantInt(-9223372036854775808))
	add("whole number out of range", "9223372036854775808", nil)
	add("whole number out of range", "-9223372036854775809", nil)
	add("whole number out of range", "123456789012345678901234", nil)
	for _, t := range []string{"0.5", "1.0", "-1.5", "3.25", "1e3", "1E3", "1e+3", "1e-3", "1.5e2", "-2.5E-1", "0.1", "123456.789", "1e300", "-0.0001", "9.75e+10"} {
		f, _ := strconv.ParseFloat(t, 64)
		add("number with a fraction or exponent", t, wantFloat(f))
	}
	add("whole number in base ten", "012", wantInt(12))
	add("whole number in base ten", "-010", wantInt(-10))
	for _, t := range []string{"-", "1.2.3", "1-2", "--1", "1e", "1e+"} {
		add("number that is none", t, nil)
	}

	str("text", "", "")
	str("text", "a", "a")
	str("text", "hello world", "hello world")
	str("text", "日本語", "日本語")
	str("text", "😀", "😀")
	for c := 1; c < 256; c++ {
		if c != '"' && c != '\\' {
			t := string([]byte{byte(c)})
			str("text with any byte", t, t)
			str("text with any byte", "a"+t+"z", "a"+t+"z")
		}
	}
	// escapes
	esc := map[byte]string{'b': "\b", 'f': "\f", 'n': "\n", 'r': "\r", 't': "\t", '"': `"`, '\\': `\`, '/': "/"}
	for _, c := range []byte{'b', 'f', 'n', 'r', 't', '"', '\\', '/'} {
		str("escape", `\`+string(c), esc[c])
		str("escape", `a\`+string(c)+`z`, "a"+esc[c]+"z")
		str("escape", `\`+string(c)+`\`+string(c), esc[c]+esc[c])
	}
	str("escape", `\\n`, `\n`)
	str("escape", `\\\"`, `\"`)
	str("escape", `\\u0041`, `\u0041`)
	// code points: one, two and three bytes of UTF-8, every hex digit
	for _, r := range []rune{0x00, 0x08, 0x1f, 0x22, 0x27, 0x2f, 0x41, 0x5c, 0x7f, 0x80, 0xe9, 0x123, 0x456, 0x7ff, 0x800, 0x789a, 0xbcde, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x65e5} {
		h := fmt.Sprintf("%04x", r)
		str("escaped code point", `\u`+h, string(r))
		str("escaped code point", `\u`+strings.ToUpper(h), string(r))
		str("escaped code point", `x\u`+h+`y`, "x"+string(r)+"y")
		str("escaped code point", `\u`+h+`\u0041`, string(r)+"A")
	}
	for _, p := range [][2]rune{{0xd83d, 0xde00}, {0xd800, 0xdc00}, {0xdbff, 0xdfff}, {0xd834, 0xdd1e}} {
		r := (p[0]-0xd800)<<10 | (p[1] - 0xdc00) + 0x10000
		str("escaped pair", fmt.Sprintf(`\u%04x\u%04X`, p[0], p[1]), string(r))
		str("escaped pair", fmt.Sprintf(`a\u%04x\u%04xz`, p[0], p[1]), "a"+string(r)+"z")
	}

	w1, wa := wantInt(1), wantStr("a")
	// every kind of value in every place of a list and an object
	for _, m := range []struct {
		text string
		want func(s *bScn, st *State, v AV) string
	}{
		{"null", wantNil}, {"true", wantConst(boolT, constant.MakeBool(true))}, {"false", wantConst(boolT, constant.MakeBool(false))},
		{"0", wantInt(0)}, {"-7", wantInt(-7)}, {"0.5", wantFloat(0.5)}, {`""`, wantStr("")}, {`"b"`, wantStr("b")}, {`"\n"`, wantStr("\n")},
		{"[]", wantList()}, {"{}", wantMap(nil)}, {"[null]", wantList(wantNil)}, {`{"":""}`, wantMap([]string{""}, wantStr(""))},
	} {
		add("member", "["+m.text+"]", wantList(m.want))
		add("member", "["+m.text+`,"a"]`, wantList(m.want, wa))
		add("member", `["a",`+m.text+"]", wantList(wa, m.want))
		add("member", `["a",`+m.text+`,"a"]`, wantList(wa, m.want, wa))
		add("member", `{"k":`+m.text+"}", wantMap([]string{"k"}, m.want))
		add("member", `{"k":`+m.text+`,"l":"a"}`, wantMap([]string{"k", "l"}, m.want, wa))
		add("member", `{"k":"a","l":`+m.text+"}", wantMap([]string{"k", "l"}, wa, m.want))
		add("member", `{"k":"a","l":`+m.text+`,"m":"a"}`, wantMap([]string{"k", "l", "m"}, wa, m.want, wa))
	}
	for _, k := range []struct{ text, want string }{{"", ""}, {" ", " "}, {" k ", " k "}, {"K", "K"}, {`\"`, `"`}, {`\u0041`, "A"}, {`\ud83d\ude00`, "😀"}, {"日", "日"}} {
		add("key", `{"`+k.text+`":1}`, wantMap([]string{k.want}, w1))
		add("key", `{"x":1,"`+k.text+`":1}`, wantMap([]string{"x", k.want}, w1, w1))
	}
	add("key given twice", `{"k":"a","k":1}`, wantMap([]string{"k"}, w1))
	// every byte where a separator belongs
	for c := 1; c < 256; c++ {
		x := string([]byte{byte(c)})
		if strings.Contains(" \t\r\n", x) {
			continue
		}
		if x != "," && x != "]" {
			add("byte that is no separator", `["a"`+x+`"b"]`, nil)
		}
		if x != "," && x != "}" {
			add("byte that is no separator", `{"k":"a"`+x+`"l":"b"}`, nil)
		}
		if x != ":" {
			add("byte that is no separator", `{"k"`+x+`1}`, nil)
		}
		if !strings.Contains(",]0123456789\"[", x) {
			add("byte that begins no value", `[`+x+`,1]`, nil)
		}
	}
	for _, sp := range []string{"", " ", "\t\n", "\r\n  "} {
		j := func(toks ...string) string { return sp + strings.Join(toks, sp) }
		name := "list"
		obj := "object"
		if sp != "" {
			name, obj = "list with space", "object with space"
		}
		add(name, j("[", "]"), wantList())
		add(name, j("[", "1", "]"), wantList(w1))
		add(name, j("[", "1", ",", `"a"`, "]"), wantList(w1, wa))
		add(name, j("[", `"a"`, ",", "null", ",", "1", "]"), wantList(wa, wantNil, w1))
		add(name, j("[", "[", "]", ",", "[", "1", "]", "]"), wantList(wantList(), wantList(w1)))
		add(name, j("[", "{", "}", "]"), wantList(wantMap(nil)))
		add(name+" without a comma", j("[", `"a"`, `"b"`, "]"), nil)
		add(name+" without a comma", j("[", "1", ":", "1", "]"), nil)
		add(name+" closed as an object", j("[", "1", "}"), nil)
		add(obj, j("{", "}"), wantMap(nil))
		add(obj, j("{", `"k"`, ":", "1", "}"), wantMap([]string{"k"}, w1))
		add(obj, j("{", `"k"`, ":", `"a"`, ",", `"kl"`, ":", "1", "}"), wantMap([]string{"k", "kl"}, wa, w1))
		add(obj, j("{", `"k"`, ":", "{", `"l"`, ":", "1", "}", "}"), wantMap([]string{"k"}, wantMap([]string{"l"}, w1)))
		add(obj, j("{", `"k\n"`, ":", "[", "1", "]", "}"), wantMap([]string{"k\n"}, wantList(w1)))
		add(obj+" without a comma", j("{", `"k"`, ":", "1", `"l"`, ":", "1", "}"), nil)
		add(obj+" without a colon", j("{", `"k"`, "1", "}"), nil)
		add(obj+" with a key that is no text", j("{", "1", ":", "1", "}"), nil)
		add(obj+" closed as a list", j("{", `"k"`, ":", "1", "]"), nil)
		if sp != "" {
			add("literal after space", sp+"true", wantConst(boolT, constant.MakeBool(true)))
			add("number after space", sp+"1", w1)
			add("text after space", sp+`"a"`, wa)
		}
	}
	return out
}

func wantIntText(t string) func(s *bScn, st *State, v AV) string {
	n, _ := strconv.ParseInt(t, 10, 64)
	return wantInt(n)
}

func checkJSONValues(p *Program) *Report {
	r := newReport("C25")
	r.Rule = "Abstract interpretation of the JSON reader over a source whose next bytes are known, partitioned by the first byte of the value, by every byte of a string and by every escape: the value of the entry, constant-folded through the code, must be what the text says, malformed text must be an error, and exactly the bytes of the value may be consumed."
	fn := p.fn("dsio.NewEntryReader")
	if !r.need(fn != nil, "dsio.NewEntryReader") {
		return r
	}
	items := jsonItems()
	var jobs []func(r *Report)
	for _, tlt := range []string{"array", "object"} {
		const parts = 4
		for k := 0; k < parts; k++ {
			jobs = append(jobs, func(r *Report) {
				s := &bScn{wScn: wScn{p: p, format: "json", tlt: tlt}, follow: true}
				why := s.openBytes(r)
				r.check(why == "", "made:"+s.label(), p.fpos(fn), "%s", why)
				if why != "" {
					return
				}
				for i := k; i < len(items); i += parts {
					s.item(r, items[i])
				}
				r.engine(s.e)
			})
		}
	}
	r.run(jobs)
	r.atLeast(r.Counters["items"], 3000, "items")
	return r
}
