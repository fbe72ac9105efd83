package main

import "fmt"

// ---- C21: a failure to write is reported --------------------------------------------------

// faultyRun offers n entries and closes, following failures of the outside
// world; every path on which something failed must have reported it by the end.
func (s *wScn) faultyRun(r *Report, st *State, w AV, ents []wEntry) (why string, failures int) {
	judge := func(x Exit, i int, last bool, what string) (*State, string) {
		fault := x.st.tags["fault"]
		z := x.st.isZero(x.res[i])
		switch {
		case z == U:
			return nil, fmt.Sprintf("it is undecided whether %s fails: %s", what, clip(x.res[i].Key()))
		case fault != "" && z == F:
			failures++
			return nil, "" // reported
		case fault != "" && last:
			failures++
			return nil, fmt.Sprintf("the failure at %s is not reported by any call up to and including Close", fault)
		case fault == "" && z == F:
			return nil, "" // a value that cannot be encoded
		}
		n := x.st.clone()
		f := n.tags["fault"]
		n.tags = map[string]string{}
		if f != "" {
			n.tags["fault"] = f
		}
		return n, ""
	}
	paths := []*State{st}
	for _, m := range s.made {
		m = m.clone()
		m.env = st.env
		m.tags = map[string]string{"fault": m.tags["fault"]}
		for k, f := range st.facts {
			if _, ok := m.facts[k]; !ok {
				m.facts[k] = f
			}
		}
		paths = append(paths, m)
	}
	for _, en := range ents {
		s.seq++
		var next []*State
		for _, pa := range paths {
			xs, fn := s.e.method(pa, w, "WriteEntry", fmt.Sprintf("w%d", s.seq), s.p.entry(sym(fmt.Sprintf("idx%d", s.seq), intT), en.key, en.val))
			if fn == nil || len(s.e.undecided) > 0 {
				return "undecided: " + fmt.Sprint(s.e.undecided), failures
			}
			for _, x := range xs {
				n, why := judge(x, 0, false, "WriteEntry")
				if why != "" {
					return why, failures
				}
				if n != nil {
					next = append(next, n)
				}
			}
		}
		if paths = next; len(paths) > 200 {
			return "too many distinguishable outcomes", failures
		}
	}
	s.seq++
	for _, pa := range paths {
		xs, fn := s.e.method(pa, w, "Close", fmt.Sprintf("w%d", s.seq))
		if fn == nil || len(s.e.undecided) > 0 {
			return "undecided: " + fmt.Sprint(s.e.undecided), failures
		}
		for _, x := range xs {
			if _, why := judge(x, 0, true, "Close"); why != "" {
				return why, failures
			}
		}
	}
	return "", failures
}

func checkWriteFaults(p *Program) *Report {
	r := newReport("C21")
	r.Rule = "Abstract interpretation of constructor, n calls of WriteEntry and Close for every writer and configuration, where every operation on the destination or a compressor may fail once (buffering layers keep their failure, as the library documents): on every path on which something failed, the constructor, an entry or Close must return an error. For n = 0..4 directly and for any larger n from the widened state of the writer."
	fn := p.fn("dsio.NewEntryWriter")
	if !r.need(fn != nil, "dsio.NewEntryWriter") {
		return r
	}
	var scns []*wScn
	for _, c := range []string{"", "gzip", "zst"} {
		scns = append(scns, writerScenarios(c)...)
	}
	var jobs []func(r *Report)
	for _, s0 := range scns {
		jobs = append(jobs, func(r *Report) {
			// failures while the writer is made
			s := s0.copyFor(p)
			s.faults = true
			st, w, why := s.open(r)
			r.check(why == "", "made:"+s.id(), p.fpos(fn), "%s", why)
			if s.e != nil {
				r.engine(s.e)
			}
			if why != "" {
				return
			}
			for n := 0; n <= 4; n++ {
				var es []wEntry
				b := st.clone()
				for i := 0; i < n; i++ {
					es = append(es, s.normal(b, i))
				}
				why, k := s.faultyRun(r, b, w, es)
				if why == "" && k == 0 && n > 0 {
					why = "no operation of this writer can fail"
				}
				r.check(why == "", fmt.Sprintf("reported:%s:%d entries", s.id(), n), p.fpos(fn), "%s", why)
				r.Counters["failing paths"] += k
			}
		})
		jobs = append(jobs, func(r *Report) {
			s := s0.copyFor(p)
			st, w, why := s.open(r)
			if why == "" {
				var wid *State
				var ents []wEntry
				wid, ents, _, _, why = s.widened(st, w)
				if why == "" {
					s.e.streams.faults = true
					why, _ = s.faultyRun(r, wid, w, ents[3:4])
				}
			}
			if s.e != nil {
				r.engine(s.e)
			}
			r.check(why == "", "reported:"+s.id()+":any entries", p.fpos(fn), "%s", why)
		})
	}
	r.run(jobs)
	r.atLeast(r.Counters["failing paths"], 500, "failing paths")
	return r
}
