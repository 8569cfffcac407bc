package main

// What the tool shows of a result (C17).

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
)

type shown struct {
	Kind string `json:"kind"`
	Obs
	At []any `json:"at"` // the places named
}

// views runs every case once per way of looking at it
func (ck *Check) views(cases []*Case) [][]shown {
	all := make([][]shown, len(cases))
	var wg sync.WaitGroup
	for i, c := range cases {
		wg.Add(1)
		ck.pool.jobs <- func(p *proc) {
			defer wg.Done()
			c.Final = true
			req := c.request()
			base := req.Runs[0]
			base.Mode, base.Special, base.Sources, base.ShowTrace = "yaml", false, false, false
			kinds := []string{"yaml", "sources", "trace", "special", "native"}
			if c.Places {
				kinds = []string{"places"}
			} else if len(c.Pre) == 0 {
				kinds = append(kinds, "reader")
				if len(c.Files) == 0 {
					kinds = append(kinds, "bytes")
				}
			}
			req.Runs = nil
			for _, k := range kinds {
				r := base
				switch k {
				case "sources", "places":
					r.Sources = true
				case "trace":
					r.ShowTrace = true
				case "special":
					r.Special = true
					r.Sources = c.ID%2 == 0
				case "native":
					r.Mode = "any"
				case "reader", "bytes":
					r.Mode = k
				}
				req.Runs = append(req.Runs, r)
			}
			res := p.do(req)
			for j, o := range observe(res, len(kinds)) {
				s := shown{Kind: kinds[j], Obs: o, At: []any{}}
				if c.Places && j < len(res) {
					s.At = placesNamed(o.S, res[j].Text, res[j].Msg, filepath.Join(p.dir, "case"), c.Cwd)
				}
				all[i] = append(all[i], s)
			}
		}
	}
	wg.Wait()
	return all
}

// toolViews has the command line tool build every case in its formats
func (ck *Check) toolViews(cases []*Case) [][]shown {
	all := make([][]shown, len(cases))
	parallel(len(cases), func(i int) {
		c := cases[i]
		d := ck.tempDir("cli")
		defer os.RemoveAll(d)
		files := map[string]string{c.Main: c.prefix(len(c.Docs))}
		for p, f := range c.Files {
			files[p] = f.Text
		}
		cd, home := filepath.Join(d, "case"), filepath.Join(d, "home")
		writeTree(cd, files)
		must(os.MkdirAll(home, 0755))
		writeTree(home, c.Schemas.home())
		args := []string{"build", c.Main}
		if c.Untyped {
			args = append(args, "--allow-untyped-manifest")
		}
		if c.NoCheck {
			args = append(args, "--disable-type-check")
		}
		vs := [][]string{{"yaml"}, {"json", "-o", "json"}, {"yaml", "--output", "yaml"}, {"json", "--output=json", "--enable-sourcemap"}, {"sources", "--enable-sourcemap"}, {"special", "--render-special-objects"}}
		if c.Places {
			vs = [][]string{{"places", "--enable-sourcemap"}}
		}
		for _, v := range vs {
			r := ck.cli(CLI{Dir: cd, Home: home, Path: ck.binDir()}, append(append([]string{}, args...), v[1:]...)...)
			o := Obs{S: "ok", Out: []any{}, Log: []any{}}
			switch {
			case r.Exit == 0 && v[0] == "json":
				x, err := canonJSON(r.Out)
				if err != nil {
					o.S = "not JSON"
				} else {
					o.Out = []any{x}
				}
			case r.Exit == 0:
				docs, err := canonYAML(r.Out)
				if err != nil {
					o.S = "garbled"
				} else {
					o.Out = docs
				}
			case r.Exit != 1:
				o.S = fmt.Sprintf("exit %d", r.Exit)
			case r.Out != "":
				o.S = "output of a failing build"
			default:
				o.S = "err"
			}
			s := shown{Kind: v[0], Obs: o, At: []any{}}
			if c.Places {
				s.At = placesNamed(o.S, r.Out, r.Err, cd, c.Cwd)
			}
			all[i] = append(all[i], s)
		}
	})
	return all
}

func (ck *Check) viewsBy(cases []*Case, run func([]*Case) [][]shown) {
	for i, c := range cases {
		c.ID = i
	}
	all := run(cases)
	recs := make([]map[string]any, len(cases))
	for i, c := range cases {
		var obs []Obs
		for _, s := range all[i] {
			obs = append(obs, s.Obs)
		}
		recs[i] = c.record(obs) // replaces what is too deep
		delete(recs[i], "obs")
		for j := range all[i] {
			all[i][j].Obs = obs[j]
		}
		recs[i]["views"] = all[i]
		if c.Places {
			recs[i]["places"] = c.places()
		}
	}
	mis, done := ck.judge("TraceViews", recs, func(i int) int { return len(all[i]) + 1 })
	tally := map[string]int{}
	for _, s := range done {
		tally[s]++
	}
	ck.mu.Lock()
	ck.Traces += len(done)
	for k, v := range tally {
		n, _ := ck.Info["cases_ending_"+k].(int)
		ck.Info["cases_ending_"+k] = n + v
	}
	ck.mu.Unlock()
	for i, c := range cases {
		if i < 2 {
			ck.sample(map[string]any{"program": c.prefix(len(c.Docs)), "views": len(all[i]), "outcome": all[i][0].S})
		}
	}
	for _, m := range mis {
		c := cases[m.ID]
		got, _ := json.Marshal(all[m.ID][m.Step-1])
		files := map[string]string{}
		for p, f := range c.Files {
			files[p] = f.Text
		}
		ck.violation(fmt.Sprintf("view %d (%s) of\n%s\nexpected %s\nobserved %s", m.Step, all[m.ID][m.Step-1].Kind, c.prefix(len(c.Docs)), m.Expected, got),
			map[string]any{"program": c.prefix(len(c.Docs)), "files": files, "home": c.Schemas.home(), "expected": m.Expected, "observed": all[m.ID][m.Step-1]})
	}
}

func init() {
	checks["C17"] = func(ck *Check) {
		n := func(q, t int) int { return ck.scale(q, t) }
		p := baseProfile()
		p.Comments, p.Anchor, p.Docs, p.Spell = 0.2, 0.1, [2]int{1, 4}, true
		p.Ops["lam"], p.Ops["types"] = 8, 3
		p.Strs = append(append([]string{}, p.Strs...), "<b>&amp;", "\u2028", "a\u0000b"[:1], "\t", "a\n\nb", "\n", "a\n", "  a\n b", "trailing \n", "\"", "\\", "# x", "a #b", "a: b #c", "- ", "? x", "|", ">", "%", "@", "`", "---", "...", "a\n---\nb", "\u00a0", "\ufeff", "\U0001F600\n")
		p.Keys = append(append([]string{}, p.Keys...), " s", "s ", "", "0", "2020-01-01", "a: b", "#k", "k #", "'", "\"", "\n", "a\nb", "? x", "k:", "{k}", "- x", "<b>", "1.0", "null", "*k", "日本 語")
		show := func(g *G, c *Case) {
			c.Untyped, c.NoCheck = g.ch(0.3), g.ch(0.1)
			g.program(c)
			if g.ch(0.2) { // values with a type
				t := nMap(kv("type", nStr(oneOf(g, "any", "any", "object"))), kv("additionalProperties", nBool(true)))
				c.Docs = append(c.Docs, yispT(call("schema", protect(t))).anchor("ty"))
				v := oneOf(g, nNull(), nInt(0), nStr(""), nBool(false), nSeq(), nMap(), nMap(kv("a", nNull())), nSeq(nNull()), nFloat(0))
				c.Docs = append(c.Docs, nMap(kv("a", v.tag("!ty")), kv("b", nSeq(v.clone(), nMap(kv("c", v.clone()))))))
			}
			if g.ch(0.25) { // texts that nobody wrote
				half := func() *N {
					rs := []rune(g.of(allStrs))
					k := g.n(len(rs) + 1)
					return call("strings.concat", nStr(string(rs[:k])), nStr(string(rs[k:])))
				}
				l := nSeq()
				for i, n := 0, 1+g.n(3); i < n; i++ {
					l.Items = append(l.Items, oneOf(g, yispT(half()), nSeq(yispT(half())), nMap(kv("k", yispT(half()))), nMap(kv("k", nSeq(yispT(half()), nInt(1))))))
				}
				c.Docs = append(c.Docs, oneOf(g, l, l.Items[0]))
			}
			if g.ch(0.25) { // functions and types as and inside documents
				l, _ := g.lambda([]string{"int"}, "int", 2)
				l.Tag = "!yisp"
				t := nSym(oneOf(g, "int", "string", "null"))
				c.Docs = append(c.Docs, oneOf(g, l, t, nSeq(nInt(1), l, t, nSeq(t)), nMap(kv("f", l), kv("a", nInt(1)), kv("t", t)), nMap(kv("f", l)), nSeq(t)))
			}
		}
		gen := func(k int, salt string, p Profile, f func(g *G, c *Case)) []*Case { return ck.generate(k, salt, p, f) }
		for left, i := n(1400, 25000), 0; left > 0; left, i = left-5000, i+1 {
			ck.viewsBy(gen(min(left, 5000), fmt.Sprintf("programs%d", i), p, show), ck.views)
		}
		p.Docs = [2]int{1, 1}
		for left, i := n(700, 15000), 0; left > 0; left, i = left-5000, i+1 {
			ck.viewsBy(gen(min(left, 5000), fmt.Sprintf("single%d", i), p, show), ck.views)
		}
		q := p
		q.Docs, q.Err = [2]int{1, 2}, 0.004
		ck.viewsBy(gen(n(100, 2000), "tool", q, show), ck.toolViews)
	}
}
