package main

// Evaluations again and again (C18).

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type RStep struct {
	Job   int    `json:"job"`
	Kind  string `json:"kind"`
	Proc  string `json:"proc"` // a, b: two processes; tool: the command line tool
	Keep  bool   `json:"keep"`
	Mixed bool   `json:"mixed"`
}
type Repeats struct {
	Jobs  []*Case
	Steps []*RStep
}
type repeatObs struct {
	Obs
	Bytes string `json:"bytes"`
	Same  bool   `json:"same"`
	text  string
}

// mixed gives a schema with its keys in another order
func (g *G) mixed(n *N) *N {
	m := *n
	m.Items, m.Pairs = nil, nil
	for _, i := range n.Items {
		m.Items = append(m.Items, g.mixed(i))
	}
	for _, p := range n.Pairs {
		p.V = g.mixed(p.V)
		m.Pairs = append(m.Pairs, p)
	}
	if n.K == "map" {
		g.r.Shuffle(len(m.Pairs), func(i, j int) { m.Pairs[i], m.Pairs[j] = m.Pairs[j], m.Pairs[i] })
	}
	return &m
}
func (g *G) mixedUniverse(u *Universe) *Universe {
	if u == nil {
		return nil
	}
	v := &Universe{Schemas: map[string]*N{}, GVK: u.GVK, URLs: map[string]*N{}}
	for k, s := range u.Schemas {
		v.Schemas[k] = g.mixed(s)
	}
	for k, s := range u.URLs {
		if s != nil {
			s = g.mixed(s)
		}
		v.URLs[k] = s
	}
	return v
}

// byName orders data as values given from outside are
func byName(n *N) *N {
	sort.SliceStable(n.Pairs, func(i, j int) bool { return n.Pairs[i].Key < n.Pairs[j].Key })
	for _, i := range n.Items {
		byName(i)
	}
	for _, p := range n.Pairs {
		byName(p.V)
	}
	return n
}

func (r *Repeats) tree(c *Case) map[string]string {
	t := map[string]string{c.Main: c.prefix(len(c.Docs))}
	for p, f := range c.Files {
		t[p] = f.Text
	}
	return t
}

func (ck *Check) repeat(g *G, r *Repeats) []repeatObs {
	obs := make([]repeatObs, len(r.Steps))
	home := make([][2]map[string]string, len(r.Jobs))
	for i, c := range r.Jobs {
		home[i] = [2]map[string]string{c.Schemas.home(), g.mixedUniverse(c.Schemas).home()}
	}
	homeOf := func(s *RStep) map[string]string {
		if s.Mixed {
			return home[s.Job-1][1]
		}
		return home[s.Job-1][0]
	}
	note := func(i int, text, dir string, o Obs, same bool) {
		text = strings.ReplaceAll(text, dir, "@")
		h := sha256.Sum256([]byte(text))
		if o.S != "ok" {
			h, text = [32]byte{}, ""
		}
		obs[i] = repeatObs{o, hex.EncodeToString(h[:8]), same, text}
	}
	for _, which := range []string{"a", "b"} {
		var idx []int
		req := &WReq{Files: map[string]string{}, Main: "none", Outs: map[string]string{}}
		for i, s := range r.Steps {
			if s.Proc != which {
				continue
			}
			c := r.Jobs[s.Job-1]
			w := c.run()
			w.Mode, w.Special, w.Sources, w.ShowTrace = "yaml", s.Kind == "special", s.Kind == "sources", s.Kind == "trace"
			if s.Kind == "native" {
				w.Mode = "any"
			}
			w.Keep, w.Tree, w.Home, w.Cwd, w.Path = s.Keep, r.tree(c), homeOf(s), c.Cwd, c.Main
			req.Runs = append(req.Runs, w)
			idx = append(idx, i)
		}
		if len(idx) == 0 {
			continue
		}
		wait := make(chan bool)
		ck.pool.jobs <- func(p *proc) {
			res := p.do(req)
			p.home = nil
			for k, o := range observe(res, len(idx)) {
				text, same := "", true
				if k < len(res) {
					text, same = res[k].Text, res[k].Kept
					if res[k].Any != nil {
						text = string(res[k].Any)
					}
				}
				note(idx[k], text, filepath.Join(p.dir, "case"), o, same)
			}
			close(wait)
		}
		<-wait
	}
	for i, s := range r.Steps {
		if s.Proc != "tool" {
			continue
		}
		c := r.Jobs[s.Job-1]
		d := ck.tempDir("cli")
		cd, h := filepath.Join(d, "case"), filepath.Join(d, "home")
		writeTree(cd, r.tree(c))
		writeTree(h, homeOf(s))
		must(os.MkdirAll(filepath.Join(cd, c.Cwd), 0755))
		must(os.MkdirAll(filepath.Join(h, ".config/yisp"), 0755))
		must(os.WriteFile(filepath.Join(h, ".config/yisp/config.yaml"), []byte("AllowedGoPkgs: []\n"), 0644))
		args := []string{"build", rel(orDot(c.Cwd), c.Main)}
		if c.Untyped {
			args = append(args, "--allow-untyped-manifest")
		}
		if c.NoCheck {
			args = append(args, "--disable-type-check")
		}
		switch s.Kind {
		case "special":
			args = append(args, "--render-special-objects")
		case "sources":
			args = append(args, "--enable-sourcemap")
		}
		before := stamps(d)
		x := ck.cli(CLI{Dir: filepath.Join(cd, c.Cwd), Home: h, Path: ck.binDir()}, args...)
		w := WRes{S: "ok", Text: strings.TrimSuffix(x.Out, "\n"), Same: true}
		if x.Exit != 0 {
			w = WRes{S: "err"}
			if x.Exit != 1 {
				w.S = fmt.Sprintf("exit %d", x.Exit)
			}
		}
		same := fmt.Sprint(before) == fmt.Sprint(stamps(d))
		note(i, w.Text, cd, observe([]WRes{w}, 1)[0], same)
		os.RemoveAll(d)
	}
	return obs
}

func (ck *Check) repeats(g *G, hs []*Repeats) {
	obs := make([][]repeatObs, len(hs))
	gs := make([]*G, len(hs))
	for i := range hs {
		gs[i] = &G{r: ck.rng(fmt.Sprintf("mix%d/%d", ck.Traces, i)), p: g.p}
	}
	parallel(len(hs), func(i int) { obs[i] = ck.repeat(gs[i], hs[i]) })
	recs := make([]map[string]any, len(hs))
	for i, h := range hs {
		jobs := []any{}
		for j, c := range h.Jobs {
			var of []Obs
			for k, s := range h.Steps {
				if s.Job == j+1 {
					of = append(of, obs[i][k].Obs)
				}
			}
			rec := c.record(of) // replaces what is too deep
			delete(rec, "obs")
			jobs = append(jobs, rec)
			n := 0
			for k, s := range h.Steps {
				if s.Job == j+1 {
					obs[i][k].Obs = of[n]
					n++
				}
			}
		}
		recs[i] = map[string]any{"id": i, "jobs": jobs, "steps": h.Steps, "obs": obs[i]}
	}
	mis, done := ck.judge("TraceRepeat", recs, func(i int) int { return len(hs[i].Steps) + 1 })
	ck.mu.Lock()
	ck.Traces += len(done)
	for _, h := range hs {
		n, _ := ck.Info["evaluations"].(int)
		ck.Info["evaluations"] = n + len(h.Steps)
	}
	ck.mu.Unlock()
	for i, h := range hs {
		if i < 2 {
			ck.sample(map[string]any{"programs": len(h.Jobs), "evaluations": h.Steps, "first": h.Jobs[0].prefix(len(h.Jobs[0].Docs))})
		}
	}
	for _, m := range mis {
		h := hs[m.ID]
		var l []string
		for k, s := range h.Steps[:m.Step] {
			l = append(l, fmt.Sprintf("%d: program %d %s by %s keep=%v mixed=%v -> %s %s", k+1, s.Job, s.Kind, s.Proc, s.Keep, s.Mixed, obs[m.ID][k].S, obs[m.ID][k].Bytes))
		}
		s := h.Steps[m.Step-1]
		got, _ := json.Marshal(obs[m.ID][m.Step-1])
		var progs []any
		for _, c := range h.Jobs {
			progs = append(progs, map[string]any{"main": c.Main, "cwd": c.Cwd, "files": h.tree(c), "home": c.Schemas.home(), "untyped": c.Untyped, "nocheck": c.NoCheck, "bindings": c.Pre})
		}
		c := h.Jobs[s.Job-1]
		ck.violation(fmt.Sprintf("evaluation %d of\n%s\nprogram %d:\n%s\nexpected %s\nobserved %s", m.Step, strings.Join(l, "\n"), s.Job, c.prefix(len(c.Docs)), m.Expected, got),
			map[string]any{"programs": progs, "steps": h.Steps[:m.Step], "expected": m.Expected, "observed": obs[m.ID][:m.Step], "program": c.prefix(len(c.Docs))})
	}
}

// oddCalls calls operators with values of any kind: whatever comes of it, it always does
func oddCalls(g *G, c *Case) {
	c.Docs = []*N{typeDoc("T", g.schemaOf(&SchemaGen{Defaults: 0.3, Ap: 0.3, Req: 0.2}, oneOf(g, "object", "array", "string"), 2)),
		call("??", nNull(), lam([]string{"x", "y"}, oneOf(g, nSym("x"), call("??", nSym("y"), nSym("x"))))).tag("!yisp").anchor("f")}
	var any func(d int) *N
	any = func(d int) *N {
		switch g.n(9) {
		case 0:
			return nSym("T")
		case 1:
			return nSym("f")
		case 2, 3:
			l := nSeq()
			for i, k := 0, g.n(4); i < k; i++ {
				l.Items = append(l.Items, any(d-1))
			}
			return quote(l)
		case 4, 5:
			m := nMap()
			for _, k := range g.keys(g.n(4)) {
				m.Pairs = append(m.Pairs, kv(k, any(d-1)))
			}
			return m
		}
		if d <= 0 {
			return nInt(1)
		}
		return oneOf(g, nStr("%v"), nStr("a b"), nNull(), nInt(3), nFloat(1.5), nBool(true), g.strLit())
	}
	for i, k := 0, 1+g.n(4); i < k; i++ {
		var d *N
		switch g.n(5) {
		case 0, 1:
			f, as := "", []*N{}
			for i, k := 0, 1+g.n(3); i < k; i++ {
				f += oneOf(g, "%v", "%v", "%s", "%d", "%q", "%x", "%p", "%T", "%+v", "%#v", "%t", "%5v", "%c", "%U", "%g") + oneOf(g, "", " ")
				as = append(as, any(2))
			}
			d = call("strings.format", append([]*N{nStr(f)}, as...)...)
		case 2:
			d = call("strings.quote", any(2))
		case 3:
			d = call(oneOf(g, "types.get", "types.of", "lists.flatten", "maps.merge", "lists.as-toplevel", "??", "progn", "not"), any(2))
		default:
			d = call(oneOf(g, "==", "!=", "lists.contains", "maps.merge", "lists.cons", "pipeline", "lists.map", "and", "types.assert"), any(2), any(2))
		}
		c.Docs = append(c.Docs, d.tag("!yisp"))
	}
}

func init() {
	checks["C18"] = func(ck *Check) {
		p := baseProfile()
		p.Docs, p.Anchor, p.Err = [2]int{1, 4}, 0.2, 0.01
		p.Keys = append(append([]string{}, p.Keys...), "e1", "e2", "e3", "e4", "e5", "e6")
		small := p
		small.Names = []string{"a", "b", "f", "m", "x"}
		small.Keys = []string{"a", "b", "m", "x", "name"}
		small.Depth, small.Anchor, small.Ref, small.Comments, small.Err = 3, 0.25, 0.4, 0, 0.004
		w := Loads{Import: 5, Include: 5, Read: 2, Glob: 2, Fn: 4, Spy: 1, Kinds: []string{"yisp", "yisp", "data", "data", "text"}, Files: [2]int{1, 4}, Per: [2]int{1, 3}, Own: [2]int{0, 2}}
		r := ck.rng("histories")
		job := func() *Case {
			c := newCase(ck.Prop, 0)
			g := &G{r: r, p: p, c: c}
			switch g.n(16) {
			case 14, 15:
				oddCalls(g, c)
			case 0, 1:
				g.program(c)
			case 2, 3:
				g.p = small
				g.project(c, w)
			case 4:
				casts(g, c)
			case 11, 12: // much to fill in
				g.p.Err = 0
				sg := &SchemaGen{Defaults: 0.9, Ap: 0.3, Req: 0.02}
				if g.ch(0.5) {
					c.Schemas = g.universe(*sg, false)
					sg.Refs = []string{"Alpha", "Beta"}
				}
				s := nMap(kv("type", nStr("object")), kv("properties", nMap()))
				for i, k := range g.keys(3 + g.n(4)) {
					f := g.schemaOf(sg, oneOf(g, "integer", "string", "object", "boolean", "array"), 2)
					if d := g.conforming(f, sg, 2); d != nil && field(f, "default") == nil && i > 0 {
						f.Pairs = append(f.Pairs, kv("default", protect(d)))
					}
					s.Pairs[1].V.Pairs = append(s.Pairs[1].V.Pairs, kv(k, f))
				}
				c.Docs = []*N{typeDoc("T", s), typed("T", nMap()), nSeq(typed("T", nMap()), typed("T", nMap()))}
			case 13, 5:
				manifests(g, c)
			case 6:
				g.p.Err = 0
				k8sPatches(g, c)
			case 7:
				mergeProgram(g, c)
			case 8: // values given from outside
				v, s := g.data("map", 4)
				c.Pre, c.PreT = []Pair{kv("given", byName(jsonSafe(v)))}, false
				g.vars = []Var{{"given", s, false}}
				g.program(c)
				c.Docs = append(c.Docs, nSym("given"))
			case 9:
				g.p.Err = 0.15
				g.program(c)
			case 10:
				g.p.Keys = []string{"a", "b", "c", "name", "k1"}
				g.p.Err = 0
				aliasing(g, c)
			}
			c.write(g.emitter())
			return c
		}
		for left := ck.scale(450, 8000); left > 0; left -= 1500 {
			var hs []*Repeats
			for i := 0; i < min(left, 1500); i++ {
				h := &Repeats{}
				for j, k := 0, 1+r.Intn(3); j < k; j++ {
					h.Jobs = append(h.Jobs, job())
				}
				g := &G{r: r, p: p}
				kinds := []string{"yaml", "yaml", oneOf(g, "yaml", "sources", "special", "native", "trace")}
				for j, k := 0, 5+r.Intn(5); j < k; j++ {
					s := &RStep{Job: 1 + r.Intn(len(h.Jobs)), Kind: kinds[r.Intn(3)], Proc: oneOf(g, "a", "a", "a", "b"), Keep: g.ch(0.5), Mixed: g.ch(0.4)}
					if s.Kind == "native" && len(h.Jobs[s.Job-1].Pre) > 0 {
						s.Kind = "yaml"
					}
					if g.ch(0.08) && len(h.Jobs[s.Job-1].Pre) == 0 && s.Kind != "native" && s.Kind != "trace" && s.Kind != "sources" {
						s.Proc, s.Keep = "tool", false
					}
					h.Steps = append(h.Steps, s)
				}
				hs = append(hs, h)
			}
			ck.repeats(&G{r: r, p: p}, hs)
		}
	}
}
