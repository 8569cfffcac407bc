package main

// Histories made by TLC: MC_Tool explores the tool's state machine over a
// small alphabet, checks its properties and prints a history for every step
// from every state; each is run with the real tool and judged by TraceTool.

import (
	"encoding/json"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
)

var histRe = regexp.MustCompile(`(?m)^<<"HIST", "\[([0-9,]+)\]">>`)

// explore runs the histories over an alphabet, which is made anew, for its
// own addresses, for every history
func (ck *Check) explore(srv *server, longest int, alphabet func(id int) []*TStep) {
	steps := []any{}
	for _, s := range alphabet(0) {
		steps = append(steps, s.record(srv, 0, &toolObs{}))
	}
	all := ck.behaviours("MC_Tool", map[string]any{"steps": steps, "longest": longest})
	var hs []*Tool
	for _, h := range all {
		ck.hid++
		a := alphabet(ck.hid)
		t := &Tool{ID: ck.hid}
		for _, i := range h {
			t.Steps = append(t.Steps, a[i-1])
		}
		hs = append(hs, t)
	}
	for c := range slices.Chunk(hs, 2000) {
		ck.histories(srv, c)
	}
}

// behaviours has TLC explore a module and returns the histories it printed,
// without those that are part of longer ones
func (ck *Check) behaviours(module string, rec map[string]any) (hs [][]int) {
	b, err := json.Marshal(rec)
	must(err)
	file := filepath.Join(ck.Dir, "alphabet.ndjson")
	must(os.WriteFile(file, append(b, '\n'), 0644))
	o := ck.tlc(module, module+".cfg", []string{"CASES=" + file}, 1, "6g")
	if !o.OK {
		ck.broken("%s: %s", module, tail(o.Out, 3000))
		return
	}
	var all [][]int
	inner := map[string]bool{}
	for _, m := range histRe.FindAllStringSubmatch(o.Out, -1) {
		var h []int
		must(json.Unmarshal([]byte("["+m[1]+"]"), &h))
		all = append(all, h)
		for i := 1; i < len(h); i++ {
			inner[joinInts(h[:i])] = true
		}
	}
	for _, h := range all {
		if !inner[joinInts(h)] {
			hs = append(hs, h)
		}
	}
	ck.States += o.Distinct
	ck.Transitions += o.Generated
	ck.Info["explored_states"] = o.Distinct + num(ck.Info["explored_states"])
	ck.Info["explored_transitions"] = len(all) + num(ck.Info["explored_transitions"])
	ck.Info["behaviours_from_the_specification"] = len(hs) + num(ck.Info["behaviours_from_the_specification"])
	return
}
func num(v any) int { n, _ := v.(int); return n }
func joinInts(l []int) string {
	s := ""
	for _, i := range l {
		s += strconv.Itoa(i) + ","
	}
	return s
}

func (ck *Check) fixed(docs ...*N) *Case {
	c := newCase(ck.Prop, 0)
	c.Final, c.Docs = true, docs
	c.write((&G{r: ck.rng("fixed"), p: baseProfile()}).emitter())
	return c
}
func goExec(pkg string) *N {
	return yispT(call("exec.go", nMap(kv("pkg", nStr(pkg)), kv("args", quote(nSeq(nStr("out")))))))
}

func (ck *Check) allowAlphabet(id int) []*TStep {
	a := []*TStep{
		{Op: "allow", Pkg: "a/x"}, {Op: "allow", Pkg: "a/*"}, {Op: "allow", Pkg: "a/x", Cfg: "c.yaml"}, {Op: "allow", Pkg: "n", Nowrite: true},
		{Op: "build", Case: ck.fixed(goExec("a/x"))}, {Op: "build", Case: ck.fixed(goExec("a/y"))}, {Op: "build", Case: ck.fixed(goExec("a/x")), Cfg: "c.yaml"},
		{Op: "edit", To: []any{"bad", "x: ["}, Text: "x: ["}, {Op: "edit", To: []any{"list", []any{"a/y"}, `{"more":{"k":[1]}}`}, Text: "more:\n  k: [1]\nallowedGoPkgs: [a/y]\n"},
		{Op: "other", OK: "err", Args: []string{"build", "none.yisp"}},
	}
	if ck.thorough() {
		a = append(a, &TStep{Op: "edit", To: []any{"none"}}, &TStep{Op: "edit", To: []any{"nodir"}, Cfg: "s/c.yaml"}, &TStep{Op: "allow", Pkg: "a/x", Cfg: "s/c.yaml"},
			&TStep{Op: "edit", To: []any{"bad", "dir"}, Text: "dir", Cfg: "c.yaml"}, &TStep{Op: "other", OK: "ok", Args: []string{"version"}},
			&TStep{Op: "other", OK: "err", Args: []string{"krm"}, Input: "{"}, &TStep{Op: "cache", Kubectl: "x"})
	}
	return a
}

func objOf(ps ...Pair) *N {
	return nMap(kv("type", nStr("object")), kv("properties", nMap(ps...)))
}
func typeOf(t string) *N { return nMap(kv("type", nStr(t))) }

func (ck *Check) urlAlphabet(srv *server) func(id int) []*TStep {
	return func(id int) []*TStep {
		any := typeOf("any")
		v1, v2 := objOf(kv("$schema", any), kv("v", typeOf("integer"))), objOf(kv("$schema", any), kv("v", typeOf("string")))
		doc := func(n string, v *N) *N { return nMap(kv("$schema", nStr(srv.url(id, n))), kv("v", v)) }
		as := func(a, b string) map[string]*Answer {
			one := func(k string) *Answer {
				switch k {
				case "1":
					return &Answer{Kind: "ok", Schema: v1}
				case "2":
					return &Answer{Kind: "ok", Schema: v2}
				}
				return &Answer{Kind: k, Schema: v1}
			}
			return map[string]*Answer{"a": one(a), "b": one(b)}
		}
		a := []*TStep{
			{Op: "build", Case: ck.fixed(doc("a", nInt(1))), Server: as("1", "1")}, {Op: "build", Case: ck.fixed(doc("a", nStr("x"))), Server: as("2", "2")},
			{Op: "build", Case: ck.fixed(doc("a", nInt(1))), Server: as("500", "1")}, {Op: "build", Case: ck.fixed(doc("b", nInt(1)), doc("a", nInt(1))), Server: as("cut", "1")},
			{Op: "build", Case: ck.fixed(doc("b", nStr("y"))), Server: as("404", "2")}, {Op: "build", Case: ck.fixed(doc("a", nInt(1)), doc("b", nInt(2))), Server: as("drop", "drop")},
			{Op: "build", Case: ck.fixed(doc("a", nInt(1))), Server: as("1", "1"), Nowrite: true}, {Op: "build", Case: ck.fixed(doc("a", nInt(1))), Server: as("1", "1"), Dir: "d"},
			{Op: "kill", Case: ck.fixed(doc("a", nInt(1))), Server: as("stall", "1")},
			{Op: "build", Case: ck.fixed(doc("a", nStr("z"))), Server: as("2", "1"), Dir: "d"},
		}
		if ck.thorough() {
			p, q := ck.fixed(doc("a", nInt(1)), doc("b", nInt(1))), ck.fixed(doc("b", nInt(1)), doc("a", nInt(1)))
			p.Main, q.Main = "p.yisp", "q.yisp"
			slow := as("1", "1")
			slow["a"].Slow, slow["b"].Slow = true, true
			a = append(a, &TStep{Op: "build", Case: ck.fixed(doc("a", nInt(1)), doc("a", nInt(2))), Server: as("redirect", "garbage")},
				&TStep{Op: "build", Case: ck.fixed(doc("b", nInt(1))), Server: as("1", "1"), Dir: "d"}, &TStep{Op: "build", Case: ck.fixed(doc("a", nStr("z"))), Server: as("garbage", "1"), Dir: "d"},
				&TStep{Op: "par", Cases: []*Case{p, q}, Server: slow}, &TStep{Op: "allow", Pkg: "p"})
		}
		return a
	}
}

func (ck *Check) kubeAlphabet(id int) []*TStep {
	g := &G{r: ck.rng("kube"), p: baseProfile()}
	txt := typeOf("string")
	head := []Pair{kv("apiVersion", txt), kv("kind", txt)}
	k := func(ps ...Pair) *N { return objOf(append(append([]Pair{}, head...), ps...)...) }
	u1 := &Universe{Schemas: map[string]*N{"io.A": k(kv("v", typeOf("integer")), kv("r", nMap(kv("$ref", nStr("#/definitions/io.R"))))), "io.R": typeOf("integer"), "io.B": k(kv("v", typeOf("integer")))},
		GVK: map[string]string{"_v1_A": "io.A", "g_v1_A": "io.A", "g_v1_B": "io.B"}}
	u2 := &Universe{Schemas: map[string]*N{"io.A2": k(kv("v", txt), kv("r", nMap(kv("$ref", nStr("#/definitions/io.R"))))), "io.R": txt, "io.C": k(kv("v", txt))},
		GVK: map[string]string{"_v1_A": "io.A2", "g_v1_C": "io.C"}}
	m := func(api, kind string, ps ...Pair) *N {
		return nMap(append([]Pair{kv("apiVersion", nStr(api)), kv("kind", nStr(kind))}, ps...)...)
	}
	build := func(dir string, m *N) *TStep {
		c := ck.fixed(m)
		return &TStep{Op: "build", Case: c, Dir: dir}
	}
	t1, t2 := g.cluster(u1, 0), g.cluster(u2, 0)
	a := []*TStep{
		{Op: "cache", Confirm: true, Cluster: u1, Kubectl: t1}, {Op: "cache", Confirm: true, Cluster: u2, Kubectl: t2}, {Op: "cache", Confirm: true, Cluster: u1, Kubectl: t1, Dir: "d"},
		{Op: "cache", Confirm: false, Cluster: u1, Kubectl: t1}, {Op: "cache", Confirm: true, Kubectl: t2, KFail: true}, {Op: "cache", Confirm: true, Kubectl: t1[:len(t1)-1]},
		build("", m("v1", "A", kv("v", nInt(1)), kv("r", nInt(1)))), build("", m("v1", "A", kv("v", nStr("s")), kv("r", nStr("s")))),
		build("", m("g/v1", "B", kv("v", nInt(1)))), build("", m("g/v1", "C", kv("v", nStr("s")))), build("d", m("g/v1", "A", kv("r", nInt(1)))), build("d", m("v1", "D")),
	}
	if ck.thorough() {
		a = append(a, &TStep{Op: "cache", Confirm: true, Cluster: u2, Kubectl: t2, Dir: "d"}, &TStep{Op: "cache", Confirm: true, Cluster: u2, Kubectl: t2, Nowrite: true},
			build("", m("g/v1", "A", kv("v", nInt(1)))), build("", m("v1", "A", kv("r", nFloat(1.5)))), build("", m("g/v1", "D")), build("d", m("g/v1", "C", kv("v", nInt(3)))))
	}
	return a
}

// everything together, where the parts might touch one another
func (ck *Check) wholeAlphabet(srv *server) func(id int) []*TStep {
	return func(id int) []*TStep {
		u, k, al := ck.urlAlphabet(srv)(id), ck.kubeAlphabet(id), ck.allowAlphabet(id)
		return []*TStep{u[0], u[1], u[2], k[0], k[1], k[4], k[6], k[7], al[0], al[4], al[7], al[8], al[9]}
	}
}

// exploreSession runs a program for every step of the session over the
// documents of base
func (ck *Check) exploreSession(depth int, base func() *Case) {
	c := base()
	e := (&G{r: ck.rng("alphabet"), p: baseProfile()}).emitter()
	c.write(e)
	rec := c.record([]Obs{})
	rec["depth"] = depth
	var cases []*Case
	for _, h := range ck.behaviours("MC_Session", rec) {
		x := *c
		x.Docs, x.Texts = nil, nil
		for _, i := range h {
			x.Docs = append(x.Docs, c.Docs[i-1])
			x.Texts = append(x.Texts, c.Texts[i-1])
		}
		cases = append(cases, &x)
	}
	for b := range slices.Chunk(cases, 12000) {
		ck.sessions(b)
	}
}

func (ck *Check) scopeAlphabet() *Case {
	c := newCase(ck.Prop, 0)
	x := func() *N { return nSym("x") }
	c.Docs = []*N{
		nInt(1).anchor("x"), nMap(kv("a", nMap(kv("b", nInt(2))))).anchor("x"),
		yispT(lam(nil, x())).anchor("f"), yispT(lam([]string{"x"}, x())).anchor("f"),
		yispT(lam([]string{"x"}, nSeq(nSym("f")))).anchor("g"), yispT(lam([]string{"x"}, lam(nil, x()))).anchor("g"),
		yispT(lam(nil, nInt(9).anchor("x"))).anchor("g"), yispT(lam([]string{"f"}, nSeq(nSym("f"), nInt(5)))).anchor("h"),
		yispT(nSeq(nSym("g"), nInt(7))).anchor("f"),
		quote(nSeq(x(), nInt(3).anchor("x"), x())), yispT(nSeq(nSym("f"))), yispT(nSeq(nSym("f"), nInt(4))), yispT(nSeq(nSym("h"), nSym("f"))),
		yispT(nSeq(nSym("g"), nInt(6))), quote(nSeq(nSym("x.a.b"), nSym("x.a.c?"))), nSym("x?"), also(x(), "y"), nSym("y?"),
	}
	return c
}

func (ck *Check) moduleAlphabet() *Case {
	c := newCase(ck.Prop, 0)
	imp := func(as, file string) *N { return yispT(nSeq(nStr("import"), nSeq(nStr(as), nStr(file)))) }
	c.Files["m.yisp"] = &File{Kind: "yisp", Docs: []*N{nInt(10).anchor("x"), yispT(lam(nil, nSym("x"))).anchor("f"), yispT(lam([]string{"y"}, nSeq(nSym("y")))).anchor("ap")}}
	c.Files["n.yisp"] = &File{Kind: "yisp", Docs: []*N{imp("k", "m.yisp"), nInt(20).anchor("x"), also(nSym("k.f"), "f"), quote(nSeq(nSym("x"), nSym("k.x")))}}
	c.Files["o.yisp"] = &File{Kind: "yisp", Docs: []*N{nSym("x?"), nSym("k?")}}
	c.Docs = []*N{
		nInt(1).anchor("x"), imp("k", "m.yisp"), imp("k", "n.yisp"), imp("x", "o.yisp"), yispT(call("include", nStr("n.yisp"))), yispT(call("include", nStr("o.yisp"))), yispT(call("include", nStr("m.yisp"))).anchor("x"),
		yispT(lam(nil, nSym("x"))).anchor("f"), also(nSym("k.f"), "f"), nSym("x?"), nSym("k.x"), nSym("k.k?.x?"), yispT(nSeq(nSym("f"))), yispT(nSeq(nSym("k.f"))), yispT(nSeq(nSym("k.ap"), nSym("f"))), also(nSym("k.k"), "k"),
	}
	return c
}

func (ck *Check) sharingAlphabet() *Case {
	c := newCase(ck.Prop, 0)
	a, b := func() *N { return nSym("a") }, func() *N { return nSym("b?") }
	op := func(op string, path string, v *N) *N {
		return nMap(kv("op", nStr(op)), kv("path", nStr(path)), kv("value", v))
	}
	sch := nMap(kv("type", nStr("object")), kv("additionalProperties", nBool(true)), kv("properties", nMap(
		kv("l", nMap(kv("type", nStr("array")), kv("patchStrategy", nStr("merge")), kv("patchMergeKey", nStr("k")), kv("items", nMap(kv("type", nStr("object")), kv("additionalProperties", nBool(true)))))),
		kv("d", nMap(kv("type", nStr("integer")), kv("default", nInt(4)))))))
	l := func(k, v int64) *N { return nMap(kv("k", nInt(k)), kv("v", nInt(v))) }
	man := func(ps ...Pair) *N {
		return nMap(append([]Pair{kv("apiVersion", nStr("v1")), kv("kind", nStr("T")), kv("metadata", nMap(kv("name", nStr("n"))))}, ps...)...)
	}
	c.Untyped = true
	c.Docs = []*N{
		yispT(call("schema", protect(sch))).anchor("t"), man(kv("m", nMap(kv("p", nInt(1)))), kv("l", nSeq(l(1, 1)))).anchor("a"), man(kv("l", nSeq(l(1, 2), l(2, 2)))).tag("!t").anchor("a"),
		also(a(), "b"), quote(nSeq(a(), a())).anchor("b"), nMap(kv("<<", a()), kv("extra", a())).anchor("b"),
		yispT(call("maps.merge", a(), quote(man(kv("l", nSeq(l(1, 9))))))).anchor("b"), yispT(call("maps.merge", quote(man(kv("l", nSeq(l(1, 7), l(3, 7))))), a())).anchor("a"),
		yispT(call("maps.patch", quote(man(kv("m", nMap()), kv("l", nSeq()))), quote(nSeq(op("replace", "/m", a()), op("add", "/m", nMap(kv("q", nInt(5)))), op("add", "/l/-", l(4, 4)))))),
		yispT(call("k8s.patch", quote(nSeq(a(), a())), quote(nSeq(man(kv("m", nMap(kv("z", nInt(8)))), kv("l", nSeq(l(1, 6)))))))).anchor("b"),
		yispT(call("maps.patch", quote(nMap(kv("x", nMap()), kv("y", nMap()))), quote(nSeq(op("add", "/x/s", a()), op("add", "/y/s", a()), op("add", "/x/s/m", nInt(0)))))).anchor("b"),
		yispT(call("lists.map", call("lists.cons", a(), quote(nSeq(a()))), lam([]string{"i"}, call("maps.merge", nSym("i"), quote(nMap(kv("m", nMap(kv("w", nInt(3)))))))))).anchor("c"),
		a(), b(), nSym("c?"),
	}
	return c
}

// also gives a value another name
func also(n *N, name string) *N { return yispT(call("progn", n)).anchor(name) }

// laws has TLC check that the operators of the specification are the ones
// meant: their laws, over all combinations of values from small universes
func (ck *Check) laws(sections ...string) {
	for _, s := range sections {
		o := ck.tlc("MC_Laws", "MC_Laws.cfg", []string{"LAWS=" + s}, 8, "6g")
		if !o.OK {
			ck.broken("MC_Laws, %s: %s", s, tail(o.Out, 3000))
			return
		}
		ck.States += o.Distinct
		ck.Transitions += o.Generated
		ck.Info["law_combinations_"+s] = o.Distinct
	}
}
