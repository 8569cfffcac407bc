package main

// Programs about schemas, manifests and patches.

import (
	"fmt"
	"slices"
)

func typeDoc(name string, s *N) *N {
	return yispT(nSeq(nStr("schema"), protect(s.clone()))).anchor(name)
}

// withSeq tags a value with a type (a call must be evaluated first)
func typed(t string, v *N) *N { return v.tag("!" + t) }

// a value that v is checked or cast to, in every way the language has
func (g *G) checked(t string, v *N, onlyCast bool) *N {
	bare := v.clone()
	e := protect(v.clone())
	k := g.n(9)
	if onlyCast {
		k = g.n(4)
	}
	if k == 8 && v.K == "map" { // a value of the type, changed since
		ch := nMap(kv("op", nStr("add")), kv("path", nStr("/"+g.of(skeys))), kv("value", g.data1(1)))
		if len(v.Pairs) > 0 && g.ch(0.5) {
			ch = nMap(kv("op", nStr("remove")), kv("path", nStr("/"+ptrEsc(v.Pairs[g.n(len(v.Pairs))].Key))))
		}
		e = call("maps.patch", typed(t, bare), quote(nSeq(ch)))
		k = 4 + g.n(4)
		if k == 7 {
			k = 6
		}
	}
	switch k {
	case 0, 1: // written with the type as its tag, as data
		return typed(t, bare)
	case 2: // a computed value
		return yispT(call("progn", typed(t, call("progn", e))))
	case 3: // a map entry
		return nMap(kv("m", typed(t, bare)))
	case 4, 5:
		return yispT(call("types.assert", nSym(t), e))
	case 6: // a typed parameter
		return yispT(nSeq(nSeq(nStr("lambda"), nSeq(nStr("p").tag("!"+t)), nSym("p")), e))
	}
	return yispT(call("lists.map", quote(nSeq(v.clone())), nSeq(nStr("lambda"), nSeq(nStr("p").tag("!"+t)), nSym("p"))))
}

func (g *G) lambdaFor(s *N) *N {
	ps := nSeq()
	if as := field(s, "arguments"); as != nil {
		for i := range as.Items {
			p := nStr(fmt.Sprintf("a%d", i))
			if t := fmt.Sprintf("A%d", i); g.ch(0.8) && g.bound[t] {
				p.Tag = "!" + t
			} else if g.ch(0.6) {
				p.Tag = oneOf(g, "!int", "!string", "!bool", "!string", "!int", "!float")
				if x := field(as.Items[i], "type"); x != nil && g.ch(0.7) {
					if t, ok := map[string]string{"integer": "!int", "string": "!string", "boolean": "!bool"}[x.S]; ok {
						p.Tag = t
					}
				}
			}
			ps.Items = append(ps.Items, p)
		}
	}
	if g.ch(0.15) {
		ps.Items = append(ps.Items, nStr("more"))
	}
	if g.bound["R"] && g.ch(0.7) {
		ps.Tag = "!R"
	} else if g.ch(0.5) {
		ps.Tag = oneOf(g, "!int", "!string")
	}
	return nSeq(nStr("lambda"), ps, nInt(1))
}

// typed maps with lists in them, merged, patched and looked at again
func typedMerges(g *G, c *Case, n int) {
	sg := &SchemaGen{Strategy: 0.7, Defaults: 0.2, Ap: 0.3, Req: 0.1}
	c.Schemas = g.universe(*sg, false)
	sg.Refs = nil
	for id := range c.Schemas.Schemas {
		if id == "Alpha" {
			sg.Refs = []string{"Alpha"}
		}
	}
	s := g.schemaOf(sg, "object", 3)
	c.Docs = append(c.Docs, typeDoc("T", s))
	var names []string
	for i, k := 0, 2+g.n(2); i < k; i++ {
		v := g.conforming(s, sg, 3)
		if v == nil || v.K != "map" {
			v = nMap()
		}
		a := fmt.Sprintf("v%d", i)
		if g.ch(0.75) {
			v = typed("T", v)
		}
		names = append(names, a)
		c.Docs = append(c.Docs, v.anchor(a))
	}
	for i, k := 0, 1+g.n(n); i < k; i++ {
		m := call("maps.merge")
		for j, k := 0, 1+g.n(3); j < k; j++ {
			m.Items = append(m.Items, nSym(g.of(names)))
		}
		m.Tag = "!yisp"
		if g.ch(0.5) {
			a := fmt.Sprintf("r%d", i)
			m.Anchor = a
			names = append(names, a)
		}
		c.Docs = append(c.Docs, m)
	}
	all := nSeq()
	for _, a := range names {
		all.Items = append(all.Items, nSym(a))
	}
	c.Docs = append(c.Docs, all)
}

// ---- manifests

var kinds = []struct{ av, kind, gvk string }{{"apps/v1", "Deployment", "apps_v1_Deployment"}, {"v1", "Service", "_v1_Service"}, {"x.io/v1beta1", "Thing", "x.io_v1beta1_Thing"}, {"Acme.IO/v1", "Thing", "Acme.IO_v1_Thing"}}

func (g *G) manifest(c *Case, sg *SchemaGen, exact bool) *N {
	k := kinds[g.n(len(kinds))]
	if !exact && g.ch(0.06) {
		k.kind += "x"
		k.gvk = ""
	}
	var s *N
	if c.Schemas != nil {
		s = c.Schemas.Schemas[c.Schemas.GVK[k.gvk]]
	}
	m := nMap()
	if s != nil {
		if v := g.conforming(s, sg, 3); v != nil && v.K == "map" {
			for _, p := range v.Pairs {
				if p.Key != "apiVersion" && p.Key != "kind" && p.Key != "metadata" && p.Key != "q" && p.Key != "extra" {
					m.Pairs = append(m.Pairs, p)
				}
			}
		}
	} else {
		m, _ = g.data("map", 2)
		m.Anchor = ""
	}
	md := nMap()
	if g.ch(0.95) {
		md.Pairs = append(md.Pairs, kv("name", nStr(oneOf(g, "a", "a", "b", "a-b"))))
	}
	if g.ch(0.4) {
		md.Pairs = append(md.Pairs, kv("namespace", nStr(oneOf(g, "n", "n", "m", "", "b-n", "default", "default"))))
	}
	if g.ch(0.1) {
		md.Pairs = append(md.Pairs, kv("labels", nMap(kv(oneOf(g, "x", "y"), nStr("1")))))
	}
	if g.ch(0.03) {
		md = oneOf(g, nNull(), nStr("x"), nSeq())
	}
	head := []Pair{kv("apiVersion", nStr(k.av)), kv("kind", nStr(k.kind))}
	if g.ch(0.03) {
		head[g.n(2)].V = oneOf(g, nInt(1), nNull(), nStr(""), nStr("a/b/c"))
	} else if g.ch(0.04) { // nearly the same kind
		head[0].V = nStr(oneOf(g, k.av+"/x", k.av+"/", "/"+k.av, "x/"+k.av, k.av+" ", "apps/"+k.av))
	}
	if g.ch(0.97) {
		head = append(head, kv("metadata", md))
	}
	m.Pairs = append(head, m.Pairs...)
	if g.ch(0.1) {
		g.r.Shuffle(len(m.Pairs), func(i, j int) { m.Pairs[i], m.Pairs[j] = m.Pairs[j], m.Pairs[i] })
	}
	return m
}

func k8sPatches(g *G, c *Case) {
	sg := &SchemaGen{Strategy: 0.8, Ap: 0.2, Req: 0.03}
	c.Schemas = g.universe(*sg, false)
	c.Untyped = g.ch(0.3)
	c.NoCheck = g.ch(0.5)
	ts, ps := nSeq(), nSeq()
	for i, k := 0, 1+g.n(4); i < k; i++ {
		ts.Items = append(ts.Items, g.manifest(c, sg, !g.ch(0.05)))
	}
	for i, k := 0, oneOf(g, 0, 1, 1, 2, 2, 3); i < k; i++ {
		m := g.manifest(c, sg, !g.ch(0.05))
		if g.ch(0.75) { // aimed at one of the targets
			t := ts.Items[g.n(len(ts.Items))]
			n := nMap()
			for _, p := range t.Pairs {
				if p.Key == "apiVersion" || p.Key == "kind" || p.Key == "metadata" {
					n.Pairs = append(n.Pairs, Pair{p.Key, p.V.clone(), ""})
				}
			}
			if av, kd := field(t, "apiVersion"), field(t, "kind"); av != nil && kd != nil && c.Schemas != nil {
				for _, k := range kinds {
					if k.av == av.S && k.kind == kd.S {
						if s := c.Schemas.Schemas[c.Schemas.GVK[k.gvk]]; s != nil {
							if v := g.conforming(s, sg, 3); v != nil && v.K == "map" {
								for _, p := range v.Pairs {
									if field(n, p.Key) == nil {
										n.Pairs = append(n.Pairs, p)
									}
								}
							}
						}
					}
				}
			}
			m = n
		}
		ps.Items = append(ps.Items, m)
	}
	if g.ch(0.03) && len(ps.Items) > 0 {
		ps.Items[0] = oneOf(g, nNull(), nInt(1), nMap())
	}
	var first *N = quote(ts)
	if g.ch(0.7) {
		first = call("lists.as-toplevel", quote(ts))
	}
	c.Docs = append(c.Docs, yispT(call("progn", first)).anchor("targets"))
	c.Docs = append(c.Docs, ps.anchor("patches"))
	n := yispT(call("k8s.patch", nSym("targets"), nSym("patches"))).anchor("done")
	c.Docs = append(c.Docs, n)
	if g.ch(0.5) {
		c.Docs = append(c.Docs, yispT(call("k8s.patch", nSym(oneOf(g, "done", "targets")), nSym("patches"))))
	}
	c.Docs = append(c.Docs, nSym("targets"))
}

// ---- C10

func aliasing(g *G, c *Case) {
	sg := &SchemaGen{Strategy: 0.6, Defaults: 0.4, Ap: 0.4, Req: 0.05}
	c.Schemas = g.universe(*sg, false)
	c.NoCheck = g.ch(0.5)
	sg.Refs = []string{"Alpha"}
	s := g.schemaOf(sg, "object", 3)
	c.Docs = append(c.Docs, typeDoc("T", s))
	type val struct {
		name string
		n    *N // what it holds, if known
	}
	var vals []val
	add := func(n *N, v *N) {
		a := fmt.Sprintf("v%d", len(vals))
		n.Anchor = a
		vals = append(vals, val{a, v})
		c.Docs = append(c.Docs, n)
	}
	conf := func() *N {
		v := g.conforming(s, sg, 3)
		if v == nil || v.K != "map" {
			v = nMap()
		}
		return v
	}
	for i, k := 0, 2+g.n(2); i < k; i++ {
		switch g.n(5) {
		case 0:
			v := conf()
			add(typed("T", v.clone()), nil)
		case 1:
			v := conf()
			add(v.clone(), v)
		case 2:
			v, _ := g.data("map", 3)
			add(v.clone(), v)
		case 3:
			v, _ := g.data("list", 3)
			add(v.clone(), v)
		case 4:
			l := nSeq()
			for i, k := 0, 1+g.n(3); i < k; i++ {
				l.Items = append(l.Items, conf())
			}
			add(l.clone(), l)
		}
	}
	ref := func() *N { return nSym(vals[g.n(len(vals))].name) }
	for i, k := 0, 2+g.n(4); i < k; i++ {
		switch g.n(16) {
		case 14, 15: // what an operator makes is a new list or map, whatever is done to it
			v := vals[g.n(len(vals))]
			if v.n == nil {
				continue
			}
			val := oneOf(g, nInt(77), nMap(kv("new", nInt(1))))
			if v.n.K == "seq" {
				o := nMap(kv("op", nStr(oneOf(g, "replace", "add", "add"))), kv("path", nStr(oneOf(g, "/0", "/0", "/1", "/-"))), kv("value", val))
				if g.ch(0.25) {
					o = nMap(kv("op", nStr("remove")), kv("path", nStr("/0")))
				}
				x := nSym(v.name)
				t := oneOf(g, call("lists.cdr", x), call("lists.cdr", x), call("lists.cons", nInt(0), x), call("lists.flatten", x), call("lists.as-toplevel", x),
					call("lists.map", x, lam([]string{"x"}, nSym("x"))), call("lists.filter", x, lam([]string{"x"}, nBool(true))), call("lists.cdr", call("lists.cons", nInt(0), x)))
				if t.Items[0].S == "lists.as-toplevel" { // each document is patched
					continue
				}
				add(yispT(call("maps.patch", t, quote(nSeq(o, nMap(kv("op", nStr("add")), kv("path", nStr("/-")), kv("value", nInt(78))))))), nil)
			} else if v.n.K == "map" {
				o := nMap(kv("op", nStr("add")), kv("path", nStr("/"+oneOf(g, "zz", "a", "b"))), kv("value", val))
				x := nSym(v.name)
				t := oneOf(g, call("maps.merge", x, nMap(kv("m", nInt(1)))), call("maps.from-entries", call("maps.to-entries", x)), nMap(kv("<<", x)), nMap(kv("<<", x), kv("w", nInt(1))))
				add(yispT(call("maps.patch", t, quote(nSeq(o)))), nil)
			}
		case 0, 1:
			add(yispT(call("maps.merge", ref(), ref())), nil)
		case 2:
			add(yispT(call("progn", typed("T", call("progn", ref())))), nil)
		case 3: // values put into a patched value are copies
			t := nMap(kv("a", nMap()), kv("b", nMap()))
			ops := nSeq(nMap(kv("op", nStr("add")), kv("path", nStr(oneOf(g, "/*", "/a/x", "/*/y"))), kv("value", ref())),
				nMap(kv("op", nStr("add")), kv("path", nStr(oneOf(g, "/a/z", "/b/z"))), kv("value", nInt(1))))
			add(yispT(call("maps.patch", t, quote(ops))), nil)
		case 4:
			v := conf()
			var tgt *N = typed("T", v.clone())
			add(yispT(call("maps.patch", tgt, g.patch(nil, v, 2))), nil)
		case 5:
			add(nMap(kv("l", ref()), kv("r", ref()), kv("<<", nMap(kv("m", ref())))), nil)
		case 6:
			add(nSeq(ref(), ref(), ref()), nil)
		case 7:
			add(yispT(call(oneOf(g, "lists.cons", "lists.flatten", "lists.as-toplevel"), ref(), quote(nSeq(ref(), nInt(1))))), nil)
		case 8:
			add(yispT(call("lists.map", quote(nSeq(ref(), ref())), nSeq(nStr("lambda"), nSeq(nSym("x")), call("maps.merge", nMap(kv("n", nSym("x"))), nMap(kv("n", nMap(kv("added", nInt(1))))))))), nil)
		case 9:
			add(yispT(call("lists.reduce", quote(nSeq(ref(), ref(), ref())), nStr("maps.merge"))), nil)
		case 10:
			add(yispT(call("types.assert", nSym("T"), ref())), nil)
		case 11:
			add(nMap(kv("<<", ref()), kv("k1", nMap(kv("new", nInt(1)))), kv("a", nInt(7))), nil)
		case 12:
			add(yispT(call(oneOf(g, "maps.to-entries", "maps.values", "maps.keys"), ref())), nil)
		case 13:
			add(yispT(call(oneOf(g, "lists.cdr", "lists.car", "yaml.marshal"), ref())), nil)
		}
	}
	all := nSeq()
	for _, v := range vals {
		all.Items = append(all.Items, nSym(v.name))
	}
	c.Docs = append(c.Docs, all)
	for i, k := 0, 1+g.n(3); i < k; i++ { // as documents they are what they were, too
		c.Docs = append(c.Docs, ref())
	}
}

// ---- C13: fragments of schemas against values

func schemaSamples() (ss []*N, vs []*N) {
	ty := func(t string, ps ...Pair) *N { return nMap(append([]Pair{kv("type", nStr(t))}, ps...)...) }
	for _, t := range []string{"null", "boolean", "integer", "float", "string", "array", "object", "any", "function", "nosuch"} {
		ss = append(ss, ty(t))
	}
	nums := []*N{nInt(0), nInt(2), nInt(3), nFloat(2), nFloat(2.5), nInt(-2)}
	for _, t := range []string{"integer", "float"} {
		for _, b := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
			for _, v := range nums {
				ss = append(ss, ty(t, kv(b, v)))
			}
		}
		for _, m := range []int64{1, 2, 3} {
			ss = append(ss, ty(t, kv("multipleOf", nInt(m))))
		}
		ss = append(ss, ty(t, kv("minimum", nInt(1)), kv("maximum", nInt(3)), kv("multipleOf", nInt(2))))
	}
	for i := int64(0); i < 4; i++ {
		ss = append(ss, ty("string", kv("minLength", nInt(i))), ty("string", kv("maxLength", nInt(i))))
	}
	str, in, sn := ty("string"), ty("integer"), func(k string, v *N) *N { return nMap(kv(k, v)) }
	ss = append(ss, ty("string", kv("format", nStr("int-or-string"))), ty("string", kv("format", nStr("int-or-string")), kv("maxLength", nInt(1))), ty("string", kv("format", nStr("byte"))),
		ty("array", kv("items", in)), ty("array", kv("items", str)), ty("array", kv("items", ty("array", kv("items", in)))), ty("array", kv("items", ty("any"))),
		ty("object", kv("properties", sn("a", in))), ty("object", kv("properties", sn("a", str))), ty("object", kv("properties", sn("a", in)), kv("required", nSeq(nStr("a")))),
		ty("object", kv("properties", nMap(kv("a", in), kv("b", str))), kv("required", nSeq(nStr("b")))), ty("object", kv("required", nSeq(nStr("a")))),
		ty("object", kv("required", nSeq(nStr("a"))), kv("additionalProperties", nBool(true))), ty("object", kv("additionalProperties", nBool(true))), ty("object", kv("additionalProperties", nBool(false))), ty("object", kv("additionalProperties", in)),
		ty("object", kv("properties", sn("a", in)), kv("additionalProperties", str)), ty("object", kv("properties", sn("a", ty("object", kv("properties", sn("b", in)), kv("required", nSeq(nStr("b"))))))),
		ty("object", kv("properties", sn("a", ty("array", kv("items", ty("object", kv("properties", sn("b", in)))))))), ty("object", kv("properties", sn("a", nMap(kv("$ref", nStr("#/definitions/D")))))), ty("object", kv("properties", sn("a", nMap(kv("$ref", nStr("D")))))), ty("object", kv("properties", sn("a", nMap(kv("$ref", nStr("#/x/Gone")))))),
		ty("array", kv("items", nMap(kv("$ref", nStr("#/definitions/D"))))), ty("array", kv("items", nMap(kv("$ref", nStr("Gone"))))), ty("object", kv("additionalProperties", nMap(kv("$ref", nStr("D"))))),
		sn("oneOf", nSeq(in, str)), sn("oneOf", nSeq(ty("integer", kv("minimum", nInt(2))), ty("null"))), sn("oneOf", nSeq(ty("object", kv("properties", sn("a", in))), ty("array", kv("items", in)))), ty("object", kv("properties", sn("a", sn("oneOf", nSeq(in, ty("null")))))),
		ty("function", kv("arguments", nSeq(in))), ty("function", kv("arguments", nSeq(in, str))), ty("function", kv("arguments", nSeq())), ty("function", kv("returns", in)), ty("function", kv("arguments", nSeq(in)), kv("returns", str)), ty("function", kv("arguments", nSeq(ty("array", kv("items", in))))))
	vs = []*N{nNull(), nBool(true), nBool(false), nInt(0), nInt(1), nInt(2), nInt(3), nInt(4), nInt(-2), nInt(-3), nInt(6), nFloat(2), nFloat(2.25), nFloat(2.5), nFloat(-2), nFloat(0), nFloat(3), bigOf("9007199254740993"), nFloat(4),
		nStr(""), nStr("a"), nStr("ab"), nStr("日本"), nStr("日本語"), nStr("1"), nStr("😀é"), nSeq(), nSeq(nInt(1)), nSeq(nStr("a")), nSeq(nInt(1), nStr("a")), nSeq(nSeq(nInt(1))), nSeq(nNull()), nSeq(nMap()),
		nMap(), nMap(kv("a", nInt(1))), nMap(kv("a", nStr("x"))), nMap(kv("a", nNull())), nMap(kv("b", nStr("x"))), nMap(kv("a", nInt(1)), kv("b", nStr("x"))), nMap(kv("a", nInt(1)), kv("c", nInt(2))), nMap(kv("a", nMap())), nMap(kv("a", nMap(kv("b", nInt(1))))), nMap(kv("a", nMap(kv("b", nStr("x"))))), nMap(kv("a", nSeq(nMap(kv("b", nInt(1))), nMap()))), nMap(kv("a", nSeq(nMap(kv("b", nNull()))))), nMap(kv("a", nSeq(nInt(1)))),
		nMap(kv("x", nInt(5))), nMap(kv("x", nStr("y"))), nMap(kv("$schema", nInt(1)))}
	return
}

func (ck *Check) schemaMatrix(how func(c *Case, s, v *N)) {
	ss, vs := schemaSamples()
	g := &G{r: ck.rng("matrix"), p: baseProfile()}
	g.p.Comments = 0
	u := &Universe{Schemas: map[string]*N{"D": nMap(kv("type", nStr("object")), kv("properties", nMap(kv("b", nMap(kv("type", nStr("integer")))))))}}
	fns := []*N{lam(nil, nInt(1)), lam([]string{"x"}, nInt(1)), lam([]string{"x", "y"}, nInt(1)), nSeq(nStr("lambda"), nSeq(nStr("x").tag("!int")), nInt(1)), nSeq(nStr("lambda"), nSeq(nStr("x").tag("!string")), nInt(1)), nSeq(nStr("lambda"), nSeq().tag("!int"), nInt(1)), nSeq(nStr("lambda"), nSeq().tag("!string"), nInt(1)), nSeq(nStr("lambda"), nSeq(nStr("x").tag("!int"), nStr("y")), nInt(1)), nSym("int")}
	var cases []*Case
	add := func(s, v *N) {
		c := newCase(ck.Prop, 0)
		c.Schemas = u
		how(c, s, v)
		c.write(g.emitter())
		cases = append(cases, c)
	}
	for _, s := range ss {
		for _, v := range vs {
			add(s, protect(v.clone()))
		}
		for _, f := range fns {
			add(s, f.clone())
		}
	}
	ck.Info["schema_value_pairs"] = len(cases)
	ck.sessions(cases)
}

func init() {
	checks["C10"] = func(ck *Check) {
		p := baseProfile()
		p.Keys = []string{"a", "b", "c", "name", "k1"}
		p.Err = 0
		ck.exploreSession(ck.scale(3, 5), ck.sharingAlphabet)
		ck.run(2500, 50000, "aliasing", p, aliasing)
		ck.run(700, 12000, "typed", p, func(g *G, c *Case) { typedMerges(g, c, 4) })
		ck.run(500, 10000, "manifests", p, k8sPatches)
		p = baseProfile()
		p.Anchor, p.Ref = 0.4, 0.6
		p.Ops["patch"] = 6
		ck.run(800, 15000, "programs", p, func(g *G, c *Case) {
			g.program(c)
			all := nSeq()
			for _, v := range g.vars {
				if v.S.K != "lam" && !v.Maybe {
					all.Items = append(all.Items, nSym(v.Name))
				}
			}
			c.Docs = append(c.Docs, all)
		})
	}
	checks["C11"] = func(ck *Check) {
		ck.laws("patch")
		p := baseProfile()
		p.Err = 0.02
		p.Keys = []string{"a", "b", "c", "0", "1", "-", "a/b", "m~n", "~1", "", "*x", "x y"}
		one := func(d int) func(g *G, c *Case) {
			return func(g *G, c *Case) {
				v, _ := g.data(oneOf(g, "map", "map", "list"), d)
				if g.ch(0.1) { // documents
					w, _ := g.data("map", 2)
					t := call("lists.as-toplevel", quote(nSeq(v.clone(), w)))
					if g.ch(0.3) {
						t = call("lists.as-toplevel", quote(nSeq(v.clone(), v.clone(), v.clone())))
					}
					c.Docs = []*N{yispT(call("maps.patch", t, g.patch(nil, v, 3)))}
					return
				}
				if g.ch(0.08) { // operations that are named and repeated
					l := nSeq()
					for i, k := 0, 1+g.n(2); i < k; i++ {
						a := fmt.Sprintf("o%d", i)
						c.Docs = append(c.Docs, g.patchOp(v).anchor(a))
						for j, k := 0, 1+g.n(3); j < k; j++ {
							l.Items = append(l.Items, nSym(a))
						}
					}
					g.r.Shuffle(len(l.Items), func(i, j int) { l.Items[i], l.Items[j] = l.Items[j], l.Items[i] })
					c.Docs = append(c.Docs, yispT(call("maps.patch", protect(v.clone()), quote(l))))
					return
				}
				c.Docs = []*N{yispT(call("maps.patch", protect(v.clone()), g.patch(nil, v, 3)))}
			}
		}
		ck.run(6000, 90000, "patches", p, one(3))
		ck.run(3000, 60000, "small", p, one(2))
		ck.run(500, 8000, "spread", p, spread)
		ck.patchMatrix()
	}
	checks["C12"] = func(ck *Check) {
		ck.laws("manifests")
		p := baseProfile()
		p.Err = 0
		ck.run(4000, 60000, "manifests", p, k8sPatches)
		ck.run(800, 15000, "merges", p, func(g *G, c *Case) { typedMerges(g, c, 3) })
	}
	checks["C13"] = func(ck *Check) {
		ck.laws("schemas")
		ck.schemaMatrix(func(c *Case, s, v *N) {
			c.Docs = []*N{yispT(call("types.assert", nSeq(nStr("schema"), protect(s.clone())), v))}
		})
		p := baseProfile()
		p.Err = 0
		ck.run(4500, 80000, "schemas", p, func(g *G, c *Case) {
			sg := &SchemaGen{Funcs: g.ch(0.3), Ap: 0.3, Req: 0.3}
			c.NoCheck = g.ch(0.2)
			if g.ch(0.3) {
				c.Schemas = g.universe(*sg, false)
				for id := range c.Schemas.Schemas {
					if id == "Alpha" || id == "Beta" {
						sg.Refs = []string{id}
					}
				}
			}
			s := g.schema(sg, 3)
			if sg.Funcs && g.ch(0.4) {
				s = g.schemaOf(sg, "function", 2)
			}
			if field(s, "$ref") != nil {
				s = g.schemaOf(sg, "object", 2)
			}
			c.Docs = append(c.Docs, typeDoc("T", s))
			g.bound = map[string]bool{}
			if as := field(s, "arguments"); as != nil {
				for i, a := range as.Items {
					if g.ch(0.8) {
						t := fmt.Sprintf("A%d", i)
						g.bound[t] = true
						c.Docs = append(c.Docs, typeDoc(t, g.variant(a)))
					}
				}
			}
			if r := field(s, "returns"); r != nil && g.ch(0.8) {
				g.bound["R"] = true
				c.Docs = append(c.Docs, typeDoc("R", g.variant(r)))
			}
			for i, k := 0, 1+g.n(2); i < k; i++ {
				v := g.nearly(s, sg)
				if v == nil {
					c.Docs = append(c.Docs, yispT(call("types.assert", nSym("T"), g.lambdaFor(s))))
					continue
				}
				c.Docs = append(c.Docs, g.checked("T", v, false))
			}
		})
		ck.run(600, 9000, "changed", p, changedSince)
	}
	checks["C14"] = func(ck *Check) {
		ck.laws("schemas")
		p := baseProfile()
		p.Err = 0
		ck.run(5500, 90000, "casts", p, casts)
		ck.schemaMatrix(func(c *Case, s, v *N) { // as the default of an absent property, and given
			d := protect(s.clone())
			d.Pairs = append(d.Pairs, kv("default", v.clone()))
			c.Docs = []*N{typeDoc("T", nMap(kv("type", nStr("object")), kv("properties", nMap(kv("k", d), kv("o", nMap(kv("type", nStr("object")), kv("properties", nMap(kv("k", d.clone())))))))))}
			if v.K == "seq" && v.Tag == "" || v.K == "sym" { // a function is no default
				c.Docs = []*N{nInt(1)}
				return
			}
			c.Docs = append(c.Docs, nMap(kv("z", nMap().tag("!T"))))
		})
	}
	checks["C15"] = func(ck *Check) {
		p := baseProfile()
		p.Err = 0
		ck.run(5000, 80000, "manifests", p, manifests)
		q := ck.generate(ck.scale(150, 1500), "cli", p, func(g *G, c *Case) { manifests(g, c); c.Final = true })
		ck.sessionsBy(q, ck.cliBuilds)
		q = ck.generate(ck.scale(600, 9000), "views", p, func(g *G, c *Case) { manifests(g, c); c.Final = true })
		ck.viewsBy(q, ck.views)
		q = ck.generate(ck.scale(60, 900), "toolviews", p, func(g *G, c *Case) { manifests(g, c); c.Final = true })
		ck.viewsBy(q, ck.toolViews)
	}
}

// C11: one value put in several places, one of which is changed afterwards
func spread(g *G, c *Case) {
	val := func() *N {
		return oneOf(g, nMap(kv("p", nInt(1)), kv("q", nSeq(nInt(1), nInt(2)))), nMap(), nMap(kv("p", nMap(kv("q", nInt(1))))), nSeq(nInt(1), nInt(2)), nSeq(nMap(kv("p", nInt(1)))), nSeq()).clone()
	}
	kid := func() *N {
		return oneOf(g, nInt(1), nSeq(nInt(1)), nMap(kv("k", nInt(1))), nMap(kv("k", nMap())), nMap(kv("p", nSeq()))).clone()
	}
	t := nMap(kv("src", val()))
	at := map[string][]string{}
	for _, k := range []string{"l", "m"} {
		v := nSeq()
		if k == "m" {
			v = nMap()
		}
		for i, n := 0, 2+g.n(2); i < n; i++ {
			key := fmt.Sprintf("%d", i)
			if k == "m" {
				key = []string{"a", "b", "c"}[i]
				v.Pairs = append(v.Pairs, kv(key, kid()))
			} else {
				v.Items = append(v.Items, kid())
			}
			at[k] = append(at[k], key)
		}
		t.Pairs = append(t.Pairs, kv(k, v))
	}
	where := oneOf(g, "l", "m")
	tail := oneOf(g, "", "", "", "/k", "/p", "/0", "/-")
	path := "/" + where + "/*" + tail
	first := nMap(kv("op", nStr(oneOf(g, "add", "replace", "replace"))), kv("path", nStr(path)), kv("value", val()))
	if g.ch(0.25) {
		first = nMap(kv("op", nStr("copy")), kv("from", nStr("/src")), kv("path", nStr(path)))
	}
	if tail == "/-" {
		tail = oneOf(g, "/0", "/1")
	}
	ops := nSeq(first)
	for i, n := 0, 1+g.n(2); i < n; i++ {
		to := "/" + where + "/" + g.of(at[where]) + tail
		if g.ch(0.1) {
			to = "/src"
		}
		to += oneOf(g, "/p", "/q", "/q/0", "/q/-", "/0", "/-", "/0/p", "/p/q", "/new")
		o := nMap(kv("op", nStr(oneOf(g, "add", "add", "replace", "remove"))), kv("path", nStr(to)))
		if o.Pairs[0].V.S != "remove" {
			o.Pairs = append(o.Pairs, kv("value", nInt(int64(70+i))))
		}
		ops.Items = append(ops.Items, o)
	}
	c.Docs = []*N{yispT(call("maps.patch", protect(t), quote(ops)))}
}

// C13: a value that was of the type when it was made, and has been changed
func changedSince(g *G, c *Case) {
	sg := &SchemaGen{Ap: 0.3, Req: 0.5}
	s := g.schemaOf(sg, "object", 2)
	v := g.conforming(s, sg, 2)
	if v == nil || v.K != "map" {
		v = nMap()
	}
	c.Docs = append(c.Docs, typeDoc("T", s))
	c.NoCheck = g.ch(0.5) // what is output is not checked once more
	body := func() *N { return oneOf(g, nSym("p"), nStr("ok"), nSeq(nSym("p"))) }
	var l []*N
	for i, n := 0, 1+g.n(2); i < n; i++ {
		k := g.of(skeys)
		if len(v.Pairs) > 0 && g.ch(0.8) {
			k = v.Pairs[g.n(len(v.Pairs))].Key
		}
		o := nMap(kv("op", nStr("add")), kv("path", nStr("/"+ptrEsc(k))), kv("value", g.data1(1)))
		if field(v, k) != nil && g.ch(0.4) {
			o = nMap(kv("op", nStr("remove")), kv("path", nStr("/"+ptrEsc(k))))
		}
		l = append(l, o)
		if g.ch(0.6) {
			break
		}
	}
	if len(l) == 2 && field(l[0], "path").S == field(l[1], "path").S {
		l = l[:1]
	}
	var changed *N
	if g.ch(0.5) {
		changed = call("maps.patch", typed("T", v), quote(nSeq(l...)))
	} else {
		c.Docs = append(c.Docs, typed("T", v).anchor("v"))
		changed = call("maps.patch", call("maps.merge", nSym("v"), nMap()), quote(nSeq(l...)))
	}
	if g.ch(0.4) { // by a merge
		m := nMap(kv(g.of(skeys), g.data1(1)))
		if len(v.Pairs) > 0 && g.ch(0.8) {
			m.Pairs[0].Key = v.Pairs[g.n(len(v.Pairs))].Key
		}
		changed = call("maps.merge", typed("T", v.clone()), quote(m))
	}
	var use *N
	switch g.n(5) {
	case 0:
		use = call("types.assert", nSym("T"), changed)
	case 1:
		use = call("progn", typed("T", call("progn", changed)))
	case 2:
		use = nSeq(nSeq(nStr("lambda"), nSeq(nStr("o"), nStr("p").tag("!T")), body()), nInt(1), changed)
	default:
		use = nSeq(nSeq(nStr("lambda"), nSeq(nStr("p").tag("!T")), body()), changed)
	}
	c.Docs = append(c.Docs, yispT(use))
}

// C14: values cast to types with defaults
func casts(g *G, c *Case) {
	sg := &SchemaGen{Defaults: 0.5, Ap: 0.2, Req: 0.08}
	if g.ch(0.25) {
		c.Schemas = g.universe(*sg, false)
		sg.Refs = []string{"Alpha"}
	}
	s := g.schemaOf(sg, oneOf(g, "object", "object", "object", "object", "array"), 3)
	c.Docs = append(c.Docs, typeDoc("T", s))
	for i, k := 0, 1+g.n(2); i < k; i++ {
		v := g.conforming(s, sg, 3)
		if v == nil {
			v = nMap()
		}
		if g.ch(0.15) {
			g.damage(v)
		}
		n := g.checked("T", v, true)
		name := fmt.Sprintf("v%d", i)
		n.Anchor = name
		c.Docs = append(c.Docs, n)
		if g.ch(0.5) { // again
			r := nSym(name)
			if n.K == "map" && len(n.Pairs) == 1 && n.Pairs[0].Key == "m" && n.Tag == "" {
				r = nSym(name + ".m")
			}
			c.Docs = append(c.Docs, yispT(call("progn", typed("T", call("progn", r)))))
		}
	}
}

// C15: manifests that conform, nearly conform, or stop to conform
func manifests(g *G, c *Case) {
	sg := &SchemaGen{Defaults: 0.1, Ap: 0.2, Req: 0.15, Strategy: 0.1}
	c.Schemas = g.universe(*sg, true)
	c.Untyped, c.NoCheck = g.ch(0.25), g.ch(0.25)
	one := func() *N {
		if g.ch(0.3) { // by address
			url := oneOf(g, "http://schemas.invalid/s0.json", "http://schemas.invalid/s1.json")
			m := nMap()
			if v := g.nearly(c.Schemas.URLs[url], sg); v != nil && v.K == "map" {
				m = v
			}
			m.Pairs = append([]Pair{kv("$schema", nStr(url))}, m.Pairs...)
			if g.ch(0.1) {
				m.Pairs = append(m.Pairs, kv("apiVersion", nStr("v1")), kv("kind", nStr("Service")))
			}
			return m
		}
		m := g.manifest(c, sg, false)
		if g.ch(0.25) {
			g.damage(m)
		}
		return m
	}
	dress := func(m *N) *N { // the same manifest, written in another way
		if m.K != "map" {
			return m
		}
		if g.ch(0.12) { // what makes it one is computed
			for i, p := range m.Pairs {
				if p.V.K == "str" && p.V.Tag == "" && (p.Key == "apiVersion" || p.Key == "kind" || p.Key == "$schema") && g.ch(0.7) {
					t, at := p.V.S, g.n(len(p.V.S)+1)
					m.Pairs[i].V = oneOf(g, yispT(call("strings.concat", nStr(t[:at]), nStr(t[at:]))), yispT(nSeq(nStr("if"), nBool(true), nStr(t), nNull())), nStr(t).tag("!string"), nStr(t).tag("!quote"))
				}
			}
		}
		switch g.n(12) {
		case 0, 1:
			return quote(m)
		case 2:
			return yispT(protect(m))
		case 3:
			return yispT(nSeq(nStr("if"), nBool(true), protect(m), nNull()))
		case 4:
			return yispT(call("lists.at", nSeq(nStr("lists.map"), quote(nSeq(nStr("a"))), nSeq(nStr("lambda"), nSeq(nSym("p")), protect(m))), nInt(0)))
		case 5: // merged into what has no type
			if len(m.Pairs) > 2 {
				rest := nMap(append([]Pair{}, m.Pairs[2:]...)...)
				m.Pairs = append(m.Pairs[:2:2], kv("<<", rest))
			}
		}
		return m
	}
	wrap := func(m *N) *N {
		for g.ch(0.25) {
			switch g.n(3) {
			case 0:
				l := nSeq()
				for i, k := 0, g.n(3); i < k; i++ {
					l.Items = append(l.Items, oneOf(g, nInt(1), nSeq(nInt(1)), nMap(kv("k", nStr("v")))))
				}
				m = nSeq(append(l.Items, m)...)
				if g.ch(0.3) {
					m.Items = append(m.Items, nStr("end"))
				}
			case 1:
				m = nMap(kv("in", m))
			case 2:
				m = yispT(call("lists.as-toplevel", quote(nSeq(m))))
			}
		}
		return m
	}
	if g.ch(0.15) { // a part with a type of its own, changed in its place
		c.Docs = append(c.Docs, typeDoc("P", nMap(kv("type", nStr("object")), kv("properties", nMap(kv("n", nMap(kv("type", nStr("integer")))))))))
		part := nMap(kv("n", nInt(1))).tag("!P")
		key := g.of(skeys)
		o := nMap(kv("op", nStr(oneOf(g, "add", "replace"))), kv("path", nStr("/"+key+"/n")), kv("value", oneOf(g, nInt(2), nStr("no"), nNull(), nFloat(1.5))))
		if g.ch(0.2) {
			o = nMap(kv("op", nStr("add")), kv("path", nStr("/"+key+"/m")), kv("value", nInt(1)))
		}
		m := one()
		if m.K == "map" {
			m.Pairs = slices.DeleteFunc(m.Pairs, func(p Pair) bool { return p.Key == key })
			m.Pairs = append(m.Pairs, kv(key, part))
			if g.ch(0.3) {
				m = nMap(kv(key, part))
			}
			c.Docs = append(c.Docs, wrap(yispT(call("maps.patch", m, quote(nSeq(o))))))
		}
	}
	for i, k := 0, 1+g.n(3); i < k; i++ {
		m := one()
		name := fmt.Sprintf("v%d", i)
		if m.K == "map" && g.ch(0.4) {
			// changed after it was made
			m.Anchor = name
			if g.ch(0.5) { // and not shown itself
				c.Docs = append(c.Docs, yispT(call("progn", m, nNull())))
			} else {
				c.Docs = append(c.Docs, m)
			}
			over := nMap(kv(oneOf(g, "spec", "a", "x", "name", "zz", "port"), g.data1(1)))
			var n *N
			switch g.n(6) {
			case 0, 1:
				n = yispT(call("maps.merge", nSym(name), protect(over)))
			case 2:
				n = yispT(call("maps.patch", call("maps.merge", nSym(name)), quote(nSeq(nMap(kv("op", nStr("add")), kv("path", nStr("/"+over.Pairs[0].Key)), kv("value", over.Pairs[0].V))))))
				n = yispT(call("maps.merge", nSym(name), protect(over)))
			case 3:
				n = yispT(call("lists.map", quote(nSeq(nSym(name), nSym(name))), nSeq(nStr("lambda"), nSeq(nSym("m")), call("maps.merge", nSym("m"), protect(over)))))
			case 4:
				n = nMap(kv("<<", nSym(name)), over.Pairs[0])
			case 5:
				n = yispT(call("maps.from-entries", call("maps.to-entries", nSym(name))))
			}
			c.Docs = append(c.Docs, wrap(n))
			continue
		}
		c.Docs = append(c.Docs, wrap(dress(m)))
	}
}

// C11: every operation at every pointer of some small values
func (ck *Check) patchMatrix() {
	b := ck.batch("patchmatrix")
	targets := []*N{nMap(), nSeq(), nInt(1), nMap(kv("a", nInt(1)), kv("b", nMap(kv("a", nInt(2))))), nSeq(nInt(1), nSeq(nInt(2)), nMap(kv("a", nInt(3)))), nMap(kv("a", nSeq(nMap(kv("a", nInt(1))), nMap(kv("a", nInt(2)))))), nMap(kv("a/b", nInt(1)), kv("m~n", nInt(2)), kv("", nInt(3)), kv("~1", nInt(4)))}
	ptrs := []string{"", "/", "/a", "/b", "/b/a", "/c", "/c/d", "/0", "/1", "/2", "/3", "/4", "/-", "/1/0", "/1/-", "/1/1", "/2/a", "/a/0/a", "/a/-", "/a/1", "/a/2", "/*", "/*/a", "/a/*", "/a/*/a", "/a~1b", "/m~0n", "/~01", "a", "/a/x", "/-/a", "/*/*", "/*/0"}
	vals := []*N{nInt(9), nMap(kv("a", nInt(7)), kv("n", nNull())), nSeq(nInt(5))}
	for _, t := range targets {
		for _, p := range ptrs {
			for _, op := range []string{"add", "replace", "test"} {
				for _, v := range vals {
					b.add(call("maps.patch", protect(t.clone()), nMap(kv("op", nStr(op)), kv("path", nStr(p)), kv("value", protect(v.clone())))))
				}
			}
			b.add(call("maps.patch", protect(t.clone()), nMap(kv("op", nStr("remove")), kv("path", nStr(p)))))
			for _, f := range []string{"", "/a", "/b", "/b/a", "/0", "/1", "/1/0", "/2", "/a/0", "/a/1/a", "/-", "/zz", "/"} {
				b.add(call("maps.patch", protect(t.clone()), nMap(kv("op", nStr("copy")), kv("from", nStr(f)), kv("path", nStr(p)))))
				b.add(call("maps.patch", protect(t.clone()), nMap(kv("op", nStr("move")), kv("from", nStr(f)), kv("path", nStr(p)))))
			}
		}
	}
	b.flush()
	ck.Info["patch_matrix_cases"] = b.total
}
