package main

// Programs for modes, scoping, evaluation order and the operators.

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
)

// ---- calls of every operator with every combination of sample arguments

var allOps = []string{"+", "-", "*", "/", "add", "sub", "mul", "div", "==", "!=", "eq", "neq", "<", "<=", ">", ">=", "lt", "lte", "gt", "gte",
	"&&", "||", "and", "or", "!", "not", "??", "default", "progn", "pipeline", "schema", "include",
	"lists.car", "lists.cdr", "lists.cons", "lists.contains", "lists.flatten", "lists.as-toplevel", "lists.iota", "lists.length", "lists.at", "lists.map", "lists.filter", "lists.reduce",
	"maps.from-entries", "maps.get", "maps.keys", "maps.values", "maps.to-entries", "maps.make", "maps.merge", "maps.patch", "k8s.patch",
	"types.assert", "types.get", "types.of", "yaml.marshal", "yaml.unmarshal",
	"strings.concat", "strings.contains", "strings.quote", "strings.format", "strings.join", "strings.replace", "strings.sha256", "strings.split", "strings.toUpper", "strings.toLower", "strings.trim",
	"exec.cmd", "exec.go", "files.read", "files.glob", "nosuch", "lists.nosuch", ""}

func qlist(items ...*N) *N { return quote(nSeq(items...)) }
func strsOf(ss ...string) []*N {
	var l []*N
	for _, s := range ss {
		l = append(l, nStr(s))
	}
	return l
}
func intsOf(is ...int64) []*N {
	var l []*N
	for _, i := range is {
		l = append(l, nInt(i))
	}
	return l
}
func lam(ps []string, body *N) *N {
	l := nSeq()
	for _, p := range ps {
		l.Items = append(l.Items, nStr(p))
	}
	return nSeq(nStr("lambda"), l, body)
}

// arguments, as written in eval mode; the first ones matter most
var sampleArgs = []*N{
	nNull(), nInt(2), nStr("a"), qlist(intsOf(1, 2, 3)...), nMap(kv("a", nInt(1)), kv("b", qlist(nStr("a")))), nBool(true), nFloat(2.5), nSeq(), nMap(),
	lam([]string{"x"}, nSymOr("x")), qlist(strsOf("b", "a")...), nStr(""), nSym("int"),
	lam([]string{"x", "y"}, call("+", nSymOr("x"), nSymOr("y"))), nInt(0), nInt(-1), nBool(false), nFloat(0), nStr("a: 1\nb: [x]\n"), nStr("a,b"),
	qlist(nSeq(nStr("k"), nInt(1)), nSeq(nStr("l"), nNull())), qlist(nInt(1), nSeq(nInt(2), nSeq(nInt(3)))), qlist(nMap(kv("op", nStr("add")), kv("path", nStr("/n")), kv("value", nInt(1)))),
	nMap(kv("a", nMap(kv("b", nInt(1)))), kv("c", nNull())), nStr("strings.toUpper"), nSeq(nStr("schema"), nMap(kv("type", nStr("string")))),
	nMap(kv("cmd", nStr("probe"))), nMap(kv("pkg", nStr("x"))), nStr("%s"), nStr("{"), call("lists.as-toplevel", qlist(intsOf(1, 2)...)), qlist(nNull()),
	lam(nil, nInt(1)), bigOf("9223372036854775807"), nFloat(1e30),
}

func nSymOr(s string) *N { return nSym(s) }

// tuples calls f with every tuple of k of the samples
func tuples(samples []*N, k int, f func([]*N)) {
	idx := make([]int, k)
	for {
		args := make([]*N, k)
		for i, x := range idx {
			args[i] = samples[x].clone()
		}
		f(args)
		i := k - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < len(samples) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func (n *N) scalarTag() bool {
	switch n.Tag {
	case "!", "!int", "!float", "!bool", "!null", "!string":
		if n.K != "seq" && n.K != "map" && n.K != "opaque" {
			return true
		}
	}
	for _, i := range n.Items {
		if i.scalarTag() {
			return true
		}
	}
	for _, p := range n.Pairs {
		if p.V.scalarTag() {
			return true
		}
	}
	return false
}

// batch collects one-document programs and judges them in batches
type batch struct {
	ck    *Check
	g     *G
	cases []*Case
	total int
}

func (ck *Check) batch(salt string) *batch {
	p := baseProfile()
	p.Comments = 0
	return &batch{ck: ck, g: &G{r: ck.rng(salt), p: p}}
}
func (b *batch) add(docs ...*N) *Case {
	c := newCase(b.ck.Prop, 0)
	for _, d := range docs {
		if d.scalarTag() { // how a built-in type reads a scalar is not specified
			d = &N{K: "opaque", S: b.g.emitter().Doc(d)}
		}
		if d.K == "seq" && d.Tag == "" {
			d.Tag = "!yisp"
		}
		c.Docs = append(c.Docs, d)
	}
	c.write(b.g.emitter())
	b.cases = append(b.cases, c)
	b.total++
	if len(b.cases) >= 12000 {
		b.flush()
	}
	return c
}
func (b *batch) flush() {
	b.ck.sessions(b.cases)
	b.cases = nil
}

func (ck *Check) matrix(ops []string, samples []*N, arity ...int) {
	b := ck.batch("matrix")
	for _, op := range ops {
		for _, k := range arity {
			tuples(samples, k, func(args []*N) { b.add(nSeq(append([]*N{nStr(op)}, args...)...)) })
		}
	}
	b.flush()
	n, _ := ck.Info["operator_matrix_cases"].(int)
	ck.Info["operator_matrix_cases"] = n + b.total
}

// ---- C02: trees whose lists are calls or data, with tags anywhere

func (g *G) tree(m byte, d int) *N {
	tag := ""
	if g.ch(0.22) {
		tag = oneOf(g, "!quote", "!yisp")
	}
	mm := m
	if tag == "!quote" {
		mm = 'Q'
	} else if tag == "!yisp" {
		mm = 'E'
	}
	var n *N
	switch k := g.n(10); {
	case d <= 0 || k < 2:
		n = oneOf(g, nInt(int64(g.n(9))), nStr(oneOf(g, "+", "progn", "if", "x", "lambda", "a")), nNull(), nBool(g.ch(0.5)), nSeq(), nMap(), nFloat(1.5))
		if g.ch(0.25) && len(g.vars) > 0 {
			return nSym(g.vars[g.n(len(g.vars))].Name)
		}
	case k < 4:
		n = nMap()
		for _, key := range g.keys(1 + g.n(3)) {
			n.Pairs = append(n.Pairs, kv(key, g.tree(mm, d-1)))
		}
		if g.ch(0.15) {
			n.Pairs = append(n.Pairs, kv(oneOf(g, "+", "progn", "[+, 1, 2]", "!yisp", "*x"), g.tree(mm, d-1)))
		}
		if g.ch(0.1) {
			n.Pairs = append(n.Pairs, kv("<<", nMap(kv("m", g.tree(mm, d-1)))))
		}
	default:
		sub := func() *N { return g.tree(mm, d-1) }
		switch g.n(12) {
		case 0, 1, 2:
			n = call("progn", sub(), sub())
		case 3:
			n = call("+", nInt(int64(g.n(5))), nInt(int64(g.n(5))))
		case 4:
			n = nSeq(nStr("if"), sub(), sub(), sub())
		case 5:
			n = call("??", sub(), sub())
		case 6:
			n = call("lists.flatten", sub(), sub())
		case 7:
			n = call("maps.make", nStr(g.of(g.p.Keys)), sub())
		case 8:
			saved := g.vars
			g.vars = append(append([]Var{}, g.vars...), Var{"p", sk("any"), false})
			body := g.tree('E', d-1)
			g.vars = saved
			if mm == 'Q' { // a list here; nothing in it is a function
				body = g.tree('Q', d-1)
				n = nSeq(nStr("lambda"), nSeq(nStr("p")), body)
			} else {
				n = nSeq(nSeq(nStr("lambda"), nSeq(nStr("p")), body), sub())
			}
		case 9:
			if mm == 'E' {
				n = call("lists.map", quote(nSeq(g.tree('Q', d-1), g.tree('Q', d-1))), nSeq(nStr("lambda"), nSeq(nStr("q")), g.tree('E', d-1)))
			} else {
				n = nSeq(g.tree('Q', d-1), g.tree('Q', d-1), g.tree('Q', d-1))
			}
		case 10:
			n = call("lists.cons", sub(), quote(nSeq(g.tree('Q', d-1))))
			if mm == 'Q' {
				n = nSeq(nStr("lists.cons"), sub(), sub())
			}
		default:
			if mm == 'E' && !g.ch(g.p.Err) {
				n = call("types.of", sub())
			} else {
				n = nSeq(sub(), sub())
			}
		}
	}
	n.Tag = tag
	if n.Anchor == "" && g.ch(0.1) {
		n.Anchor = g.of(g.p.Names)
		g.vars = append(g.vars, Var{n.Anchor, sk("any"), false})
	}
	return n
}

// ---- C03: names, without regard to what they stand for

func (g *G) name() *N {
	if len(g.vars) == 0 || g.ch(0.06) {
		n := nSym(g.of(g.p.Names))
		n.Segs[0].Opt = g.ch(0.7)
		return n
	}
	n := nSym(g.vars[g.n(len(g.vars))].Name)
	n.Segs[0].Opt = g.ch(0.15)
	for g.ch(0.3) {
		n.Segs = append(n.Segs, Seg{Name: oneOf(g, "a", "b", "c"), Opt: g.ch(0.6)})
	}
	if g.ch(0.03) { // a part that is not there
		at := 1 + g.n(len(n.Segs))
		n.Segs = append(n.Segs[:at:at], append([]Seg{{}}, n.Segs[at:]...)...)
	}
	return n
}
func (g *G) scope(d int) *N {
	var n *N
	switch k := g.n(16); {
	case d <= 0 || k < 3:
		if g.ch(0.7) {
			return g.name()
		}
		n = nInt(int64(g.n(100)))
	case k < 5:
		n = nMap()
		for _, key := range []string{"a", "b", "c"} {
			if g.ch(0.6) {
				n.Pairs = append(n.Pairs, kv(key, g.scope(d-1)))
			}
		}
	case k < 7:
		n = quote(nSeq(g.scopeQ(d-1), g.scopeQ(d-1)))
	case k < 8:
		n = call("progn", g.scope(d-1), g.scope(d-1))
	case k < 9:
		n = nSeq(nStr("if"), g.scope(d-1), g.scope(d-1), g.scope(d-1))
	case k < 12:
		f, ar := g.scopeLam(d - 1)
		n = nSeq(f)
		for i := 0; i < ar; i++ {
			n.Items = append(n.Items, g.scope(d-1))
		}
	case k < 13:
		f, _ := g.scopeLamN(d-1, 1)
		n = call("lists.map", quote(nSeq(g.scopeQ(d-1), g.scopeQ(d-1))), f)
	case k < 15:
		var fs []Var
		for _, v := range g.vars {
			if v.S.K == "lam" {
				fs = append(fs, v)
			}
		}
		if len(fs) == 0 || g.depL > 0 { // no recursion
			return g.name()
		}
		f := fs[g.n(len(fs))]
		n = nSeq(nSym(f.Name))
		for range f.S.Args {
			n.Items = append(n.Items, g.scope(d-1))
		}
	default:
		n = call("pipeline", g.scope(d-1), lam([]string{oneOf(g, "a", "b")}, g.scope(d-2)))
	}
	if g.ch(0.2) {
		n.Anchor = g.of(g.p.Names)
		g.vars = append(g.vars, Var{n.Anchor, sk("any"), false})
	}
	return n
}
func (g *G) scopeQ(d int) *N {
	n := g.scope(d)
	if n.K == "seq" && n.Tag == "" {
		n.Tag = "!yisp"
	}
	return n
}
func (g *G) scopeLam(d int) (*N, int) { return g.scopeLamN(d, g.n(3)) }
func (g *G) scopeLamN(d, ar int) (*N, int) {
	ps := nSeq()
	saved := g.vars
	g.vars = append([]Var{}, g.vars...)
	names := g.r.Perm(len(g.p.Names))
	for i := 0; i < ar; i++ {
		p := g.p.Names[names[i]]
		ps.Items = append(ps.Items, oneOf(g, nStr(p), nSym(p)))
		g.vars = append(g.vars, Var{p, sk("any"), false})
	}
	g.depL++
	body := g.scope(d)
	g.depL--
	g.vars = saved
	return nSeq(nStr("lambda"), ps, body), ar
}
func scopeProgram(g *G, c *Case) {
	for i, k := 0, 3+g.n(5); i < k; i++ {
		if g.ch(0.35) { // a named function
			var n *N
			ar := g.n(3)
			if g.ch(0.3) { // one that makes functions
				inner, _ := g.scopeLamN(2, ar)
				saved := g.vars
				p := g.of(g.p.Names)
				n = nSeq(call("progn", nSeq(nSeq(nStr("lambda"), nSeq(nStr(p)), inner), g.scope(1))))
				n = n.Items[0]
				g.vars = saved
			} else {
				n, _ = g.scopeLamN(3, ar)
			}
			n.Tag = "!yisp"
			n.Anchor = oneOf(g, "f", "g", g.of(g.p.Names))
			g.vars = append(g.vars, Var{n.Anchor, &Sk{K: "lam", Args: make([]string, ar)}, false})
			c.Docs = append(c.Docs, n)
			continue
		}
		c.Docs = append(c.Docs, g.scopeQ(3))
	}
}

// ---- C04

func (g *G) probeCall(fail bool) *N {
	g.uniq++
	id := fmt.Sprintf("p%d", g.uniq)
	if fail {
		id = "!"
	}
	return call("exec.cmd", nMap(kv("cmd", nStr("probe")), kv("args", quote(nSeq(nStr(id)))), kv("asString", nBool(true))))
}

// ---- C07

var edgeNums = func() []*N {
	var l []*N
	for _, s := range []string{"0", "1", "-1", "2", "7", "-7", "10000", "99999999", "16777217", "100000000", "-100000000", "2147483648", "3037000500", "4294967296", "9007199254740992", "9007199254740993", "4611686018427387904", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "123456789012345678", "-9999"} {
		l = append(l, bigOf(s))
	}
	return l
}()
var edgeFloats = []*N{nFloat(0), nFloat(0.25), nFloat(-0.25), nFloat(1), nFloat(-1), nFloat(6.75), nFloat(7), nFloat(1e7), nFloat(16777216), nFloat(16777217.25), nFloat(-99999999)}

var eqSamples = []*N{nNull(), nBool(false), nBool(true), nInt(0), nInt(1), nFloat(0), nFloat(1), nFloat(1.5), nStr(""), nStr("a"), nStr("1"), nStr("null"), nStr("true"), nSeq(), nMap(),
	qlist(nInt(1)), qlist(nFloat(1)), qlist(nStr("1")), qlist(nInt(1), nInt(2)), qlist(nInt(2), nInt(1)), qlist(nNull()), qlist(nSeq()), qlist(nMap()),
	nMap(kv("a", nInt(1))), nMap(kv("a", nFloat(1))), nMap(kv("a", nNull())), nMap(kv("b", nInt(1))), nMap(kv("a", nInt(1)), kv("b", nInt(2))), nMap(kv("b", nInt(2)), kv("a", nInt(1))), nMap(kv("a", nInt(1)), kv("c", nInt(2))),
	nMap(kv("a", nMap(kv("x", qlist(nInt(1)))))), nMap(kv("a", nMap(kv("x", qlist(nInt(2)))))), bigOf("9007199254740993"), bigOf("9007199254740992")}

// texts that are no YAML, wherever they stand among documents
var noYAML = []string{"a: [1\n", "{a: b\n", "'a\n", "\"a\n", "@x\n", "a: b: c\n", "- a\n b: c\n", "a: 1\n b: 2\n", "&a &b c\n", "*\n", "a: %x\n", "\"\\q\"\n", "\tx: 1\n", "[a, b}\n", "key: |1x\n  a\n"}

// a program of which one document cannot be read
func spoiled(g *G, c *Case) {
	g.program(c)
	bad := &N{K: "malformed", S: g.of(noYAML)}
	if g.ch(0.4) { // in the program itself
		for len(c.Docs) < 1+g.n(5) {
			c.Docs = append(c.Docs, nInt(int64(len(c.Docs))))
		}
		i := g.n(len(c.Docs) + 1)
		if g.ch(0.4) {
			i = len(c.Docs)
		}
		c.Docs = append(c.Docs[:i:i], append([]*N{bad}, c.Docs[i:]...)...)
		return
	}
	f := &File{Kind: "yisp"}
	n := g.n(4)
	for i := 0; i < n; i++ {
		v, _ := g.data("map", 1)
		v.Anchor = ""
		f.Docs = append(f.Docs, v)
	}
	i := g.n(n + 1)
	if g.ch(0.5) {
		i = n
	}
	f.Docs = append(f.Docs[:i:i], append([]*N{bad}, f.Docs[i:]...)...)
	name := "sp.yisp"
	if g.ch(0.4) { // a file of data
		name = oneOf(g, "sp.yaml", "sp.yml")
		var ts []string
		for _, d := range f.Docs {
			ts = append(ts, g.emitter().Doc(d))
		}
		f = &File{Kind: "bad", Text: joinDocs(ts)}
	}
	c.Files[name] = f
	use := call("include", nStr(name))
	if g.ch(0.4) {
		use = nSeq(nStr("import"), nSeq(nStr("sp"), nStr(name)))
	}
	if g.ch(0.3) {
		use = nSeq(nStr("if"), nBool(g.ch(0.5)), use, nInt(1))
	}
	c.Docs = append(c.Docs, yispT(use))
}

var sortable = regexp.MustCompile(`^[\t\n\r -~é日本😀]*$`) // the specification orders these

func init() {
	base := func(ck *Check, quick, thorough int, f func(p *Profile)) {
		p := baseProfile()
		if f != nil {
			f(&p)
		}
		ck.run(quick, thorough, "programs", p, program)
	}
	checks["C02"] = func(ck *Check) {
		p := baseProfile()
		p.Err = 0.05
		ck.run(3500, 60000, "trees", p, func(g *G, c *Case) {
			for i, k := 0, 2+g.n(4); i < k; i++ {
				c.Docs = append(c.Docs, g.tree('Q', 2+g.n(4)))
			}
		})
		base(ck, 1200, 15000, func(p *Profile) { p.Redund = 0.2 })
	}
	checks["C03"] = func(ck *Check) {
		p := baseProfile()
		p.Names = []string{"a", "b", "x"}
		ck.exploreSession(ck.scale(3, 6), ck.scopeAlphabet)
		ck.run(3500, 60000, "scopes", p, scopeProgram)
		base(ck, 1500, 20000, func(p *Profile) {
			p.Names = []string{"a", "b", "c", "x-1"}
			p.Keys = []string{"a", "b", "c", "x-1"}
			p.Err, p.Anchor, p.Ref = 0.03, 0.35, 0.55
			p.Ops["lam"] = 12
		})
	}
	checks["C04"] = func(ck *Check) {
		p := baseProfile()
		p.Probe, p.Docs = 0.18, [2]int{1, 3}
		p.Ops["lam"], p.Ops["ctl"], p.Ops["logic"], p.Ops["lists"] = 6, 8, 5, 6
		ck.run(2500, 40000, "order", p, orderProgram)
		ck.run(700, 15000, "probes", p, func(g *G, c *Case) {
			c.AllowCmd, c.Final = true, true
			g.program(c)
		})
	}
	checks["C06"] = func(ck *Check) {
		k := 13
		if ck.thorough() {
			k = len(sampleArgs)
		}
		ck.matrix(allOps, sampleArgs, 0, 1)
		ck.matrix(allOps, sampleArgs[:k], 2)
		if ck.thorough() {
			ck.matrix(allOps, sampleArgs[:9], 3)
		}
		ck.forms()
		base(ck, 1200, 20000, func(p *Profile) { p.Err = 0.15 })
		p := baseProfile()
		p.Err = 0
		ck.run(900, 12000, "spoiled", p, spoiled)
		ck.garbage()
		ck.cliErrors()
	}
	checks["C07"] = func(ck *Check) {
		ck.laws("values", "ints")
		b := ck.batch("exact")
		nums := append(append([]*N{}, edgeNums...), edgeFloats...)
		for _, op := range []string{"+", "-", "*", "/"} {
			tuples(edgeNums, 2, func(a []*N) { b.add(call(op, a...)) })
		}
		for _, op := range []string{"<", "<=", ">", ">=", "==", "!="} {
			tuples(nums, 2, func(a []*N) { b.add(call(op, a...)) })
		}
		for _, op := range []string{"==", "!="} {
			tuples(eqSamples, 2, func(a []*N) { b.add(call(op, a...)) })
		}
		truth := append(append([]*N{}, eqSamples...), lam(nil, nInt(1)), nSym("int"), nFloat(0.25), nInt(-1), nStr("0"), nStr("false"), nStr(" "))
		for _, v := range truth {
			b.add(call("!", v.clone()))
			b.add(nSeq(nStr("if"), v.clone(), nStr("yes"), nStr("no")))
			b.add(call("lists.filter", quote(nSeq(nInt(1))), lam([]string{"x"}, v.clone())))
			for _, w := range truth[:12] {
				b.add(call("&&", v.clone(), w.clone()))
				b.add(call("||", v.clone(), w.clone()))
				b.add(call("??", v.clone(), w.clone()))
				b.add(call("or", w.clone(), v.clone(), nInt(1)))
			}
		}
		b.flush()
		ck.Info["exact_pairs"] = b.total
		base(ck, 1500, 30000, func(p *Profile) {
			p.Big = 0.35
			p.Ops = map[string]int{"arith": 10, "cmp": 10, "eq": 10, "logic": 10, "ctl": 4, "lists": 1, "maps": 1, "lam": 1, "strs": 1}
		})
	}
	checks["C08"] = func(ck *Check) {
		ck.laws("lists")
		lists := []*N{nSeq(), qlist(nInt(1)), qlist(intsOf(1, 2, 3)...), qlist(nSeq()), qlist(nSeq(nInt(1)), nSeq(nSeq(nInt(2)))), qlist(nNull(), nBool(false), nMap()), qlist(strsOf("a", "b", "a")...), qlist(nMap(kv("a", nInt(1)))), call("lists.as-toplevel", qlist(nInt(1), nSeq(nInt(2), nInt(3))))}
		args := append(append([]*N{}, lists...), nInt(0), nInt(1), nInt(2), nInt(3), nInt(-1), nNull(), nStr("a"), nFloat(1), nMap(kv("a", nInt(1))),
			lam([]string{"x"}, nSym("x")), lam([]string{"x"}, qlist(nSym("x"), nSym("x"))), lam([]string{"x"}, nNull()), lam([]string{"x"}, nBool(true)), lam([]string{"x", "y"}, qlist(nSym("x"), nSym("y"))), lam([]string{"x", "y"}, call("+", nSym("x"), nSym("y"))), lam([]string{"x", "y"}, nSym("y")), nStr("progn"), nStr("!"), nStr("+"))
		ops := []string{"lists.car", "lists.cdr", "lists.cons", "lists.contains", "lists.flatten", "lists.as-toplevel", "lists.iota", "lists.length", "lists.at", "lists.map", "lists.filter", "lists.reduce"}
		ck.matrix(ops, args, 0, 1, 2)
		base(ck, 2500, 40000, func(p *Profile) {
			p.Ops = map[string]int{"lists": 20, "ctl": 3, "arith": 2, "eq": 1, "cmp": 1, "logic": 1, "lam": 2, "strs": 1, "maps": 1}
			p.Depth, p.Lit = 5, 0.3
		})
	}
	checks["C09"] = func(ck *Check) {
		ck.laws("maps")
		args := []*N{nMap(), nMap(kv("a", nInt(1))), nMap(kv("b", nInt(2)), kv("a", nInt(3))), nMap(kv("a", nMap(kv("x", nInt(1)), kv("y", nInt(2))))), nMap(kv("a", nMap(kv("y", nNull()), kv("z", qlist(nInt(3)))))), nMap(kv("a", qlist(intsOf(1, 2)...))), nMap(kv("a", qlist(nInt(3)))), nMap(kv("a", nNull())),
			nStr("a"), nStr("b"), nInt(1), nNull(), nSeq(), qlist(nSeq(nStr("k"), nInt(1)), nSeq(nStr("a"), nNull()), nSeq(nStr("k"), nSeq())), nMap(kv("z", nInt(1)), kv("y", nInt(2)), kv("x", nInt(3)), kv("w", nMap()))}
		ops := []string{"maps.from-entries", "maps.get", "maps.keys", "maps.values", "maps.to-entries", "maps.make", "maps.merge"}
		ck.matrix(ops, args, 0, 1, 2)
		ck.matrix([]string{"maps.merge"}, args, 3)
		b := ck.batch("mergekeys") // the merge key with every value, and every list of two or three
		ms := []*N{nMap(), nMap(kv("a", nInt(1)), kv("b", nInt(2))), nMap(kv("b", nInt(3)), kv("c", nInt(4))), nNull(), nInt(1), nSeq()}
		with := func(v *N) { b.add(nMap(kv("b", nInt(0)), kv("<<", v), kv("c", nInt(9)))) }
		for _, v := range args {
			with(v.clone())
		}
		tuples(ms, 1, func(a []*N) { with(nSeq(a...)) })
		tuples(ms, 2, func(a []*N) { with(nSeq(a...)) })
		tuples(ms[:5], 3, func(a []*N) { with(nSeq(a...)) })
		tuples(ms, 2, func(a []*N) {
			b.add(nMap(kv("<<", a[0]), kv("b", nInt(0)), kv("<<", a[1])))
		})
		b.flush()
		base(ck, 2000, 30000, func(p *Profile) {
			p.Ops = map[string]int{"maps": 20, "ctl": 3, "lists": 2, "eq": 1, "lam": 2, "strs": 1, "arith": 1}
			p.Keys = []string{"a", "b", "c", "d", "name", "x y", "ключ", "1", "true"}
		})
		q := baseProfile()
		q.Keys = []string{"a", "b", "c", "name"}
		ck.run(1500, 20000, "merge", q, mergeProgram)
		ck.run(700, 15000, "typed", q, func(g *G, c *Case) { typedMerges(g, c, 3) })
	}
	checks["C23"] = func(ck *Check) {
		p := baseProfile()
		p.Big, p.Spell = 0.2, true
		ck.run(2500, 40000, "marshal", p, func(g *G, c *Case) {
			for i, k := 0, 1+g.n(3); i < k; i++ {
				v := g.plain(1 + g.n(4))
				if g.ch(0.6) {
					v = nStr(g.of(allStrs))
					if g.ch(0.3) {
						v = nStr(g.of(allStrs) + g.of(allStrs))
					}
				}
				v.Raw = ""
				noRaw(v)
				e := protect(v)
				if v.K == "str" && g.ch(0.4) { // a text that nobody wrote
					rs := []rune(v.S)
					k := g.n(len(rs) + 1)
					e = call("strings.concat", nStr(string(rs[:k])), nStr(string(rs[k:])))
				} else if g.ch(0.25) { // whatever the keys
					var ps []Pair
					es := nSeq()
					seen := map[string]bool{"<<": true}
					for j, n := 0, 1+g.n(4); j < n; j++ {
						k := g.of(oddKeys)
						if g.ch(0.6) {
							k = g.of(allStrs)
						}
						if seen[k] || !sortable.MatchString(k) {
							continue
						}
						seen[k] = true
						x := g.plain(1)
						noRaw(x)
						ps = append(ps, kv(k, x))
						es.Items = append(es.Items, nSeq(nStr(k), x.clone()))
					}
					e = quote(nMap(ps...))
					if g.ch(0.5) {
						e = call("maps.from-entries", quote(es))
					}
					if g.ch(0.3) {
						e = nMap(kv("m", e))
					}
				}
				switch g.n(8) {
				case 0:
					c.Docs = append(c.Docs, yispT(call("yaml.marshal", e)))
				case 1, 2:
					c.Docs = append(c.Docs, yispT(call("yaml.unmarshal", call("yaml.marshal", call("yaml.unmarshal", call("yaml.marshal", e))))))
				case 3:
					c.Docs = append(c.Docs, yispT(call("==", call("lists.car", call("yaml.unmarshal", call("yaml.marshal", e))), protect(e.clone()))))
				case 4:
					l := nSeq()
					for j, n := 0, g.n(4); j < n; j++ {
						x := g.plain(2)
						noRaw(x)
						l.Items = append(l.Items, x)
					}
					c.Docs = append(c.Docs, yispT(call("yaml.unmarshal", call("yaml.marshal", call("lists.as-toplevel", quote(l))))))
				case 5: // text the program holds
					var ts []string
					for j, n := 0, g.n(4); j < n; j++ {
						x := g.data1(3)
						ts = append(ts, (&Emitter{r: g.r, flow: g.p.Flow}).Doc(x))
					}
					t := joinDocs(ts)
					if g.ch(0.15) {
						t += oneOf(g, "{", "a: b: c", "\t- x", "- [", "'", "a: 1\na", "*nope", "!!int x", "%")
					}
					c.Docs = append(c.Docs, yispT(call("yaml.unmarshal", nStr(t))))
				default:
					c.Docs = append(c.Docs, yispT(call("yaml.unmarshal", call("yaml.marshal", e))))
				}
			}
		})
	}
	checks["C24"] = func(ck *Check) {
		ck.laws("text")
		ss := strsOf("", "a", "ab", "aaa", "a,b,,c", ",", "é日😀", " x\t", "\u3000 x\u00a0", "\"q\"\\", "line\nbreak", "AbÉ", "%s", "%%", "null", "10")
		ops := []string{"strings.concat", "strings.contains", "strings.quote", "strings.format", "strings.join", "strings.replace", "strings.sha256", "strings.split", "strings.toUpper", "strings.toLower", "strings.trim"}
		args := append(append([]*N{}, ss...), nInt(0), nInt(2), nNull(), nBool(true), qlist(strsOf("a", "", "b")...), nSeq(), qlist(nInt(1)), nMap())
		ck.matrix(ops, args, 0, 1, 2)
		b := ck.batch("replace")
		tuples(append(ss[:9:9], nInt(1)), 3, func(a []*N) { b.add(call("strings.replace", a...)) })
		for _, n := range []int64{-2, -1, 0, 1, 2, 3, 9} {
			tuples(ss[:7], 3, func(a []*N) { b.add(call("strings.replace", append(a, nInt(n))...)) })
		}
		for _, x := range ss {
			for _, y := range ss {
				b.add(call("strings.join", call("strings.split", x.clone(), y.clone()), y.clone()))
				b.add(call("strings.split", call("strings.join", qlist(x.clone(), y.clone(), x.clone()), nStr(",")), nStr(",")))
				b.add(call("strings.format", nStr("%s-%v|%s"), x.clone(), y.clone(), nStr("z")))
			}
		}
		b.flush()
		ck.Info["replace_split_cases"] = b.total
		base(ck, 1500, 30000, func(p *Profile) {
			p.Ops = map[string]int{"strs": 30, "ctl": 2, "lists": 2, "lam": 1, "eq": 1, "arith": 1, "logic": 1}
			p.Depth = 5
		})
	}
}

func noRaw(n *N) {
	n.Raw = ""
	for _, i := range n.Items {
		noRaw(i)
	}
	for i := range n.Pairs {
		n.Pairs[i].Raw = ""
		noRaw(n.Pairs[i].V)
	}
}
func (g *G) data1(d int) *N { n, _ := g.data("any", d); return n }

// maps that share keys, merged in every way there is
func mergeProgram(g *G, c *Case) {
	m := func() *N { n, _ := g.data("map", 3); return n }
	var names []string
	for i, k := 0, 2+g.n(3); i < k; i++ {
		a := fmt.Sprintf("m%d", i)
		n := m()
		n.Anchor = a
		names = append(names, a)
		c.Docs = append(c.Docs, n)
	}
	part := func() *N {
		if g.ch(0.7) {
			return nSym(g.of(names))
		}
		return protect(m())
	}
	for i, k := 0, 1+g.n(3); i < k; i++ {
		switch g.n(5) {
		case 0, 1:
			n := call("maps.merge")
			for j, k := 0, g.n(4); j < k; j++ {
				n.Items = append(n.Items, part())
			}
			c.Docs = append(c.Docs, yispT(n))
		case 2:
			n := nMap()
			for _, k := range g.keys(g.n(4)) {
				n.Pairs = append(n.Pairs, kv(k, g.data1(2)))
			}
			one := func() *N {
				switch g.n(12) {
				case 0, 1:
					return m()
				case 2, 3:
					return nNull()
				case 4:
					return yispT(call("maps.merge", part(), part()))
				case 5:
					return yispT(call("??", nNull(), part()))
				case 6:
					return yispT(nSeq(nStr("if"), oneOf(g, nNull(), nBool(true)), part(), nNull()))
				}
				return nSym(g.of(names))
			}
			for j := 0; j < 1 || g.ch(0.25); j++ {
				at := g.n(len(n.Pairs) + 1)
				v := one()
				if g.ch(0.5) {
					v = nSeq()
					for j, k := 0, g.n(5); j < k; j++ {
						v.Items = append(v.Items, one())
					}
					if g.ch(0.05) {
						v.Items = append(v.Items, oneOf(g, nInt(1), nStr("x"), nSeq(nMap())))
					}
				} else if g.ch(0.03) {
					v = oneOf(g, nInt(1), nStr("x"), nBool(false))
				}
				n.Pairs = append(n.Pairs[:at], append([]Pair{kv("<<", v)}, n.Pairs[at:]...)...)
			}
			c.Docs = append(c.Docs, n)
		case 3:
			c.Docs = append(c.Docs, yispT(call("maps.from-entries", call("maps.to-entries", part()))))
		case 4:
			c.Docs = append(c.Docs, yispT(call(oneOf(g, "maps.keys", "maps.values"), call("maps.merge", part(), part()))))
		}
	}
}

// ---- C06

// special forms, wrongly built
func (ck *Check) forms() {
	b := ck.batch("forms")
	parts := []*N{nInt(1), nStr("x"), nSym("x"), nNull(), nMap(), nSeq(), nSeq(nStr("x")), nSeq(nSym("x")), nSeq(nMap()), nSeq(nSeq()), nMap(kv("a", nInt(1))), nSeq(nStr("x"), nStr("y")), nSym("int"), nSeq(nStr("a"), nStr("nofile"))}
	for _, f := range []string{"lambda", "if", "import"} {
		for k := 0; k <= 3; k++ {
			ps := parts
			if k == 3 {
				ps = parts[:8]
			}
			tuples(ps, k, func(a []*N) {
				n := nSeq(append([]*N{nStr(f)}, a...)...)
				b.add(n)
				if f == "lambda" && k == 2 {
					b.add(nSeq(n.clone(), nInt(1)))
					b.add(nMap(kv("k", yispT(n.clone()))))
				}
			})
		}
	}
	for _, tag := range []string{"!int", "!nope", "!string", "!quote", "!yisp", "!x.y", "!null", "!bool", "!float"} {
		for _, v := range parts[:11] {
			b.add(v.clone().tag(tag))
			b.add(nMap(kv("k", v.clone().tag(tag))))
			p := v.clone()
			if p.K != "sym" {
				p.Tag = tag
			}
			b.add(nSeq(nSeq(nStr("lambda"), nSeq(p), nInt(1)), nStr("v")))
			b.add(nSeq(nSeq(nStr("lambda"), nSeq(nStr("p").tag(tag)), nSym("p")), v.clone()))
			b.add(nSeq(nSeq(nStr("lambda"), quote(nSeq(nStr("p"))).tag(tag), nSym("p")), v.clone()))
		}
	}
	for _, v := range append(sampleArgs[:len(sampleArgs):len(sampleArgs)], parts...) { // called, merged in, a branch
		w := v.clone()
		b.add(nSeq(w, nInt(1)))
		b.add(nSeq(v.clone()))
		b.add(nMap(kv("<<", v.clone())))
		b.add(nMap(kv("a", nInt(1)), kv("<<", nSeq(v.clone()))))
		b.add(nSeq(nStr("if"), v.clone(), nInt(1), nSym("nope")))
	}
	b.flush()
	ck.Info["form_cases"] = b.total
}

// texts that are hardly programs
func (ck *Check) garbage() {
	p := baseProfile()
	p.Ops["lam"] = 0
	p.Docs = [2]int{1, 3}
	p.NoLam = true
	ck.run(1500, 30000, "garbage", p, func(g *G, c *Case) {
		g.program(c)
		e := g.emitter()
		var ts []string
		for _, d := range c.Docs {
			ts = append(ts, e.Doc(d))
		}
		t := []rune(joinDocs(ts))
		for i, k := 0, 1+g.n(4); i < k && len(t) > 0; i++ {
			at := g.n(len(t))
			switch g.n(5) {
			case 0:
				n := min(len(t)-at, 1+g.n(6))
				t = append(t[:at:at], t[at+n:]...)
			case 1:
				ins := []rune(oneOf(g, "[", "]", "{", "}", ":", ": ", "- ", "\n", "\t", "'", "\"", "!", "!!int ", "!yisp ", "|", ">", "#", " #", "%", "@", "`", ",", "? ", "\x00", "\u0085", "\ufeff", "---\n", "...\n", "*", "*a?", "<<: ", "~", "\\", "!!binary ", "!<x> ", "*.", "*a..b", "*?", "\u2028"))
				t = append(t[:at:at], append(ins, t[at:]...)...)
			case 2:
				j := g.n(len(t))
				t[at], t[j] = t[j], t[at]
			case 3:
				n := min(len(t)-at, 1+g.n(20))
				t = append(t[:at:at], append(append([]rune{}, t[at:at+n]...), t[at:]...)...)
			case 4:
				t = t[:at]
			}
		}
		c.Docs = []*N{{K: "opaque", S: string(t)}}
	})
	// names in odd places, by hand
	b := ck.batch("odd")
	for _, t := range []string{"", "\n", "---\n", "---\n---\n", "# only\n", "&a *a\n", "*a.\n", "*.a\n", "*a..b\n", "&a [*a]\n", "&a {b: *a}\n", "? [a]\n: 1\n", "{[a]: 1}\n", "{{a: 1}: 2}\n", "<<: 1\n", "<<: [1]\n", "<<: *x\n", "!yisp\n", "!quote\n", "!yisp ~\n", "!yisp []\n", "!yisp [[]]\n", "!yisp [[[]]]\n", "!yisp [~]\n", "!yisp [1, 2]\n", "!yisp {a: [b]}\n", "!!map [1]\n", "!!seq {a: 1}\n", "!!str [1]\n", "!!int x\n", "!!float x\n", "!!bool x\n", "!!null x\n", "!!int [1]\n", "!!timestamp 2020-01-01\n", "!!binary aGk=\n", "!!set {a}\n", "!x [1]\n", "! a\n", "!int x\n", "!int {a: 1}\n", "%YAML 1.1\n---\na\n", "%TAG ! x\n---\n!y a\n", "a: 1\na: 2\n", "[a, b\n", "{a: b\n", "'a\n", "\"a\n", "a: b: c\n", "- a\nb\n", "\tx\n", "a:\n\t- b\n", "|\n", ">\n", "a: |\n", "a: |9\n x\n", "@x\n", "`x\n", "\x00", "\xff\xfe", "\xef\xbb\xbfa: 1\n", "a\x07b\n", "...\n", "a\n...\nb\n", "--- a\n--- b\n", "--- |\n x\n", "!yisp [lambda, [&x y], *x]\n", "!yisp [if]\n", "!yisp [lambda]\n", "!yisp [import]\n", "!yisp [import, a]\n", "!yisp [import, [a]]\n", "!yisp [import, [a, [b]]]\n", "!yisp [import, [[a], b]]\n", "!yisp [import, [1, 2]]\n", "!yisp [include]\n", "!yisp [include, 1]\n", "!yisp [include, ~]\n", "!yisp [include, '']\n", "!yisp [include, '*']\n", "!yisp [include, '[']\n", "!yisp [files.glob, '[']\n", "!yisp [files.glob, '']\n", "!yisp [files.read, '']\n", "!yisp [files.read, '.']\n", "!yisp [files.read, '/nope/nope']\n", "!yisp [include, 'http://127.0.0.1:1/x']\n", "!yisp [schema, {type: []}]\n", "!yisp [schema, {properties: {a: 1}}]\n", "!yisp [schema, {$ref: 1}]\n", "!yisp [types.assert, !yisp [schema, {}], 1]\n", "!yisp [types.assert, [schema, {type: object, additionalProperties: [1]}], {a: 1}]\n", "!yisp [types.assert, [schema, {oneOf: [~]}], 1]\n", "!yisp [types.assert, [schema, {type: array, items: ~}], !quote [1]]\n", "!yisp [types.assert, [schema, {type: function, arguments: [~]}], [lambda, [x], 1]]\n", "a: &a\n  b: *a\n", "{apiVersion: v1, kind: x}\n", "{apiVersion: 1, kind: []}\n", "{$schema: x}\n", "{$schema: [x]}\n", "{$schema: ''}\n", "{apiVersion: a/b/c, kind: d}\n", "{apiVersion: '', kind: ''}\n", "!yisp [strings.format, '%d%z%!', 1]\n", "!yisp [lists.iota, 9999999999999999999]\n", "!yisp [lists.iota, 1, 9223372036854775807]\n", "!yisp [/, -9223372036854775808, -1]\n", "!yisp [strings.replace, a, '', b, -9223372036854775808]\n", "!yisp [lists.at, !quote [1], 9223372036854775807]\n", "!yisp [maps.patch, {a: 1}, {op: test, path: /a, value: 1e400}]\n", "!yisp [maps.patch, !quote [1], !quote [{op: add, path: /18446744073709551616, value: 1}]]\n", "!yisp [k8s.patch, !quote [1], !quote [2]]\n", "!yisp [k8s.patch, !quote [{metadata: 1}], !quote [{metadata: 1}]]\n", "!yisp [exec.cmd, {cmd: ''}]\n", "!yisp [exec.go, {pkg: ''}]\n", "!yisp [exec.cmd, {cmd: probe, args: {}}]\n", strings.Repeat("[", 3000) + "\n", strings.Repeat("- ", 500) + "x\n", strings.Repeat("{a: ", 500) + strings.Repeat("}", 500) + "\n"} {
		b.add(&N{K: "opaque", S: t})
	}
	b.flush()
}

var _ = big.NewInt
