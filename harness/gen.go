package main

// Random programs.  A generated expression comes with a sketch of its value,
// so that most programs make sense for several documents; a few do not.

import (
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
)

type Sk struct {
	K    string // int float bool str null list docs map lam type any
	E    string // kind of the elements of a list
	Keys []string
	Vals []*Sk
	Args []string // of a function
	R    string
}

func sk(k string) *Sk { return &Sk{K: k} }

type Var struct {
	Name  string
	S     *Sk
	Maybe bool
}

type Profile struct {
	Ops      map[string]int // weights per operator group
	Docs     [2]int
	Depth    int
	Err      float64 // chance that a call or reference is spoiled
	Anchor   float64
	Ref      float64 // chance that a value is a reference if it can be
	Lit      float64 // chance that a value is a literal
	Big      float64 // chance of an unusual integer
	Names    []string
	Keys     []string
	Strs     []string
	Flow     float64
	Comments float64
	Spell    bool
	Redund   float64 // redundant mode tags
	NoLam    bool
	Probe    float64 // chance that an evaluated expression also runs a program
	Exec     float64 // chance that a value comes from a program
}

func baseProfile() Profile {
	return Profile{
		Ops:  map[string]int{"arith": 3, "cmp": 2, "eq": 2, "logic": 2, "ctl": 4, "lists": 4, "maps": 4, "strs": 2, "types": 1, "yaml": 1, "lam": 3},
		Docs: [2]int{2, 6}, Depth: 4, Err: 0.01, Anchor: 0.15, Ref: 0.3, Lit: 0.35, Big: 0.03,
		Names: []string{"a", "b", "x", "y", "foo", "bar-1", "v2"},
		Keys:  []string{"a", "b", "c", "x", "name", "k1", "with space", "ключ", "n.m", "1", "true", "-", "lambda", "if"},
		Strs:  plainStrs, Flow: 0.35, Comments: 0.05, Redund: 0.04,
	}
}

var plainStrs = []string{"", "a", "b", "abc", "foo", "Hello, World", "x y", "1", "-3", "1.5", "true", "null", "~", "a,b,c", "a: b", "- x", "#c", "é", "日本", "😀", "line1\nline2", "line\n", " pad ", "'q'", "\"dq\"", "back\\slash", "*ref", "&anc", "!tag", "{x}", "[y]", "%s", "0x1F", "1e3", ".inf", "2020-01-01", "2021-03-04", "1999-12-31T23:59:59Z", "yes", "if", "lambda", "tab\there", "=", "<<", "aaa", "AbC", "straße"[:4]}

type G struct {
	bound map[string]bool
	r     *rand.Rand
	p     Profile
	vars  []Var
	uniq  int
	bud   int // nodes left for the document
	depL  int // nesting of lambdas
	c     *Case
}

func (g *G) n(k int) int           { return g.r.Intn(k) }
func (g *G) ch(p float64) bool     { return g.r.Float64() < p }
func (g *G) of(ss []string) string { return ss[g.r.Intn(len(ss))] }
func oneOf[T any](g *G, xs ...T) T { return xs[g.r.Intn(len(xs))] }

var aliasOK = regexp.MustCompile(`^[A-Za-z0-9_-]+$`)

func elemOf(want string) string {
	if len(want) > 5 && want[:5] == "list:" {
		return want[5:]
	}
	return ""
}

func fits(want string, s *Sk) bool {
	switch want {
	case "any":
		return s.K != "lam" && s.K != "type" && s.K != "mod"
	case "num":
		return s.K == "int" || s.K == "float"
	case "list":
		return s.K == "list" || s.K == "docs"
	}
	if e := elemOf(want); e != "" {
		return s.K == "list" && (s.E == e || e == "any")
	}
	return s.K == want
}

// a reference to something that fits, or nil
func (g *G) ref(want string) (*N, *Sk) {
	type cand struct {
		path string
		s    *Sk
	}
	var cs []cand
	seen := map[string]bool{}
	for i := len(g.vars) - 1; i >= 0; i-- {
		v := g.vars[i]
		if seen[v.Name] {
			continue
		}
		seen[v.Name] = true
		var dig func(path string, s *Sk, d int)
		dig = func(path string, s *Sk, d int) {
			if fits(want, s) && !(v.Maybe && g.ch(0.8)) {
				cs = append(cs, cand{path, s})
			}
			if (s.K == "map" || s.K == "mod") && d < 3 {
				for j, k := range s.Keys {
					if aliasOK.MatchString(k) {
						dig(path+"."+k, s.Vals[j], d+1)
					}
				}
			}
		}
		dig(v.Name, v.S, 0)
	}
	if len(cs) == 0 {
		return nil, nil
	}
	c := cs[g.n(len(cs))]
	n := nSym(c.path)
	for i := range n.Segs {
		if g.ch(0.15) {
			n.Segs[i].Opt = true
		}
	}
	if g.ch(g.p.Err) {
		switch g.n(3) {
		case 0:
			n.Segs[len(n.Segs)-1].Name = "nope"
		case 1:
			n.Segs = append(n.Segs, Seg{Name: g.of([]string{"a", "zz", "b"}), Opt: g.ch(0.3)})
		case 2:
			n.Segs[g.n(len(n.Segs))].Opt = true
			n.Segs = append(n.Segs, Seg{Name: "zz", Opt: true})
		}
		return n, sk("any")
	}
	return n, c.s
}

var edgeInts = []string{"9223372036854775807", "-9223372036854775808", "9223372036854775806", "4611686018427387904", "9007199254740993", "9007199254740992", "-9007199254740993", "4294967296", "2147483648", "-2147483649", "99999999", "100000000", "1000000007", "123456789012345678", "-123456789", "3037000500", "65536"}

func (g *G) intLit() *N {
	if g.ch(g.p.Big) {
		i, _ := new(big.Int).SetString(g.of(edgeInts), 10)
		if g.ch(0.3) {
			i.Add(i, big.NewInt(int64(g.n(5)-2)))
			if !i.IsInt64() {
				i.SetInt64(1 << 62)
			}
		}
		return nBig(i)
	}
	return nInt(int64(g.n(14) - 3))
}
func (g *G) floatLit() *N {
	if g.ch(g.p.Big) {
		return nFloat(oneOf(g, 0.1, 3.14159, 1e21, 1e-7, -2.2, 123456789.125, 5e-324, 1e300, 33.333333333333336))
	}
	return nFloat(float64(g.n(41)-12) / 4)
}
func (g *G) strLit() *N { return nStr(g.of(g.p.Strs)) }

func (g *G) pickKind() string {
	return oneOf(g, "int", "int", "str", "str", "bool", "null", "float", "list", "map", "map", "list")
}

// plain data of a kind, in quote mode unless it must be a call
func (g *G) data(want string, d int) (*N, *Sk) {
	if want == "any" {
		want = g.pickKind()
		if d <= 0 && (want == "list" || want == "map") && g.ch(0.7) {
			want = "int"
		}
	}
	if want == "num" {
		want = oneOf(g, "int", "int", "float")
	}
	switch want {
	case "int":
		return g.intLit(), sk("int")
	case "float":
		return g.floatLit(), sk("float")
	case "str":
		return g.strLit(), sk("str")
	case "bool":
		return nBool(g.ch(0.5)), sk("bool")
	case "null":
		return nNull(), sk("null")
	case "map":
		n := g.n(4)
		if d <= 0 {
			n = g.n(2)
		}
		m := nMap()
		s := sk("map")
		for _, k := range g.keys(n) {
			v, vs := g.data("any", d-1)
			m.Pairs = append(m.Pairs, kv(k, v))
			s.Keys = append(s.Keys, k)
			s.Vals = append(s.Vals, vs)
		}
		return m, s
	}
	e := elemOf(want)
	if e == "" {
		e = oneOf(g, "any", "int", "str", "int")
	}
	n := g.n(5)
	if d <= 0 {
		n = g.n(3)
	}
	l := nSeq()
	for i := 0; i < n; i++ {
		v, _ := g.data(e, d-1)
		l.Items = append(l.Items, v)
	}
	return l, &Sk{K: "list", E: e}
}

func (g *G) keys(n int) []string {
	perm := g.r.Perm(len(g.p.Keys))
	var ks []string
	for i := 0; i < n && i < len(perm); i++ {
		ks = append(ks, g.p.Keys[perm[i]])
	}
	return ks
}

func (g *G) bind(n *N, s *Sk, maybe bool) {
	name := g.of(g.p.Names)
	if g.ch(0.3) {
		g.uniq++
		name = fmt.Sprintf("n%d", g.uniq)
	}
	n.Anchor = name
	g.vars = append(g.vars, Var{name, s, maybe})
}

// an expression that should yield a value of the kind, in mode m
func (g *G) val(want string, m byte, d int) (*N, *Sk) {
	n, s := g.val0(want, m, d)
	g.bud--
	if m == 'E' && g.ch(g.p.Probe) {
		n = call("progn", g.probeCall(g.ch(0.02)), n)
	}
	if n.K != "sym" {
		if n.Tag == "" && g.ch(g.p.Redund) && (n.K != "seq" || len(n.Items) == 0) && n.K != "map" {
			n.Tag = oneOf(g, "!quote", "!yisp")
		} else if n.Tag == "" && g.ch(g.p.Redund) {
			if m == 'Q' {
				n.Tag = "!quote"
			} else {
				n.Tag = "!yisp"
			}
		}
		if n.Anchor == "" && g.ch(g.p.Anchor) {
			g.bind(n, s, false)
		}
	}
	return n, s
}

func (g *G) e(want string, d int) *N { n, _ := g.val(want, 'E', d); return n }
func (g *G) q(want string, d int) *N { n, _ := g.val(want, 'Q', d); return n }

func (g *G) val0(want string, m byte, d int) (*N, *Sk) {
	if want == "any" {
		want = g.pickKind()
		if g.ch(g.p.Ref) {
			if n, s := g.ref("any"); n != nil {
				return n, s
			}
		}
	}
	if g.ch(g.p.Ref) {
		if n, s := g.ref(want); n != nil {
			return n, s
		}
	}
	if d > 0 && g.bud > 0 && want != "lam" && g.ch(g.p.Exec) {
		n, s := g.execCall(want, d)
		return g.inMode(m, n, s)
	}
	if want == "lam" {
		ar := g.n(3)
		var as []string
		for i := 0; i < ar; i++ {
			as = append(as, oneOf(g, "int", "str", "any"))
		}
		n, s := g.lambda(as, oneOf(g, "int", "any", "str"), d)
		return g.inMode(m, n, s)
	}
	if d <= 0 || g.bud <= 0 || g.ch(g.p.Lit) {
		return g.literal(want, m, d)
	}
	if want == "num" {
		want = oneOf(g, "int", "int", "float")
	}
	n, s := g.op(want, d)
	return g.inMode(m, n, s)
}

// a call, a lambda and so on, as it must be written in mode m
func (g *G) inMode(m byte, n *N, s *Sk) (*N, *Sk) {
	if m == 'Q' && n.K == "seq" && n.Tag == "" {
		n.Tag = "!yisp"
	}
	return n, s
}

func (g *G) literal(want string, m byte, d int) (*N, *Sk) {
	if d <= 0 || g.bud <= 0 {
		n, s := g.data(want, d)
		if m == 'E' {
			n = protect(n)
		}
		return n, s
	}
	if want == "num" {
		want = oneOf(g, "int", "int", "float")
	}
	switch {
	case want == "map":
		mp := nMap()
		s := sk("map")
		for _, k := range g.keys(g.n(4)) {
			v, vs := g.val("any", m, d-1)
			mp.Pairs = append(mp.Pairs, kv(k, v))
			s.Keys = append(s.Keys, k)
			s.Vals = append(s.Vals, vs)
		}
		if g.ch(0.12) {
			if r, rs := g.mergeKey(m, d-1); r != nil {
				i := g.n(len(mp.Pairs) + 1)
				mp.Pairs = append(mp.Pairs[:i], append([]Pair{kv("<<", r)}, mp.Pairs[i:]...)...)
				if rs != nil {
					for j, k := range rs.Keys {
						has := false
						for _, x := range s.Keys {
							has = has || x == k
						}
						if !has {
							s.Keys = append(s.Keys, k)
							s.Vals = append(s.Vals, rs.Vals[j])
						} else {
							for x := range s.Keys {
								if s.Keys[x] == k {
									s.Vals[x] = sk("unknown")
								}
							}
						}
					}
				}
			}
		}
		return mp, s
	case want == "list" || elemOf(want) != "":
		e := elemOf(want)
		if e == "" {
			e = oneOf(g, "any", "int", "str", "int")
		}
		if m == 'E' && g.ch(0.3) {
			return nSeq(), &Sk{K: "list", E: e}
		}
		l := nSeq()
		for i, k := 0, g.n(5); i < k; i++ {
			v, _ := g.val(e, 'Q', d-1)
			l.Items = append(l.Items, v)
		}
		if m == 'E' {
			quote(l)
		}
		return l, &Sk{K: "list", E: e}
	}
	return g.data(want, d)
}

// data as it must be written in eval mode
func protect(n *N) *N {
	switch n.K {
	case "seq":
		if len(n.Items) > 0 {
			n.Tag = "!quote"
		}
	case "map":
		for _, p := range n.Pairs {
			protect(p.V)
		}
	}
	return n
}

func (g *G) mergeKey(m byte, d int) (*N, *Sk) {
	switch g.n(6) {
	case 0: // a list of maps
		a, _ := g.val("map", 'Q', d)
		b, _ := g.val("map", 'Q', d)
		l := nSeq(a, b)
		if m == 'E' {
			quote(l)
		}
		return l, nil
	case 1:
		return nNull(), nil
	case 2:
		if g.ch(g.p.Err * 5) {
			return nInt(3), nil
		}
	}
	n, s := g.val("map", m, d)
	return n, s
}

// a function of the given parameters, to be written in eval mode
func (g *G) lambda(args []string, ret string, d int) (*N, *Sk) {
	saved := g.vars
	g.vars = append([]Var{}, g.vars...)
	ps := nSeq()
	used := map[string]bool{}
	for _, a := range args {
		name := g.of(g.p.Names)
		for used[name] {
			g.uniq++
			name = fmt.Sprintf("p%d", g.uniq)
		}
		used[name] = true
		p := nStr(name)
		if g.ch(0.7) {
			p = nSym(name)
		} else if g.ch(0.2) {
			if t, ok := map[string]string{"int": "!int", "str": "!string", "bool": "!bool", "float": "!float"}[a]; ok {
				p.Tag = t
			}
		}
		ps.Items = append(ps.Items, p)
		g.vars = append(g.vars, Var{name, sk(a), false})
	}
	if g.ch(0.05) {
		if t, ok := map[string]string{"int": "!int", "str": "!string"}[ret]; ok {
			ps.Tag = t
		}
	}
	g.depL++
	body, bs := g.val(ret, 'E', d-1)
	g.depL--
	g.vars = saved
	r := ret
	if bs != nil && ret != "any" {
		r = ret
	}
	n := nSeq(nStr("lambda"), ps, body)
	if g.ch(g.p.Err) {
		switch g.n(3) {
		case 0:
			n.Items = n.Items[:2]
		case 1:
			n.Items[1] = nInt(1)
		case 2:
			ps.Items = append(ps.Items, nMap())
		}
	}
	return n, &Sk{K: "lam", Args: args, R: r}
}

// a function for a list operator: a lambda, a reference or an operator name
func (g *G) fn(args []string, ret string, d int) *N {
	if g.ch(0.2) && g.depL < 3 {
		for i := len(g.vars) - 1; i >= 0; i-- {
			v := g.vars[i]
			if v.S.K == "lam" && len(v.S.Args) == len(args) && (v.S.R == ret || ret == "any") {
				shadowed := false
				for j := i + 1; j < len(g.vars); j++ {
					shadowed = shadowed || g.vars[j].Name == v.Name
				}
				if !shadowed {
					return nSym(v.Name)
				}
			}
		}
	}
	if g.ch(0.15) {
		switch {
		case len(args) == 1 && ret == "bool":
			return nStr("!")
		case len(args) == 1 && ret == "str" && args[0] == "str":
			return nStr(oneOf(g, "strings.toUpper", "strings.toLower", "strings.trim"))
		case len(args) == 2 && ret == "int" && args[0] == "int" && args[1] == "int":
			return nStr(oneOf(g, "+", "-", "*"))
		case len(args) == 1 && ret == "any":
			return nStr(oneOf(g, "types.of", "progn", "lists.flatten"))
		}
	}
	n, _ := g.lambda(args, ret, d)
	return n
}

// spoil a call now and then
func (g *G) call(op string, args ...*N) *N {
	if g.ch(g.p.Err) {
		switch g.n(4) {
		case 0:
			if len(args) > 0 {
				args = args[:len(args)-1]
			}
		case 1:
			args = append(args, nInt(1))
		case 2:
			if len(args) > 0 {
				w := oneOf(g, nInt(1), nStr("s"), nNull(), nMap(), nBool(true), nSeq(), nFloat(1.5), nSym("int"))
				args[g.n(len(args))] = w
			}
		case 3:
			op = oneOf(g, op+"x", "nosuch", "lists.nosuch", "strings")
		}
	}
	return call(op, args...)
}

// weighted choice of an operator group able to give the kind
func (g *G) op(want string, d int) (*N, *Sk) {
	type alt struct {
		grp string
		f   func() (*N, *Sk)
	}
	elem := elemOf(want)
	kind := want
	if elem != "" {
		kind = "list"
	} else {
		elem = oneOf(g, "int", "str", "any")
	}
	var alts []alt
	add := func(grp string, f func() (*N, *Sk)) { alts = append(alts, alt{grp, f}) }
	ret := func(s *Sk) func(n *N) (*N, *Sk) { return func(n *N) (*N, *Sk) { return n, s } }
	K := ret(sk(kind))
	L := ret(&Sk{K: "list", E: elem})
	sub := func(w string) *N { return g.e(w, d-1) }
	switch kind {
	case "int":
		add("arith", func() (*N, *Sk) {
			var as []*N
			for i, k := 0, oneOf(g, 2, 2, 2, 3, 1, 0, 4); i < k; i++ {
				as = append(as, sub("int"))
			}
			return K(g.call(oneOf(g, "+", "-", "*", "+", "-", "add", "sub", "mul"), as...))
		})
		add("arith", func() (*N, *Sk) {
			z := g.intLit()
			if z.I.Sign() == 0 && !g.ch(0.1) {
				z = nInt(int64(1 + g.n(6)))
			}
			as := []*N{sub("int"), z}
			if g.ch(0.2) {
				as = append(as, nInt(int64(oneOf(g, 2, -2, 3, 7))))
			}
			return K(g.call(oneOf(g, "/", "/", "div"), as...))
		})
		add("lists", func() (*N, *Sk) { return K(g.call("lists.length", sub("list"))) })
		add("lists", func() (*N, *Sk) { return K(g.reduce("int", d)) })
		add("lists", func() (*N, *Sk) { return K(g.call("lists.at", g.listN("int", d), nInt(int64(g.n(3))))) })
	case "bool":
		add("cmp", func() (*N, *Sk) {
			return K(g.call(oneOf(g, "<", "<=", ">", ">=", "lt", "lte", "gt", "gte"), sub("num"), sub("num")))
		})
		add("eq", func() (*N, *Sk) { return K(g.equal(d)) })
		add("logic", func() (*N, *Sk) {
			var as []*N
			for i, k := 0, oneOf(g, 2, 2, 3, 1, 0); i < k; i++ {
				as = append(as, sub(oneOf(g, "any", "bool")))
			}
			return K(g.call(oneOf(g, "&&", "||", "and", "or"), as...))
		})
		add("logic", func() (*N, *Sk) { return K(g.call(oneOf(g, "!", "not"), sub("any"))) })
		add("lists", func() (*N, *Sk) {
			e := oneOf(g, "int", "str", "any")
			return K(g.call("lists.contains", sub("list:"+e), sub(e)))
		})
		add("strs", func() (*N, *Sk) { return K(g.call("strings.contains", sub("str"), sub("str"))) })
	case "str":
		add("strs", func() (*N, *Sk) { return K(g.strOp(d)) })
		add("types", func() (*N, *Sk) { return K(g.call("types.of", sub("any"))) })
		add("lists", func() (*N, *Sk) { return K(g.call("lists.at", g.listN("str", d), nInt(int64(g.n(3))))) })
		add("lists", func() (*N, *Sk) { return K(g.reduce("str", d)) })
	case "list":
		add("lists", func() (*N, *Sk) {
			return L(g.call("lists.map", sub("list:"+elem), g.fn([]string{elem}, elem, d-1)))
		})
		add("lists", func() (*N, *Sk) {
			return L(g.call("lists.filter", sub("list:"+elem), g.fn([]string{elem}, "bool", d-1)))
		})
		add("lists", func() (*N, *Sk) { return L(g.call("lists.cons", sub(elem), sub("list:"+elem))) })
		add("lists", func() (*N, *Sk) { return L(g.call("lists.cdr", g.listN(elem, d))) })
		if elem == "any" || elem == "int" {
			add("lists", func() (*N, *Sk) {
				as := []*N{nInt(int64(g.n(5)))}
				if g.ch(0.3) {
					as = append(as, nInt(int64(g.n(4))))
				}
				n, _ := L(g.call("lists.iota", as...))
				return n, &Sk{K: "list", E: "int"}
			})
		}
		add("lists", func() (*N, *Sk) {
			var as []*N
			for i, k := 0, oneOf(g, 1, 1, 2, 2, 3, 0); i < k; i++ {
				if g.ch(0.4) {
					l := nSeq()
					for j, q := 0, g.n(3); j < q; j++ {
						l.Items = append(l.Items, g.q("list:"+elem, d-2))
					}
					as = append(as, quote(l))
				} else {
					as = append(as, sub("list:"+elem))
				}
			}
			n := g.call("lists.flatten", as...)
			return n, &Sk{K: "list", E: "any"}
		})
		if elem == "str" || elem == "any" {
			add("maps", func() (*N, *Sk) { return g.call("maps.keys", sub("map")), &Sk{K: "list", E: "str"} })
			add("strs", func() (*N, *Sk) {
				return g.call("strings.split", sub("str"), nStr(oneOf(g, ",", "", " ", "a", "é", "l", ", "))), &Sk{K: "list", E: "str"}
			})
		}
		if elem == "any" {
			add("maps", func() (*N, *Sk) {
				return g.call(oneOf(g, "maps.values", "maps.to-entries"), sub("map")), &Sk{K: "list", E: "any"}
			})
			add("yaml", func() (*N, *Sk) {
				return g.call("yaml.unmarshal", g.call("yaml.marshal", sub("any"))), &Sk{K: "list", E: "any"}
			})
		}
	case "map":
		add("maps", func() (*N, *Sk) { return K(g.call("maps.merge", g.times(1, 3, "map", d)...)) })
		add("maps", func() (*N, *Sk) {
			var as []*N
			for _, k := range g.keys(g.n(4)) {
				as = append(as, nStr(k), sub("any"))
			}
			return K(g.call("maps.make", as...))
		})
		add("maps", func() (*N, *Sk) {
			l := nSeq()
			for _, k := range append(g.keys(g.n(3)), g.keys(1)...) {
				l.Items = append(l.Items, nSeq(nStr(k), g.q("any", d-2)))
			}
			return K(g.call("maps.from-entries", quote(l)))
		})
		add("maps", func() (*N, *Sk) {
			n := g.call("maps.from-entries", g.call("maps.to-entries", sub("map")))
			return K(n)
		})
		if g.p.Ops["patch"] > 0 {
			add("patch", func() (*N, *Sk) {
				v, vs := g.data("map", 3)
				return K(g.call("maps.patch", protect(v), g.patch(vs, v, d)))
			})
		}
	case "float", "null":
		add("ctl", func() (*N, *Sk) { return g.data(kind, 0) })
	}
	if kind != "docs" && kind != "lam" && kind != "type" {
		w := want
		if kind == "list" {
			w = "list:" + elem
		}
		any := ret(&Sk{K: kind, E: elem})
		add("ctl", func() (*N, *Sk) {
			c := sub(oneOf(g, "bool", "bool", "any"))
			v := len(g.vars)
			x := sub(w)
			for i := v; i < len(g.vars); i++ {
				g.vars[i].Maybe = true
			}
			v = len(g.vars)
			y := sub(w)
			for i := v; i < len(g.vars); i++ {
				g.vars[i].Maybe = true
			}
			n := nSeq(nStr("if"), c, x, y)
			if g.ch(g.p.Err) {
				n.Items = n.Items[:3]
			}
			return any(n)
		})
		add("ctl", func() (*N, *Sk) { return any(g.call("progn", append(g.times(0, 2, "any", d), sub(w))...)) })
		add("ctl", func() (*N, *Sk) {
			as := []*N{}
			for i, k := 0, g.n(3); i < k; i++ {
				if o := g.optional(); o != nil {
					as = append(as, o)
				} else {
					as = append(as, nNull())
				}
			}
			as = append(as, sub(w))
			return any(g.call(oneOf(g, "??", "default"), as...))
		})
		add("ctl", func() (*N, *Sk) {
			in := oneOf(g, "int", "str", "any")
			mid := oneOf(g, "int", "str", "any")
			return any(g.call("pipeline", sub(in), g.fn([]string{in}, mid, d-1), g.fn([]string{mid}, w, d-1)))
		})
		add("lam", func() (*N, *Sk) { // apply a function
			var as []string
			var args []*N
			for i, k := 0, g.n(4); i < k; i++ {
				a := oneOf(g, "int", "str", "any", "map")
				as = append(as, a)
			}
			for _, a := range as {
				args = append(args, sub(a))
			}
			f, _ := g.lambda(as, w, d-1)
			if g.ch(0.1) && len(args) > 0 {
				args = args[:len(args)-1]
			}
			if g.ch(g.p.Err) {
				args = append(args, nInt(1))
			}
			return any(nSeq(append([]*N{f}, args...)...))
		})
		add("lam", func() (*N, *Sk) { // apply a named function
			for i := len(g.vars) - 1; i >= 0; i-- {
				v := g.vars[i]
				if v.S.K == "lam" && v.S.R == kind && g.depL < 2 && !v.Maybe {
					var args []*N
					for _, a := range v.S.Args {
						args = append(args, sub(a))
					}
					return any(nSeq(append([]*N{nSym(v.Name)}, args...)...))
				}
			}
			return g.literal(w, 'E', d-1)
		})
		if kind != "map" && kind != "list" || g.ch(0.5) {
			add("maps", func() (*N, *Sk) {
				v := sub(w)
				k := g.keys(2)
				if len(k) < 2 {
					return v, sk(kind)
				}
				m := nMap(kv(k[0], v), kv(k[1], sub("any")))
				return any(g.call("maps.get", m, nStr(k[0])))
			})
			add("lists", func() (*N, *Sk) { return any(g.call("lists.car", g.call("lists.cons", sub(w), sub("list")))) })
		}
	}
	total := 0
	for _, a := range alts {
		total += g.p.Ops[a.grp]
	}
	if total == 0 {
		return g.literal(want, 'E', d-1)
	}
	x := g.n(total)
	for _, a := range alts {
		if x -= g.p.Ops[a.grp]; x < 0 {
			return a.f()
		}
	}
	panic("op")
}

func (g *G) times(lo, hi int, want string, d int) []*N {
	var as []*N
	for i, k := 0, lo+g.n(hi-lo+1); i < k; i++ {
		as = append(as, g.e(want, d-1))
	}
	return as
}

// a list literal with at least one element (usually)
func (g *G) listN(elem string, d int) *N {
	l := nSeq()
	for i, k := 0, oneOf(g, 1, 2, 3, 3, 3, 4); i < k; i++ {
		l.Items = append(l.Items, g.q(elem, d-2))
	}
	return quote(l)
}

func (g *G) reduce(kind string, d int) *N {
	return g.call("lists.reduce", g.listN(kind, d), g.fn([]string{kind, kind}, kind, d-1))
}

// an optional reference, to something or nothing
func (g *G) optional() *N {
	if g.ch(0.4) || len(g.vars) == 0 {
		return nSym(oneOf(g, "nope?", "missing?", "nope?.a", "nope?.a?"))
	}
	v := g.vars[g.n(len(g.vars))]
	s := v.Name
	if v.Maybe {
		s += "?"
	}
	if v.S.K == "map" {
		return nSym(s + "." + oneOf(g, "zz?", "a?", "b?", "name?"))
	}
	if v.Maybe {
		return nSym(s)
	}
	return nil
}

func (g *G) equal(d int) *N {
	op := oneOf(g, "==", "!=", "eq", "neq", "==")
	if g.ch(0.6) {
		v, _ := g.data("any", 3)
		w := v.clone()
		if g.ch(0.5) {
			g.mutate(w)
		} else {
			g.shuffle(w)
		}
		return g.call(op, protect(v), protect(w))
	}
	k := oneOf(g, "any", "int", "str", "num", "list", "map", "bool")
	return g.call(op, g.e(k, d-1), g.e(k, d-1))
}

// change one thing somewhere
func (g *G) mutate(n *N) {
	switch n.K {
	case "seq":
		if len(n.Items) > 0 && g.ch(0.7) {
			g.mutate(n.Items[g.n(len(n.Items))])
		} else if g.ch(0.5) && len(n.Items) > 0 {
			n.Items = n.Items[:len(n.Items)-1]
		} else {
			n.Items = append(n.Items, nNull())
		}
	case "map":
		if len(n.Pairs) > 0 && g.ch(0.7) {
			g.mutate(n.Pairs[g.n(len(n.Pairs))].V)
		} else if g.ch(0.5) && len(n.Pairs) > 0 {
			n.Pairs = n.Pairs[1:]
		} else {
			n.Pairs = append(n.Pairs, kv("zz", nNull()))
		}
	case "int":
		if g.ch(0.3) && n.I.IsInt64() {
			f := float64(n.I.Int64())
			*n = *nFloat(f)
		} else if g.ch(0.5) {
			n.I = new(big.Int).Add(n.I, big.NewInt(1))
			if !n.I.IsInt64() {
				n.I = big.NewInt(1)
			}
		} else {
			*n = *nStr(n.I.String())
		}
	case "float":
		*n = *nFloat(n.F + 0.25)
	case "bool":
		n.B = !n.B
	case "str":
		*n = *oneOf(g, nStr(n.S+"x"), nNull(), nStr(" "+n.S))
	case "null":
		*n = *oneOf(g, nBool(false), nStr(""), nInt(0), nStr("null"))
	}
}

// reorder maps; equality must not see it
func (g *G) shuffle(n *N) {
	for _, i := range n.Items {
		g.shuffle(i)
	}
	for _, p := range n.Pairs {
		g.shuffle(p.V)
	}
	g.r.Shuffle(len(n.Pairs), func(i, j int) { n.Pairs[i], n.Pairs[j] = n.Pairs[j], n.Pairs[i] })
}

func (g *G) strOp(d int) *N {
	s := func() *N { return g.e("str", d-1) }
	switch g.n(11) {
	case 0:
		return g.call("strings.concat", g.times(0, 3, "str", d)...)
	case 1:
		return g.call("strings.toUpper", s())
	case 2:
		return g.call("strings.toLower", s())
	case 3:
		return g.call("strings.trim", s())
	case 4:
		as := []*N{s(), g.strLit(), g.strLit()}
		if g.ch(0.4) {
			as = append(as, nInt(int64(g.n(4)-1)))
		}
		return g.call("strings.replace", as...)
	case 5:
		return g.call("strings.join", g.e("list:str", d-1), nStr(oneOf(g, ",", "", "-", "é", ", ")))
	case 6:
		sep := oneOf(g, ",", " ", "a", "l", "b", "é", "ab")
		return g.call("strings.join", g.call("strings.split", s(), nStr(sep)), nStr(sep))
	case 7:
		f := ""
		var as []*N
		for i, k := 0, g.n(4); i < k; i++ {
			f += oneOf(g, "", "x", "é ", "%%", "=")
			switch g.n(5) {
			case 0:
				f += "%s"
				as = append(as, s())
			case 1:
				f += "%d"
				as = append(as, g.e("int", d-1))
			case 2:
				f += "%t"
				as = append(as, g.e("bool", d-1))
			case 3:
				f += "%v"
				as = append(as, g.e(oneOf(g, "int", "str", "bool"), d-1))
			}
		}
		return g.call("strings.format", append([]*N{nStr(f + oneOf(g, "", "!", "%%"))}, as...)...)
	case 8:
		return g.call("strings.quote", g.e(oneOf(g, "str", "str", "int", "bool"), d-1))
	case 9:
		return g.call("strings.sha256", g.strLit())
	}
	return g.call("strings.concat", s(), s())
}

// a document: a value in quote mode (calls are tagged)
func (g *G) doc() *N {
	g.bud = 60
	w := oneOf(g, "any", "any", "map", "int", "list", "str", "bool", "lam")
	if w == "lam" && g.p.NoLam {
		w = "any"
	}
	n, s := g.val(w, 'Q', g.p.Depth)
	if n.Anchor == "" && n.K != "sym" && g.ch(0.5) {
		g.bind(n, s, false)
	}
	return n
}

func (g *G) program(c *Case) {
	k := g.p.Docs[0] + g.n(g.p.Docs[1]-g.p.Docs[0]+1)
	for i := 0; i < k; i++ {
		c.Docs = append(c.Docs, g.doc())
	}
}
func (g *G) emitter() *Emitter {
	return &Emitter{fold: true, r: g.r, flow: g.p.Flow, comments: g.p.Comments, spell: g.p.Spell}
}
