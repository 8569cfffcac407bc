package main

// C04: programs in which anything that is evaluated may also leave a mark.

type fn struct {
	name string
	ar   int
}

// Ord makes them
type Ord struct {
	*G
	c    *Case
	strs []string // names that stand for strings
	fns  []fn
	bud  int
	lamd int
}

func (o *Ord) mark() *N {
	if len(o.strs) > 0 && o.ch(0.5) {
		return call("exec.cmd", nMap(kv("cmd", nStr("probe")), kv("args", quote(nSeq(nSym(o.of(o.strs)), nStr(oneOf(o.G, "u", "v", "w"))))), kv("asString", nBool(true))))
	}
	return o.probeCall(o.ch(0.012))
}
func (o *Ord) w(n *N) *N {
	o.bud--
	switch {
	case o.bud < -12:
		return n
	case o.ch([]float64{0.35, 0.25, 0.12, 0}[min(o.lamd, 3)]):
		n = call("progn", o.mark(), n)
	case o.ch(0.04):
		n = call("progn", o.mark(), o.mark(), n)
	}
	if o.lamd == 0 && n.K != "sym" && n.Anchor == "" && o.ch(0.03) {
		n.Anchor = "z"
	}
	return n
}
func (o *Ord) sep(d int) int { return d - 1 - o.n(2) }

// E makes an expression of the kind: any str list map
func (o *Ord) E(d int, k string) *N { return o.w(o.e0(d, k)) }
func (o *Ord) e0(d int, k string) *N {
	if o.bud <= 0 {
		d = 0
	}
	if d > 0 && o.ch(0.3) { // whatever the kind
		switch o.n(7) {
		case 0:
			return nSeq(nStr("if"), o.E(o.sep(d), "any"), o.E(d-1, k), o.E(d-1, k))
		case 1:
			return call("progn", o.E(o.sep(d), "any"), o.E(d-1, k))
		case 2:
			return call(oneOf(o.G, "??", "default"), o.nil(d-1), o.E(d-1, k))
		case 3:
			n := nSeq(nil)
			ar := o.n(4)
			n.Items[0] = o.fn(d-1, ar, k)
			if o.ch(0.2) {
				n.Items[0] = o.w(n.Items[0])
			}
			for i := 0; i < ar; i++ {
				n.Items = append(n.Items, o.E(o.sep(d), "str"))
			}
			return n
		case 4:
			n := call("pipeline", o.E(o.sep(d), "str"))
			for i, m := 0, o.n(2); i < m; i++ {
				n.Items = append(n.Items, o.w(o.fn(d-2, 1, "str")))
			}
			n.Items = append(n.Items, o.w(o.fn(d-1, 1, k)))
			return n
		case 5:
			return call("maps.get", call("maps.make", nStr("p"), o.E(d-1, k), nStr("q"), o.E(o.sep(d), "any")), o.w(nStr("p")))
		default:
			return call("lists.car", call("lists.cons", o.E(d-1, k), o.E(o.sep(d), "list")))
		}
	}
	switch k {
	case "str":
		if d <= 0 {
			if len(o.strs) > 0 && o.ch(0.6) {
				return nSym(o.of(o.strs))
			}
			return nStr(o.of([]string{"a", "b", "", "a b"}))
		}
		switch o.n(4) {
		case 0:
			return call("strings.concat", o.E(o.sep(d), "str"), o.E(o.sep(d), "str"), o.E(o.sep(d), "str"))
		case 1:
			return call("strings.join", o.E(d-1, "list"), o.E(o.sep(d), "str"))
		case 2:
			return call("lists.reduce", call("lists.cons", o.E(o.sep(d), "str"), o.E(d-1, "list")), o.fn(d-1, 2, "str"))
		default:
			return call(oneOf(o.G, "strings.toUpper", "strings.trim"), o.E(d-1, "str"))
		}
	case "list":
		if d <= 0 || o.ch(0.15) {
			n := nSeq()
			for i, m := 0, o.n(5); i < m; i++ {
				n.Items = append(n.Items, nStr(o.of([]string{"a", "b", "a", ""})))
			}
			return quote(n)
		}
		switch o.n(8) {
		case 0:
			n := nSeq()
			for i, m := 0, o.n(4); i < m; i++ {
				x := o.E(o.sep(d), "str")
				if x.K == "seq" {
					x.Tag = "!yisp"
				}
				n.Items = append(n.Items, x)
			}
			return quote(n)
		case 1, 2:
			return call("lists.map", o.E(d-1, "list"), o.w(o.fn(o.sep(d), 1, "str")))
		case 3, 4:
			return call("lists.filter", o.E(d-1, "list"), o.w(o.fn(o.sep(d), 1, oneOf(o.G, "bool", "str", "any"))))
		case 5:
			return call("lists.cons", o.E(o.sep(d), "str"), o.E(d-1, "list"))
		case 6:
			return call("lists.flatten", o.E(d-1, "list"), o.E(o.sep(d), "list"), o.E(o.sep(d), "str"))
		default:
			return call("strings.split", o.E(d-1, "str"), o.E(o.sep(d), "str"))
		}
	case "map":
		if d <= 0 {
			return nMap(kv("a", nInt(1)))
		}
		switch o.n(6) {
		case 0:
			n := call("maps.make")
			for _, key := range []string{"a", "b", "c"}[:1+o.n(3)] {
				n.Items = append(n.Items, o.w(nStr(key)), o.E(o.sep(d), "any"))
			}
			return n
		case 1:
			return call("maps.merge", o.E(o.sep(d), "map"), o.E(o.sep(d), "map"), o.E(o.sep(d), "map"))
		case 2:
			n := nSeq()
			for i, m := 0, o.n(4); i < m; i++ {
				n.Items = append(n.Items, yispT(call("lists.cons", o.E(o.sep(d), "str"), quote(nSeq(nInt(int64(i)))))))
			}
			return call("maps.from-entries", o.w(quote(n)))
		default:
			n := nMap()
			for _, i := range o.r.Perm(4)[:1+o.n(4)] {
				n.Pairs = append(n.Pairs, kv([]string{"b", "c", "a", "<<"}[i], nil))
				v := o.E(o.sep(d), "any")
				if i == 3 {
					v = o.E(o.sep(d), "map")
					if o.ch(0.3) {
						v = quote(nSeq(yispT(call("progn", o.E(o.sep(d), "map"))), yispT(call("progn", o.E(o.sep(d), "map")))))
					}
				}
				n.Pairs[len(n.Pairs)-1].V = v
			}
			return n
		}
	case "bool":
		if d <= 0 {
			return oneOf(o.G, nBool(false), nBool(true), nNull(), nInt(0), nStr(""))
		}
		switch o.n(6) {
		case 0, 1:
			n := call(oneOf(o.G, "&&", "||", "and", "or"))
			for i, m := 0, 2+o.n(2); i < m; i++ {
				n.Items = append(n.Items, o.E(o.sep(d), "bool"))
			}
			return n
		case 2:
			return call(oneOf(o.G, "!", "not"), o.E(d-1, "any"))
		case 3:
			return call(oneOf(o.G, "==", "!="), o.E(o.sep(d), "any"), o.E(o.sep(d), "any"))
		case 4:
			return call(oneOf(o.G, "<", ">="), call("lists.length", o.E(o.sep(d), "list")), o.w(nInt(int64(o.n(4)))))
		default:
			return call("lists.contains", o.E(d-1, "list"), o.E(o.sep(d), "str"))
		}
	case "nil":
		return nNull()
	}
	switch o.n(9) {
	case 0:
		return oneOf(o.G, nNull(), nBool(false), nInt(0), nStr(""), nSeq(), nMap(), nInt(7), nBool(true))
	case 1, 2:
		return o.e0(d, "bool")
	case 3:
		return o.e0(d, "map")
	case 4, 5:
		return o.e0(d, "list")
	case 6:
		if len(o.c.Files) > 0 && o.ch(0.5) {
			return call("include", nStr("inc.yisp"))
		}
		return call("+", o.w(nInt(1)), call("lists.length", o.E(o.sep(d), "list")), o.w(nInt(2)))
	}
	return o.e0(d, "str")
}
func (o *Ord) nil(d int) *N {
	if o.ch(0.5) {
		return o.E(d, "any")
	}
	return o.w(nNull())
}

// fn makes a function of strings
func (o *Ord) fn(d, ar int, k string) *N {
	if o.ch(0.4) {
		var l []string
		for _, f := range o.fns {
			if f.ar == ar {
				l = append(l, f.name)
			}
		}
		if len(l) > 0 {
			return nSym(o.of(l))
		}
	}
	if ar == 1 && k == "str" && o.ch(0.12) {
		return nStr(oneOf(o.G, "strings.toUpper", "progn"))
	}
	saved := o.strs
	ps := []string{"p", "q", "r", "s"}
	off := o.n(4 - min(ar, 3))
	ps = ps[off : off+min(ar, 3)]
	o.strs = append(append([]string{}, saved...), ps...)
	o.lamd++
	b := o.E(max(min(d, 3-o.lamd), 0), k)
	o.lamd--
	o.strs = saved
	return lam(ps, b)
}

func orderProgram(g *G, c *Case) {
	o := &Ord{G: g, c: c, bud: 400}
	c.AllowCmd, c.Final = !g.ch(0.02), true
	add := func(n *N, docs *[]*N) {
		if n.K == "seq" {
			n.Tag = "!yisp"
		}
		*docs = append(*docs, n)
	}
	if g.ch(0.2) { // a file that leaves marks when it is read
		f := &File{Kind: "yisp"}
		o.bud = 6
		for i, k := 0, 1+g.n(2); i < k; i++ {
			add(o.E(2, "any"), &f.Docs)
		}
		if g.ch(0.5) {
			add(lam([]string{"p"}, call("progn", o.mark(), nSym("p"))).anchor("k"), &f.Docs)
			for i, k := 0, 1+g.n(2); i < k; i++ {
				name := []string{"m", "n"}[i]
				add(nSeq(nStr("import"), nSeq(nStr(name), nStr("inc.yisp"))), &c.Docs)
				o.fns = append(o.fns, fn{name + ".k", 1})
			}
		}
		c.Files["inc.yisp"] = f
	}
	for i, k := 0, g.n(3); i < k; i++ {
		ar := g.n(4)
		f := o.fn(2, ar, oneOf(g, "str", "str", "any"))
		if f.K != "seq" {
			continue
		}
		f.Anchor = []string{"f", "g", "h"}[i]
		add(f, &c.Docs)
		o.fns = append(o.fns, fn{f.Anchor, ar})
	}
	for i, k := 0, 1+g.n(2); i < k; i++ {
		o.bud = 22
		n := o.E(2+g.n(4), "any")
		if n.K == "map" && g.ch(0.5) {
			n.Tag = "!yisp"
		} else if n.K == "map" {
			dataTags(n)
		}
		add(n, &c.Docs)
	}
}

// dataTags marks the calls in a map that is read as data
func dataTags(n *N) {
	for _, p := range n.Pairs {
		switch {
		case p.V.K == "seq" && p.V.Tag == "":
			p.V.Tag = "!yisp"
		case p.V.K == "map":
			dataTags(p.V)
		}
	}
}
