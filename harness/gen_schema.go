package main

// Schemas, and values that nearly conform to them.

import (
	"fmt"
	"math/big"
)

type SchemaGen struct {
	Refs     []string // names a reference can use
	Defaults float64
	Strategy float64 // chance of a list having a merge strategy
	Funcs    bool
	Ap       float64 // chance that additional properties are said something about
	Req      float64
}

var skeys = []string{"a", "b", "c", "name", "spec", "x", "k1", "port", "z"}

func (g *G) schema(sg *SchemaGen, d int) *N {
	if len(sg.Refs) > 0 && g.ch(0.2) && d < 3 {
		r := g.of(sg.Refs)
		return nMap(kv("$ref", nStr(oneOf(g, "#/definitions/", "#/components/schemas/", "#/", "")+r)))
	}
	k := oneOf(g, "integer", "integer", "string", "string", "boolean", "float", "null", "any")
	if d > 0 {
		k = oneOf(g, "object", "object", "object", "array", "array", "oneOf", k, k, k)
		if sg.Funcs && g.ch(0.15) {
			k = "function"
		}
	}
	return g.schemaOf(sg, k, d)
}

func (g *G) schemaOf(sg *SchemaGen, k string, d int) *N {
	if k == "oneOf" {
		l := nSeq()
		for i, n := 0, 1+g.n(3); i < n; i++ {
			x := g.schema(&SchemaGen{Funcs: sg.Funcs, Ap: sg.Ap, Req: sg.Req}, d-1)
			l.Items = append(l.Items, x)
		}
		o := nMap(kv("oneOf", l))
		if g.ch(0.3) { // beside a type that says the same, or nothing
			t := "any"
			if first := field(l.Items[0], "type"); first != nil && g.ch(0.7) {
				switch first.S {
				case "integer", "float", "boolean", "null", "string":
					t = first.S
					if t == "string" && field(l.Items[0], "format") != nil {
						t = "any"
					}
				}
			}
			for _, x := range l.Items {
				if y := field(x, "type"); y == nil || y.S != t || field(x, "format") != nil {
					t = "any"
				}
			}
			o.Pairs = append([]Pair{kv("type", nStr(t))}, o.Pairs...)
			if g.ch(0.5) {
				g.r.Shuffle(2, func(i, j int) { o.Pairs[i], o.Pairs[j] = o.Pairs[j], o.Pairs[i] })
			}
		}
		return o
	}
	s := nMap(kv("type", nStr(k)))
	add := func(key string, v *N) { s.Pairs = append(s.Pairs, kv(key, v)) }
	bound := func() *N {
		if g.ch(0.25) {
			return nFloat(float64(g.n(30))/2 - 5)
		}
		if g.ch(0.05) {
			return g.intLit()
		}
		return nInt(int64(g.n(14) - 4))
	}
	switch k {
	case "integer", "float":
		for _, b := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
			if g.ch(0.2) {
				add(b, bound())
			}
		}
		if g.ch(0.15) {
			add("multipleOf", nInt(int64(1+g.n(4))))
		}
	case "string":
		if g.ch(0.2) {
			add("minLength", nInt(int64(g.n(4))))
		}
		if g.ch(0.25) {
			add("maxLength", nInt(int64(g.n(6))))
		}
		if g.ch(0.15) {
			add("format", nStr(oneOf(g, "int-or-string", "int-or-string", "byte")))
		}
	case "array":
		if g.ch(0.85) {
			if sg.Strategy > 0 && g.ch(0.5) {
				o := g.schemaOf(sg, "object", max(d-1, 1))
				add("items", o)
			} else {
				add("items", g.schema(sg, d-1))
			}
		}
		if g.ch(sg.Strategy) {
			pre := oneOf(g, "", "x-kubernetes-")
			name := map[string]string{"": "patchStrategy", "x-kubernetes-": "x-kubernetes-patch-strategy"}[pre]
			add(name, nStr(oneOf(g, "merge", "merge", "merge", "merge,retainKeys", "replace")))
			if g.ch(0.7) {
				mk := map[string]string{"": "patchMergeKey", "x-kubernetes-": "x-kubernetes-patch-merge-key"}[pre]
				key := oneOf(g, "name", "name", "name", "port", "a")
				add(mk, nStr(key))
				if ps := field(field(s, "items"), "properties"); ps != nil && g.ch(0.4) { // keys of several kinds
					t := nMap(kv("type", nStr("any")))
					if g.ch(0.4) {
						t = nMap(kv("type", nStr("string")), kv("format", nStr("int-or-string")))
					}
					if x := field(ps, key); x != nil {
						*x = *t
					} else {
						ps.Pairs = append(ps.Pairs, kv(key, t))
					}
				}
			}
		}
	case "object":
		ps := nMap()
		perm := g.r.Perm(len(skeys))
		n := g.n(4)
		if sg.Strategy > 0 {
			n++
		}
		for i := 0; i < n; i++ {
			x := g.schema(sg, d-1)
			if g.ch(sg.Defaults) {
				v := g.conforming(x, sg, 2)
				if v != nil {
					if g.ch(0.1) {
						g.mutate(v)
					}
					x.Pairs = append(x.Pairs, kv("default", v))
				}
			}
			ps.Pairs = append(ps.Pairs, kv(skeys[perm[i]], x))
		}
		if sg.Strategy > 0 && g.ch(0.8) {
			has := false
			for _, p := range ps.Pairs {
				has = has || p.Key == "name"
			}
			if !has {
				ps.Pairs = append(ps.Pairs, kv("name", nMap(kv("type", nStr("string")))))
			}
		}
		if n > 0 || g.ch(0.5) {
			add("properties", ps)
		}
		req := nSeq()
		for _, p := range ps.Pairs {
			if g.ch(sg.Req) {
				req.Items = append(req.Items, nStr(p.Key))
			}
		}
		if g.ch(0.04) {
			req.Items = append(req.Items, nStr("q"))
		}
		if len(req.Items) > 0 {
			add("required", req)
		}
		if g.ch(sg.Ap) {
			add("additionalProperties", oneOf(g, nBool(true), nBool(true), nBool(false), g.schema(&SchemaGen{Req: sg.Req, Refs: sg.Refs}, d-1)))
		}
	case "function":
		as := nSeq()
		for i, n := 0, g.n(3); i < n; i++ {
			as.Items = append(as.Items, g.argType(sg))
		}
		if len(as.Items) > 0 || g.ch(0.5) {
			add("arguments", as)
		}
		if g.ch(0.5) {
			add("returns", g.argType(sg))
		}
	}
	if g.ch(0.1) {
		add("description", nStr("words"))
	}
	if g.ch(0.2) {
		g.r.Shuffle(len(s.Pairs), func(i, j int) { s.Pairs[i], s.Pairs[j] = s.Pairs[j], s.Pairs[i] })
	}
	return s
}

// the type of an argument: for function schemas to agree on or not
func (g *G) argType(sg *SchemaGen) *N {
	if g.ch(0.6) {
		return nMap(kv("type", nStr(oneOf(g, "integer", "string", "any", "boolean"))))
	}
	return g.schemaOf(&SchemaGen{Funcs: true, Ap: sg.Ap, Req: sg.Req}, oneOf(g, "object", "object", "array", "function"), 1)
}

// another schema much like this one: the same to a function's eyes, or not
func (g *G) variant(s *N) *N {
	s = s.clone()
	subs := []*N{}
	if ps := field(s, "properties"); ps != nil {
		for _, p := range ps.Pairs {
			subs = append(subs, p.V)
		}
		switch {
		case g.ch(0.2):
			ps.Pairs = append(ps.Pairs, kv("more", nMap(kv("type", nStr("string")))))
		case g.ch(0.2) && len(ps.Pairs) > 0:
			i := g.n(len(ps.Pairs))
			ps.Pairs = append(ps.Pairs[:i], ps.Pairs[i+1:]...)
		case g.ch(0.3):
			g.r.Shuffle(len(ps.Pairs), func(i, j int) { ps.Pairs[i], ps.Pairs[j] = ps.Pairs[j], ps.Pairs[i] })
		}
	}
	if x := field(s, "items"); x != nil {
		subs = append(subs, x)
	}
	if x := field(s, "arguments"); x != nil {
		subs = append(subs, x.Items...)
		if g.ch(0.15) {
			x.Items = append(x.Items, nMap(kv("type", nStr("integer"))))
		}
	}
	if len(subs) > 0 && g.ch(0.4) {
		x := subs[g.n(len(subs))]
		*x = *g.variant(x)
	}
	if t := field(s, "type"); t != nil && len(subs) == 0 && g.ch(0.3) {
		t.S = oneOf(g, "integer", "string", "boolean", "any", "array", "object")
	}
	if g.ch(0.2) {
		s.Pairs = append(s.Pairs, kv("description", nStr("others")))
	}
	return s
}

func field(s *N, k string) *N {
	if s == nil {
		return nil
	}
	for _, p := range s.Pairs {
		if p.Key == k {
			return p.V
		}
	}
	return nil
}

// a value for a schema (nil if it takes a function): mostly one that conforms
func (g *G) conforming(s *N, sg *SchemaGen, d int) *N {
	if s == nil || s.K != "map" {
		v, _ := g.data("any", 1)
		return v
	}
	if r := field(s, "$ref"); r != nil {
		if g.c != nil && g.c.Schemas != nil {
			for id, x := range g.c.Schemas.Schemas {
				if len(r.S) >= len(id) && r.S[len(r.S)-len(id):] == id && d > -3 {
					return g.conforming(x, sg, d-1)
				}
			}
		}
		v, _ := g.data("any", 1)
		return v
	}
	if o := field(s, "oneOf"); o != nil && len(o.Items) > 0 {
		return g.conforming(o.Items[g.n(len(o.Items))], sg, d)
	}
	t := ""
	if x := field(s, "type"); x != nil {
		t = x.S
	}
	lim := func(k string, def int64) int64 {
		if b := field(s, k); b != nil {
			if b.K == "int" && b.I.IsInt64() {
				return b.I.Int64()
			}
			return int64(b.F)
		}
		return def
	}
	switch t {
	case "null":
		return nNull()
	case "boolean":
		return nBool(g.ch(0.5))
	case "integer", "float":
		lo := max(lim("minimum", -6), lim("exclusiveMinimum", -7)+1)
		hi := min(lim("maximum", lo+12), lim("exclusiveMaximum", lo+13)-1)
		if hi < lo || hi-lo > 1000 {
			hi = lo
		}
		i := lo + int64(g.n(int(hi-lo)+1))
		if g.ch(0.3) {
			i = oneOf(g, lo, hi, lo-1, hi+1)
		}
		if m := lim("multipleOf", 1); m > 1 && g.ch(0.8) {
			i -= i % m
		}
		if t == "float" {
			f := float64(i)
			if field(s, "multipleOf") == nil || g.ch(0.2) {
				f += float64(g.n(3)-1) / 4
			}
			return nFloat(f)
		}
		return nInt(i)
	case "string":
		if f := field(s, "format"); f != nil && f.S == "int-or-string" && g.ch(0.4) {
			return nInt(int64(g.n(5)))
		}
		n := lim("minLength", 0)
		hi := lim("maxLength", n+5)
		if hi < n {
			hi = n
		}
		n += int64(g.n(int(hi-n) + 1))
		x := ""
		for i := int64(0); i < n; i++ {
			x += g.of([]string{"a", "b", "é", "日", "😀", "1", " "})
		}
		if g.ch(0.2) {
			x = g.of(g.p.Strs)
		}
		return nStr(x)
	case "array":
		l := nSeq()
		for i, n := 0, g.n(4); i < n; i++ {
			if v := g.conforming(field(s, "items"), sg, d-1); v != nil {
				l.Items = append(l.Items, v)
			}
		}
		mk := field(s, "patchMergeKey")
		if mk == nil {
			mk = field(s, "x-kubernetes-patch-merge-key")
		}
		if mk != nil { // keys that meet
			for _, x := range l.Items {
				if x.K != "map" || !g.ch(0.8) {
					continue
				}
				k := nStr(oneOf(g, "a", "b", "1"))
				if f := field(field(s, "items"), "properties"); f != nil {
					if t := field(f, mk.S); t != nil {
						if field(t, "format") != nil && g.ch(0.5) {
							k = nInt(int64(1 + g.n(2)))
						} else if y := field(t, "type"); y != nil && y.S == "any" {
							k = oneOf(g, k, nInt(1), nFloat(1), nBool(true), nStr("true"), nNull(), nSeq(nInt(1)), nMap(kv("a", nInt(1))))
						} else if y != nil && y.S != "string" {
							continue
						}
					}
				}
				if f := field(x, mk.S); f != nil {
					*f = *k
				} else {
					x.Pairs = append(x.Pairs, kv(mk.S, k))
				}
			}
		}
		return l
	case "object":
		m := nMap()
		req := map[string]bool{}
		if r := field(s, "required"); r != nil {
			for _, i := range r.Items {
				req[i.S] = true
			}
		}
		if ps := field(s, "properties"); ps != nil {
			for _, p := range ps.Pairs {
				pr := 0.5
				if req[p.Key] {
					pr = 0.97
				}
				if d < -2 && !req[p.Key] {
					pr = 0
				}
				if d > -4 && g.ch(pr) {
					if v := g.conforming(p.V, sg, d-1); v != nil {
						m.Pairs = append(m.Pairs, kv(p.Key, v))
					}
				}
			}
		}
		if ap := field(s, "additionalProperties"); ap != nil && g.ch(0.5) || g.ch(0.03) {
			m.Pairs = append(m.Pairs, kv(oneOf(g, "q", "extra"), func() *N {
				if ap != nil && ap.K == "map" {
					if v := g.conforming(ap, sg, d-1); v != nil {
						return v
					}
				}
				v, _ := g.data("any", 1)
				return v
			}()))
		}
		g.r.Shuffle(len(m.Pairs), func(i, j int) { m.Pairs[i], m.Pairs[j] = m.Pairs[j], m.Pairs[i] })
		return m
	case "function":
		return nil
	}
	v, _ := g.data("any", 1)
	return v
}

func (g *G) nearly(s *N, sg *SchemaGen) *N {
	v := g.conforming(s, sg, 3)
	if v == nil {
		return nil
	}
	if g.ch(0.35) {
		g.damage(v)
	}
	return v
}

// damage changes one thing in a way a schema may mind
func (g *G) damage(n *N) {
	switch {
	case n.K == "map" && len(n.Pairs) > 0 && g.ch(0.75):
		i := g.n(len(n.Pairs))
		switch g.n(5) {
		case 0:
			n.Pairs = append(n.Pairs[:i], n.Pairs[i+1:]...)
		case 1:
			n.Pairs = append(n.Pairs, kv(oneOf(g, "extra", "extra", "$id", "$ref", "", "*", "type", "properties"), nInt(1)))
		default:
			g.damage(n.Pairs[i].V)
		}
	case n.K == "seq" && len(n.Items) > 0 && g.ch(0.75):
		g.damage(n.Items[g.n(len(n.Items))])
	case n.K == "int" && g.ch(0.5):
		n.I = new(big.Int).Add(n.I, big.NewInt(int64(oneOf(g, -7, -1, 1, 7))))
		if !n.I.IsInt64() {
			n.I = big.NewInt(7)
		}
	case n.K == "str" && g.ch(0.4):
		n.S += oneOf(g, "x", "日", "xxxxxx")
	default:
		w, _ := g.data("any", 1)
		w.Anchor = ""
		*n = *w
	}
}

// a universe of schemas whose references go anywhere, with kinds and addresses
func (g *G) universe(sg SchemaGen, urls bool) *Universe {
	u := &Universe{Schemas: map[string]*N{}, GVK: map[string]string{}, URLs: map[string]*N{}}
	ids := []string{"Alpha", "Beta", "io.k8s.Gamma"}[:1+g.n(3)]
	sg.Refs = ids
	if g.ch(0.15) {
		sg.Refs = append(append([]string{}, ids...), "Missing")
	}
	for _, id := range ids {
		u.Schemas[id] = g.schemaOf(&sg, oneOf(g, "object", "object", "object", "string", "array"), 2)
	}
	for _, k := range []string{"apps_v1_Deployment", "_v1_Service", "x.io_v1beta1_Thing", "Acme.IO_v1_Thing"} {
		if g.ch(0.8) {
			id := "kind." + k
			s := g.schemaOf(&sg, "object", 3)
			ps := field(s, "properties")
			if ps == nil {
				ps = nMap()
				s.Pairs = append(s.Pairs, kv("properties", ps))
			}
			str := func() *N { return nMap(kv("type", nStr("string"))) }
			ps.Pairs = append(ps.Pairs, kv("apiVersion", str()), kv("kind", str()),
				kv("metadata", nMap(kv("type", nStr("object")), kv("properties", nMap(kv("name", str()), kv("namespace", str()))), kv("additionalProperties", nBool(true)))))
			u.Schemas[id] = s
			u.GVK[k] = id
		}
	}
	if urls {
		for i := 0; i < 2; i++ {
			s := g.schemaOf(&sg, "object", 3)
			u.URLs[fmt.Sprintf("http://schemas.invalid/s%d.json", i)] = s
		}
	}
	return u
}
