package main

// JSON Patch programs.

import (
	"fmt"
	"strings"
)

func ptrEsc(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "~", "~0"), "/", "~1")
}

// a pointer into v: usually to something there
func (g *G) pointer(v *N, wild float64, d int) string {
	if v == nil || d <= 0 || g.ch(0.12) {
		return ""
	}
	switch v.K {
	case "map":
		if len(v.Pairs) > 0 && g.ch(wild) {
			return "/*" + g.pointer(v.Pairs[g.n(len(v.Pairs))].V, wild, d-1)
		}
		if len(v.Pairs) == 0 || g.ch(0.1) {
			return "/" + ptrEsc(g.of(g.p.Keys))
		}
		p := v.Pairs[g.n(len(v.Pairs))]
		return "/" + ptrEsc(p.Key) + g.pointer(p.V, wild, d-1)
	case "seq":
		if len(v.Items) > 0 && g.ch(wild) {
			return "/*" + g.pointer(v.Items[g.n(len(v.Items))], wild, d-1)
		}
		if g.ch(0.15) {
			return "/-"
		}
		i := g.n(len(v.Items) + 1)
		if g.ch(0.03) {
			i += 1 + g.n(2)
		}
		p := fmt.Sprintf("/%d", i)
		if i < len(v.Items) {
			p += g.pointer(v.Items[i], wild, d-1)
		}
		return p
	}
	if g.ch(0.05) {
		return "/x"
	}
	return ""
}

func at(v *N, ptr string) *N {
	if ptr == "" {
		return v
	}
	for _, s := range strings.Split(ptr[1:], "/") {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "~1", "/"), "~0", "~")
		var next *N
		switch v.K {
		case "map":
			for _, p := range v.Pairs {
				if p.Key == s {
					next = p.V
				}
			}
		case "seq":
			var i int
			if _, err := fmt.Sscanf(s, "%d", &i); err == nil && i < len(v.Items) && i >= 0 {
				next = v.Items[i]
			}
		}
		if next == nil {
			return nil
		}
		v = next
	}
	return v
}

func (g *G) patchOp(v *N) *N {
	wild := 0.12
	f := func() *N { d, _ := g.data("any", 2); return d }
	op := oneOf(g, "add", "add", "add", "remove", "replace", "replace", "copy", "move", "test")
	path := g.pointer(v, wild, 4)
	o := nMap(kv("op", nStr(op)), kv("path", nStr(path)))
	switch op {
	case "add", "replace":
		o.Pairs = append(o.Pairs, kv("value", f()))
	case "test":
		path = g.pointer(v, 0, 4)
		o.Pairs[1].V = nStr(path)
		w := at(v, path)
		if w == nil || g.ch(0.2) {
			w = f()
		} else {
			w = w.clone()
			g.shuffle(w)
			if g.ch(0.08) {
				g.mutate(w)
			}
		}
		o.Pairs = append(o.Pairs, kv("value", w))
	case "copy", "move":
		o.Pairs = append(o.Pairs, kv("from", nStr(g.pointer(v, 0, 4))))
	}
	if g.ch(g.p.Err) {
		switch g.n(6) {
		case 0:
			o.Pairs = append(o.Pairs[:1], o.Pairs[2:]...)
		case 1:
			o.Pairs = o.Pairs[:2]
		case 2:
			o.Pairs[0].V = nStr(oneOf(g, "Add", "", "delete"))
		case 3:
			o.Pairs[1].V = nStr(strings.TrimPrefix(path, "/"))
		case 4:
			o.Pairs[1].V = nStr(path + "/zz")
		case 5:
			o.Pairs[1].V = oneOf(g, nInt(0), nNull(), nSeq())
		}
	}
	if g.ch(0.2) {
		g.r.Shuffle(len(o.Pairs), func(i, j int) { o.Pairs[i], o.Pairs[j] = o.Pairs[j], o.Pairs[i] })
	}
	return o
}

// a patch of v, as an argument of a call
func (g *G) patch(s *Sk, v *N, d int) *N {
	if g.ch(0.1) {
		return protect(g.patchOp(v))
	}
	l := nSeq()
	for i, k := 0, oneOf(g, 1, 1, 1, 2, 2, 3, 4, 0); i < k; i++ {
		l.Items = append(l.Items, g.patchOp(v))
	}
	return quote(l)
}
