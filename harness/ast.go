package main

// Expressions as the specification sees them (module Yisp): every node is
// <<kind, tag, anchor, payload>>.

import (
	"encoding/json"
	"math"
	"math/big"
	"strconv"
	"strings"
)

type N struct {
	K      string // null bool int float str seq map sym bad
	Tag    string
	Anchor string
	B      bool
	I      *big.Int
	F      float64
	S      string
	Items  []*N
	Pairs  []Pair
	Segs   []Seg
	Raw    string // fixed spelling; "" lets the emitter choose
	Plain  bool   // Raw is only valid as a plain scalar
}
type Pair struct {
	Key string
	V   *N
	Raw string // fixed spelling of the key
}
type Seg struct {
	Name string
	Opt  bool
}

func nNull() *N           { return &N{K: "null"} }
func nBool(b bool) *N     { return &N{K: "bool", B: b} }
func nInt(i int64) *N     { return &N{K: "int", I: big.NewInt(i)} }
func nBig(i *big.Int) *N  { return &N{K: "int", I: i} }
func nFloat(f float64) *N { return &N{K: "float", F: f} }
func nStr(s string) *N    { return &N{K: "str", S: s} }
func nSeq(items ...*N) *N { return &N{K: "seq", Items: items} }
func nMap(ps ...Pair) *N  { return &N{K: "map", Pairs: ps} }
func kv(k string, v *N) Pair {
	return Pair{Key: k, V: v}
}
func nSym(path string) *N {
	n := &N{K: "sym"}
	for _, p := range strings.Split(path, ".") {
		s := Seg{Name: p}
		if strings.HasSuffix(p, "?") && p != "" {
			s = Seg{Name: p[:len(p)-1], Opt: true}
		}
		n.Segs = append(n.Segs, s)
	}
	return n
}
func (n *N) tag(t string) *N    { n.Tag = t; return n }
func (n *N) anchor(a string) *N { n.Anchor = a; return n }
func call(op string, args ...*N) *N {
	return nSeq(append([]*N{nStr(op)}, args...)...)
}
func quote(n *N) *N { return n.tag("!quote") }
func yispT(n *N) *N { return n.tag("!yisp") }

func (n *N) size() int {
	s := 1
	for _, i := range n.Items {
		s += i.size()
	}
	for _, p := range n.Pairs {
		s += p.V.size()
	}
	return s
}
func (n *N) clone() *N {
	c := *n
	c.Items = nil
	for _, i := range n.Items {
		c.Items = append(c.Items, i.clone())
	}
	c.Pairs = nil
	for _, p := range n.Pairs {
		c.Pairs = append(c.Pairs, Pair{p.Key, p.V.clone(), p.Raw})
	}
	return &c
}

// ---- canonical scalars, shared by expressions and observations

var limit = big.NewInt(100000000)

func canonInt(i *big.Int) []any {
	if new(big.Int).Abs(i).Cmp(limit) < 0 {
		return []any{"int", i.Int64()}
	}
	sign := 1
	a := new(big.Int).Set(i)
	if a.Sign() < 0 {
		sign = -1
		a.Neg(a)
	}
	limbs := []any{}
	base := big.NewInt(10000)
	for a.Sign() > 0 {
		m := new(big.Int)
		a.DivMod(a, base, m)
		limbs = append(limbs, m.Int64())
	}
	return []any{"big", []any{sign, limbs}}
}
func canonFloat(f float64) []any {
	switch {
	case math.IsNaN(f):
		return []any{"flt", ".nan"}
	case math.IsInf(f, 1):
		return []any{"flt", ".inf"}
	case math.IsInf(f, -1):
		return []any{"flt", "-.inf"}
	}
	q := f * 4
	if q == math.Trunc(q) && math.Abs(q) < 4e8 && !(f == 0 && math.Signbit(f)) {
		return []any{"float", int64(q)}
	}
	if f == 0 {
		return []any{"float", 0}
	}
	return []any{"flt", strconv.FormatFloat(f, 'g', -1, 64)}
}

// MarshalJSON gives the tuple of the specification.
func (n *N) MarshalJSON() ([]byte, error) { return json.Marshal(n.tuple()) }
func (n *N) tuple() []any {
	switch n.K {
	case "null":
		return []any{"null", specTag(n.Tag), n.Anchor, 0}
	case "bool":
		return []any{"bool", specTag(n.Tag), n.Anchor, n.B}
	case "int":
		c := canonInt(n.I)
		return []any{c[0], specTag(n.Tag), n.Anchor, c[1]}
	case "float":
		c := canonFloat(n.F)
		return []any{c[0], specTag(n.Tag), n.Anchor, c[1]}
	case "str":
		return []any{"str", specTag(n.Tag), n.Anchor, n.S}
	case "seq":
		l := []any{}
		for _, i := range n.Items {
			l = append(l, i.tuple())
		}
		return []any{"seq", specTag(n.Tag), n.Anchor, l}
	case "map":
		l := []any{}
		for _, p := range n.Pairs {
			l = append(l, []any{p.Key, p.V.tuple()})
		}
		return []any{"map", specTag(n.Tag), n.Anchor, l}
	case "sym":
		l := []any{}
		for _, s := range n.Segs {
			l = append(l, []any{s.Name, s.Opt})
		}
		return []any{"sym", specTag(n.Tag), n.Anchor, l}
	default: // bad, malformed
		return []any{n.K, specTag(n.Tag), n.Anchor, n.S}
	}
}

// the mode tags keep their exclamation mark, the others name a type
func specTag(t string) string {
	if t == "" || t == "!quote" || t == "!yisp" {
		return t
	}
	return t[1:]
}

// data gives the canonical projected value <<kind, payload>> of plain data.
func (n *N) data() []any {
	switch n.K {
	case "seq":
		l := []any{}
		for _, i := range n.Items {
			l = append(l, i.data())
		}
		return []any{"list", l}
	case "map":
		l := []any{}
		for _, p := range n.Pairs {
			l = append(l, []any{p.Key, p.V.data()})
		}
		return []any{"map", l}
	default:
		t := n.tuple()
		return []any{t[0], t[3]}
	}
}

// value gives the full specification value <<kind, payload, type[, origin]>>.
func (n *N) value() []any {
	none := []any{"none"}
	switch n.K {
	case "seq":
		l := []any{}
		for _, i := range n.Items {
			l = append(l, i.value())
		}
		return []any{"list", l, none}
	case "map":
		l := []any{}
		for _, p := range n.Pairs {
			l = append(l, []any{p.Key, p.V.value()})
		}
		return []any{"map", l, none}
	case "str":
		return []any{"str", n.S, none, ""}
	default:
		t := n.tuple()
		return []any{t[0], t[3], none}
	}
}
