package main

// Programs for the properties of the language itself.

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

func (ck *Check) generate(n int, salt string, p Profile, f func(g *G, c *Case)) []*Case {
	var cases []*Case
	r := ck.rng(salt)
	for i := 0; i < n; i++ {
		c := newCase(ck.Prop, i)
		g := &G{r: r, p: p, c: c}
		f(g, c)
		c.write(g.emitter())
		cases = append(cases, c)
	}
	return cases
}

// run generates programs and has them judged
func (ck *Check) run(quick, thorough int, salt string, p Profile, f func(g *G, c *Case)) {
	n := ck.scale(quick, thorough)
	for n > 0 { // in batches, to keep memory down
		b := min(n, 12000)
		ck.sessions(ck.generate(b, fmt.Sprintf("%s/%d", salt, n), p, f))
		n -= b
	}
}

func program(g *G, c *Case) { g.program(c) }

// weights keeps the named operator groups only
func (p Profile) only(ops map[string]int) Profile { p.Ops = ops; return p }

// ---- C01

type spelling struct {
	raw string
	n   *N
}

func bigOf(s string) *N { i, _ := new(big.Int).SetString(s, 0); return nBig(i) }

var spellings = []spelling{
	{"0777", nInt(511)}, {"0x1F", nInt(31)}, {"-0x1F", nInt(-31)}, {"0o17", nInt(15)}, {"0b101", nInt(5)}, {"1_000", nInt(1000)}, {"+5", nInt(5)}, {"-0", nInt(0)},
	{"0xDEAD_BEEF", nInt(0xDEADBEEF)}, {"007", nInt(7)}, {"9223372036854775807", bigOf("9223372036854775807")}, {"-9223372036854775808", bigOf("-9223372036854775808")},
	{"1.", nFloat(1)}, {".5", nFloat(0.5)}, {"1e3", nFloat(1000)}, {"1E+3", nFloat(1000)}, {"-1.5e-3", nFloat(-0.0015)}, {"1_0.5", nFloat(10.5)}, {"0.1", nFloat(0.1)},
	{".inf", nFloat(math.Inf(1))}, {"+.inf", nFloat(math.Inf(1))}, {"-.Inf", nFloat(math.Inf(-1))}, {".NaN", nFloat(math.NaN())}, {"12e03", nFloat(12000)}, {"+1.25", nFloat(1.25)}, {"100000000000000000000", nFloat(1e20)},
	{"1e+100", nFloat(1e100)}, {"1.0e-200", nFloat(1e-200)}, {"2E100", nFloat(2e100)}, {"-0b101", nInt(-5)}, {"-0o17", nInt(-15)}, {"1_000_000", nInt(1000000)}, {"-1_0_0", nInt(-100)}, {"0b1_01", nInt(5)}, {"0b12", nStr("0b12")}, {"5.", nFloat(5)}, {"-2.e1", nFloat(-20)}, {"1.2.3", nStr("1.2.3")}, {"1:30", nStr("1:30")}, {"0o8", nStr("0o8")}, {"0x", nStr("0x")}, {"1e", nStr("1e")},
	{"y", nStr("y")}, {"no", nStr("no")}, {"Off", nStr("Off")}, {"x-y", nStr("x-y")}, {"~x", nStr("~x")}, {"-a", nStr("-a")}, {"a#b", nStr("a#b")}, {"a:b", nStr("a:b")}, {"...x", nStr("...x")},
	{"http://x/y", nStr("http://x/y")}, {"truE", nStr("truE")}, {"nULL", nStr("nULL")}, {"1 2", nStr("1 2")}, {"$(x)", nStr("$(x)")}, {"/a/b", nStr("/a/b")}, {"10Mi", nStr("10Mi")}, {"0.5.", nStr("0.5.")}, {"+", nStr("+")}, {"+x", nStr("+x")}, {"if", nStr("if")}, {"lambda", nStr("lambda")}, {"lists.map", nStr("lists.map")},
	{"~", nNull()}, {"Null", nNull()}, {"NULL", nNull()}, {"True", nBool(true)}, {"FALSE", nBool(false)},
	{"!!str 1", nStr("1")}, {"!!str true", nStr("true")}, {`!!int "3"`, nInt(3)}, {"!!float 3", nFloat(3)}, {`!!bool "true"`, nBool(true)}, {"!!str ~", nStr("~")}, {`!!null ""`, nNull()}, {"!!float 1.5", nFloat(1.5)}, {"!!int 7", nInt(7)},
	{`"\u00e9\t\x41"`, nStr("é\tA")}, {`"a\
  b"`, nStr("ab")}, {`"\0"`, nStr("\x00")}, {`"\U0001F600"`, nStr("😀")}, {"''", nStr("")}, {`""`, nStr("")},
}

var oddKeys = []string{"1", "true", "null", "1.5", "0x10", "~", "no", "-1", "a.b", "2020", "=", "1e3"}
var allStrs = append(append([]string{}, plainStrs...), "\u00a0", "\u200b", "a\u2028b", "\r\n", "\r", "x\n\ny\n\n", "\n", "\nx", "  x\n y", "x\n ", "\t", "a\tb", "trailing ", "\ufeffbom", "\x7f", "\x01", "🎉🎉", "'", "\"", "\\n", "---", "...", "--- a", "%YAML 1.2", "? x", ": y", "&", "*", "!", "|", ">", "@at", "`tick`", "{{ .Values.x }}", "[", "]", "{", "}", ",", "key: value # not a comment", "a #b", "1_000", "+1", "0o7", "0b1", "1.", ".5", "12e03", "1:30", "null ", "Null", "TRUE", "Infinity", "NaN", ".NaN", strings.Repeat("long words ", 15), strings.Repeat("x", 200), "one two three", "a b\nc d\n", "a\n\nb", "it's\nthe end", "x y\n\n\nz\n\n", "two  spaces here", "\n\nlead", "more\n  indented\nless\n", "x:", "a b:", "http://x/", "#", "-", "a -", "--", "-x", ":x", "?x", "?", ":", "- -", "a:b", "x: ", "a\tb: c", "a #", "#a", "a\n#b", "a\n- b", "a:\nb", "'a'", "\"a\"", "a'b", "{a", "a}", "[a", "a]", "a,b", "!x", "&x", "*x", "%x", "|x", ">x", "@x", "`x", "-1", "- 1", "~x", "=", "y", "N", "on", "Off", "a\u0085b", "\u0085", "\u0080x", "\u07ff\u0800", "\U0010FFFF", "\u2029", "\x1b[0m", "\x00", "\ufffd")

func (g *G) plain(d int) *N {
	if g.ch(0.3) {
		s := spellings[g.n(len(spellings))]
		n := s.n.clone()
		n.Raw = s.raw
		return n
	}
	kind := g.pickKind()
	if d <= 0 && g.ch(0.8) {
		kind = oneOf(g, "int", "str", "bool", "null", "float")
	}
	switch kind {
	case "int":
		if g.ch(0.3) {
			return nBig(new(big.Int).Sub(big.NewInt(g.r.Int63()), big.NewInt(g.r.Int63())))
		}
		return g.intLit()
	case "float":
		if g.ch(0.3) {
			f := math.Float64frombits(g.r.Uint64())
			return nFloat(f)
		}
		return g.floatLit()
	case "str":
		return nStr(g.of(allStrs))
	case "list":
		l := nSeq()
		for i, k := 0, g.n(5); i < k; i++ {
			l.Items = append(l.Items, g.plain(d-1))
		}
		return l
	case "map":
		m := nMap()
		n := g.n(5)
		if g.ch(0.03) {
			n = 30
		}
		for _, k := range g.keys(n) {
			m.Pairs = append(m.Pairs, kv(k, g.plain(d-1)))
		}
		if g.ch(0.15) {
			k := g.of(oddKeys)
			for _, p := range m.Pairs {
				if p.Key == k {
					return m
				}
			}
			m.Pairs = append(m.Pairs, Pair{k, g.plain(d - 1), k})
		}
		return m
	}
	n, _ := g.data(kind, 0)
	return n
}

// data beyond what is usual: long texts and keys, many items, deep nesting
func (g *G) large() *N {
	text := func(n int) string {
		var b strings.Builder
		words := []string{"word ", "x", "é", "日本 ", "😀", "a: b ", " #c ", "'", "\"", "\\", "longer-word_with.parts ", "0 ", "  ", "- ", ", "}
		if g.ch(0.4) {
			words = append(words, "\n", "\n", "\n\n", "\t", " \n")
		}
		if g.ch(0.2) {
			words = words[1:2]
		}
		for b.Len() < n {
			b.WriteString(g.of(words))
		}
		return b.String()
	}
	switch g.n(6) {
	case 0:
		return nStr(text(1000 + g.n(8000)))
	case 1:
		l := nSeq()
		for i, k := 0, 50+g.n(250); i < k; i++ {
			x := g.plain(0)
			if x.K == "str" && g.ch(0.7) {
				x = nStr(text(g.n(120)))
			}
			l.Items = append(l.Items, x)
		}
		return l
	case 2:
		m := nMap()
		for i, k := 0, 30+g.n(120); i < k; i++ {
			m.Pairs = append(m.Pairs, kv(fmt.Sprintf("%s%d", g.of([]string{"k", "a b", "é", "-", "#", "1"}), i), g.plain(g.n(2))))
		}
		return m
	case 3:
		n := g.plain(0)
		for i, k := 0, 10+g.n(25); i < k; i++ {
			switch g.n(4) {
			case 0:
				n = nSeq(n)
			case 1:
				n = nMap(kv(g.of(g.p.Keys), n))
			case 2:
				n = nSeq(g.plain(0), n, g.plain(1))
			case 3:
				n = nMap(kv("p", g.plain(0)), kv("q", n), kv("r", g.plain(0)))
			}
		}
		return n
	case 4: // long keys
		m := nMap()
		for i, k := 0, 1+g.n(3); i < k; i++ {
			m.Pairs = append(m.Pairs, kv(fmt.Sprintf("%d%s", i, strings.ReplaceAll(text(60+g.n(300)), "\n", " ")), oneOf(g, nStr(text(g.n(200))), g.plain(2))))
		}
		return m
	}
	m := nMap()
	for i, k := 0, 2+g.n(4); i < k; i++ {
		m.Pairs = append(m.Pairs, kv(fmt.Sprintf("t%d", i), oneOf(g, nStr(text(g.n(2000))), nSeq(nStr(text(g.n(900))), nStr(text(g.n(900)))), g.plain(3))))
	}
	return m
}

func init() {
	checks["C01"] = func(ck *Check) {
		p := baseProfile()
		p.Comments, p.Spell, p.Big, p.Flow = 0.1, true, 0.2, 0.3
		p.Keys = append(append([]string{}, p.Keys...), "z", "y", "m", "B", "_u", "k8s.io/name", "a/b", "metadata", "spec", "d e f", "#k", "'", "[k]", "k:", "*k", "&k", "!k", "", " s", "e1", "q1", "q2", "q3", "q4", "q5", "q6", "q7", "q8", "q9")
		ck.run(1600, 40000, "plain", p, func(g *G, c *Case) {
			for i, k := 0, 1+g.n(4); i < k; i++ {
				c.Docs = append(c.Docs, g.plain(1+g.n(4)))
			}
			c.Lead = oneOf(g, "", "", "", "---\n", "# head\n---\n", "# head\n", "\n\n")
		})
		ck.run(120, 2000, "large", p, func(g *G, c *Case) {
			for i, k := 0, 1+g.n(3); i < k; i++ {
				c.Docs = append(c.Docs, g.large())
			}
		})
	}
}
