package main

// External programs: which may run, with what input, and what becomes of
// their output (C16).

import (
	"fmt"
	"path"
	"strings"
)

// a call of a program whose output is a value of the kind
func (g *G) execCall(want string, d int) (*N, *Sk) {
	sub := func(w string) *N { return g.e(w, d-1) }
	asText := want == "str" && g.ch(0.75)
	args := nSeq()
	s := sk("str")
	name := ""
	switch {
	case g.ch(g.p.Err * 4):
		args.Items = append(args.Items, nStr(oneOf(g, "!", "!", "!!", "!!out\n", "!!a: 1\n", "!-", "!-out\n", "!-a: 1\n")))
	case asText && g.ch(0.08):
		args.Items = append(args.Items, nStr(oneOf(g, "!?", "!?out\n", "!? pad \n\n")))
	case asText && g.ch(0.8):
		args.Items = append(args.Items, sub("str"))
	default:
		g.uniq++
		name = fmt.Sprintf("o%d", g.uniq)
		var docs []*N
		s = sk("docs")
		n := 1
		if g.ch(0.3) {
			n = g.n(4)
		}
		bad := g.ch(0.03)
		text := ""
		for i := 0; i < n; i++ {
			if bad && i == n-1 {
				docs, text = append(docs, &N{K: "malformed"}), "a: [1\n"
				break
			}
			v, vs := g.val(want, 'Q', d-1)
			if i == 0 {
				s = vs
			}
			docs = append(docs, v)
		}
		if text != "" {
			var ts []string
			for _, x := range docs[:len(docs)-1] {
				ts = append(ts, g.emitter().Doc(x))
			}
			text = joinDocs(append(ts, text))
		}
		if n == 0 {
			text = "# nothing\n"
		}
		g.c.Outs[name] = Out{Text: text, Docs: docs}
		args.Items = append(args.Items, nStr("@"+name))
	}
	for g.ch(0.3) {
		args.Items = append(args.Items, g.e("str", d-1))
	}
	for _, a := range args.Items {
		if a.K == "seq" && a.Tag == "" { // a call
			a.Tag = "!yisp"
		}
	}
	if len(args.Items) > 0 || g.ch(0.5) {
		quote(args)
	}
	if g.ch(g.p.Err) {
		args.Items = append(args.Items, oneOf(g, nInt(1), nNull(), quote(nSeq(nStr("a"))), nMap()))
	}
	op, m := "exec.cmd", nMap(kv("cmd", nStr("probe")))
	if g.ch(0.35) {
		op, m = "exec.go", nMap(kv("pkg", nStr(g.of(goPkgs[:6]))))
	} else if g.ch(g.p.Err) {
		m.Pairs[0].V = oneOf(g, nStr("no-such-program"), nInt(1), nStr(""))
	} else if !g.c.AllowCmd && g.c.Confirms == 0 && g.ch(0.5) { // the answer is no, whatever it is
		m.Pairs[0].V = nStr(oneOf(g, "/bin/true", "/bin/echo", "true", "echo", "./probe", "kubectl", "go", ""))
	}
	if g.ch(g.p.Err) {
		m.Pairs = nil
	}
	if asText && len(args.Items) == 1 && g.ch(0.1) { // its input comes back
		m.Pairs = append(m.Pairs, kv("stdin", args.Items[0]))
		if g.ch(0.5) {
			m.Pairs = append(m.Pairs, kv("args", nSeq()))
		}
	} else {
		m.Pairs = append(m.Pairs, kv("args", args))
		if g.ch(0.4) {
			m.Pairs = append(m.Pairs, kv("stdin", sub("str")))
		} else if g.ch(g.p.Err) {
			m.Pairs = append(m.Pairs, kv("stdin", oneOf(g, nInt(1), nNull(), nMap())))
		}
	}
	if name == "" || asText {
		m.Pairs = append(m.Pairs, kv("asString", nBool(true)))
		s = sk("str")
	} else if g.ch(0.3) {
		m.Pairs = append(m.Pairs, kv("asString", nBool(false)))
	}
	if g.ch(g.p.Err) && op == "exec.cmd" {
		m.Pairs = append(m.Pairs[:len(m.Pairs)-1], kv("asString", oneOf(g, nStr("yes"), nInt(1), nNull())))
	}
	if g.ch(0.3) {
		g.shuffle(m)
	}
	n := call(op, m)
	if g.ch(g.p.Err) {
		n.Items = append(n.Items, nInt(1))
	}
	if name != "" && !asText {
		if g.ch(0.85) {
			n = call("lists.at", n, nInt(0))
		} else {
			s = sk("docs")
		}
	}
	return n, s
}

var goPkgs = []string{"github.com/a/b", "github.com/a/b@latest", "github.com/a/b/cmd/x@v1.2.3", "github.com/ab", "githubXcom/a/b", "a.b",
	"axb", "ab", "a", "", "A.b", "g++", "g", "gg+", "(x)", "x", "[a]", "a*c", "abc", "ac", "x?", "^a", "a$", "d1", "\\d1", "./cmd", "github.com/a/b ", " github.com/a/b", "a.b.c", "ba.b", "a{2}", "aa", "a|b", "b", "é.b"}
var goPatterns = []string{"github.com/a/b", "github.com/a/*", "github.com/*", "*", "**", "a.b", "a*c", "a*", "*b", "*.b", "", "g++", "(x)", "[a]", "x?", "^a", "a$", "\\d1", "A.B", "github.com/*/b", "*@latest", "github.com/a/b@*", "a|b", "a{2}", ".*", ".", "*a*b*", "github.com/a/b*", "b|*"}

func init() {
	checks["C16"] = func(ck *Check) {
		// every pattern and package
		var cases []*Case
		for _, pat := range goPatterns {
			for _, pkg := range goPkgs {
				c := newCase(ck.Prop, 0)
				c.AllowGo = []string{pat}
				n := call("exec.go", nMap(kv("pkg", nStr(pkg)), kv("args", quote(nSeq(nStr("out"), nStr("two words"), nStr("")))), kv("stdin", nStr("in\n")), kv("asString", nBool(true))))
				n.Tag = "!yisp"
				c.Docs = []*N{n}
				c.Texts = []string{(&Emitter{fold: true, r: ck.rng("m"), flow: 1}).Doc(n)}
				cases = append(cases, c)
			}
		}
		ck.sessions(cases)
		perms := func(g *G, c *Case) {
			c.AllowCmd = g.ch(0.85)
			for g.ch(0.75) {
				c.AllowGo = append(c.AllowGo, oneOf(g, g.of(goPatterns), g.of(goPatterns[:5]), g.of(goPkgs[:6]), "*"))
			}
		}
		p := baseProfile()
		p.Exec, p.Docs, p.Err = 0.12, [2]int{1, 4}, 0.006
		ck.run(1500, 25000, "programs", p, func(g *G, c *Case) {
			c.Final = true
			perms(g, c)
			g.program(c)
		})
		// the tool asks, unless told not to
		p.Exec, p.Docs = 0.15, [2]int{1, 3}
		ck.sessionsBy(ck.generate(ck.scale(200, 3000), "tool", p, func(g *G, c *Case) {
			c.Final = true
			perms(g, c)
			c.AllowCmd = g.ch(0.3)
			c.Confirms = oneOf(g, 0, 1, 1, 2, 3, 10, 50)
			long := g.ch(0.25)
			if long { // a program on standard input does not confirm its own commands
				c.Stdin, c.Confirms = true, 0
				c.Main = path.Join(c.Cwd, "stdin.yisp")
			}
			g.program(c)
			if long {
				c.Docs = append(c.Docs, nStr(strings.Repeat("long ", 1000)+"."))
			}
		}), ck.cliBuilds)
	}
}
