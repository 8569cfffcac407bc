package main

// Where values and errors come from (C28).

import (
	"fmt"
	"maps"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"unicode/utf8"

	"gopkg.in/yaml.v3"
)

var wordRE = regexp.MustCompile(`^w\d+q$`)

// named numbers every text and number that is to be found again
func (g *G) named(n *N, nums bool) {
	switch n.K {
	case "str":
		if n.S == "wq" {
			g.uniq++
			n.S = fmt.Sprintf("w%dq", g.uniq)
		}
	case "int":
		if nums && n.Raw == "" {
			g.uniq++
			*n = N{K: "int", I: nInt(int64(1000000 + 37*g.uniq)).I, Tag: n.Tag, Anchor: n.Anchor}
		}
	}
	for _, i := range n.Items {
		g.named(i, nums)
	}
	for _, p := range n.Pairs {
		g.named(p.V, nums)
	}
}

// places tells where what can be found again is written
func (c *Case) places() map[string]any {
	all := map[string]any{}
	look := func(file, text string, docs []*N) {
		at := map[string]any{}
		for _, d := range docs {
			d.each(func(n *N) {
				key, find := "", ""
				switch {
				case n.K == "str" && wordRE.MatchString(n.S):
					key, find = n.S, n.S
				case n.K == "sym":
					key = "*" + n.Segs[0].Name
					find = key
				case n.K == "int" && n.I.IsInt64() && n.I.Int64() > 1000000 && n.I.Int64() < 2000000:
					key, find = "#"+n.I.String(), n.I.String()
				default:
					return
				}
				if at[key] == nil {
					at[key] = positions(text, find)
				}
			})
		}
		all[file] = at
	}
	look(c.Main, c.prefix(len(c.Docs)), c.Docs)
	for p, f := range c.Files {
		if f.Kind == "yisp" {
			look(p, f.Text, f.Docs)
		}
	}
	return all
}

func (c *Case) mentions(s string) bool {
	ss := map[string]bool{}
	for _, d := range c.Docs {
		collectStrings(d, ss)
	}
	return ss[s]
}

func (n *N) each(f func(*N)) {
	f(n)
	for _, i := range n.Items {
		i.each(f)
	}
	for _, p := range n.Pairs {
		p.V.each(f)
	}
}

var propsRE = regexp.MustCompile(`(?:[&!][^\s\[\]{},]*[ ]+)*["']?$`)
var blockRE = regexp.MustCompile(`(?:[&!][^\s\[\]{},]*[ ]+)*[|>][0-9+-]*$`)
var inWord = regexp.MustCompile(`[A-Za-z0-9_-]`)

// positions finds the scalars with this text: where their tags, anchors and quotes begin
func positions(text, word string) []any {
	l := []any{}
	lines := strings.Split(text, "\n")
	for i, line := range lines {
		for at := 0; ; {
			k := strings.Index(line[at:], word)
			if k < 0 {
				break
			}
			start, end := at+k, at+k+len(word)
			at = end
			if start > 0 && inWord.MatchString(line[start-1:start]) || end < len(line) && inWord.MatchString(line[end:end+1]) {
				continue
			}
			b := start
			if m := propsRE.FindStringIndex(line[:start]); m != nil {
				b = m[0]
			}
			if strings.TrimSpace(line[:b]) == "" && i > 0 { // in a style of more lines, or below its tag
				if m := blockRE.FindStringIndex(lines[i-1]); m != nil {
					if m[0] == 0 && i > 1 && lines[i-2] == "---" {
						l = append(l, fmt.Sprintf("%d:1", i-1))
					}
					l = append(l, fmt.Sprintf("%d:%d", i, utf8.RuneCountInString(lines[i-1][:m[0]])+1))
					continue
				}
				if strings.HasSuffix(lines[i-1], "\\") {
					continue
				}
			}
			if b == 0 && i > 0 && lines[i-1] == "---" { // a document is where it begins
				l = append(l, fmt.Sprintf("%d:1", i))
			}
			l = append(l, fmt.Sprintf("%d:%d", i+1, utf8.RuneCountInString(line[:b])+1))
		}
	}
	return l
}

var errAt = regexp.MustCompile(`(?m) at ([^\n]*?):(\d+):(\d+)\)*$`)
var commentAt = regexp.MustCompile(`^# ?(.*):(\d+):(\d+)$`)

// placesNamed reads the places from the comments of all scalars, or the first from a report
func placesNamed(s, text, msg, dir, cwd string) []any {
	l := []any{}
	rel := func(m []string) string {
		f := m[1]
		if filepath.IsAbs(f) {
			if r, err := filepath.Rel(dir, f); err == nil {
				f = r
			}
		} else {
			f = path.Join(cwd, f)
		}
		return f + ":" + m[2] + ":" + m[3]
	}
	if s == "err" {
		if m := errAt.FindStringSubmatch(msg); m != nil {
			l = append(l, rel(m))
		}
		return l
	}
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		switch n.Kind {
		case yaml.ScalarNode:
			if m := commentAt.FindStringSubmatch(n.LineComment); m != nil {
				l = append(l, rel(m))
			} else {
				l = append(l, n.LineComment)
			}
		case yaml.MappingNode:
			for i := 1; i < len(n.Content); i += 2 {
				walk(n.Content[i])
			}
		default:
			for _, c := range n.Content {
				walk(c)
			}
		}
	}
	for dec := yaml.NewDecoder(strings.NewReader(text)); s == "ok"; {
		var n yaml.Node
		if dec.Decode(&n) != nil {
			break
		}
		walk(&n)
	}
	return l
}

// misnamed puts something there is not into a program
func (g *G) misnamed(docs []*N) {
	var l []*N
	for _, d := range docs {
		d.each(func(n *N) {
			if (n.K == "str" && wordRE.MatchString(n.S) || n.K == "sym" || n.K == "int" || n.K == "null") && n.Anchor == "" && n.Tag == "" {
				l = append(l, n)
			}
		})
	}
	if len(l) == 0 {
		return
	}
	n := l[g.n(len(l))]
	g.uniq++
	w := fmt.Sprintf("w%dq", g.uniq)
	switch g.n(6) {
	case 0, 1, 2:
		*n = *nSym("u" + w)
	case 3:
		*n = *yispT(nSeq(nStr(w), nInt(1)))
	case 4:
		*n = *nStr(w).tag(oneOf(g, "!int", "!float"))
	default:
		*n = *nSym("u" + w + ".a")
	}
}

func init() {
	checks["C28"] = func(ck *Check) {
		p := baseProfile()
		p.Strs, p.Comments, p.Spell, p.Redund, p.Err = []string{"wq"}, 0, false, 0.02, 0.002
		p.Names = []string{"a", "b", "f", "m", "x"}
		p.Keys = []string{"a", "b", "m", "x", "name"}
		p.Ops["lam"], p.Ops["ctl"] = 6, 6
		one := func(nums bool, f func(g *G, c *Case)) func(g *G, c *Case) {
			return func(g *G, c *Case) {
				c.Places, c.Final, c.Untyped = true, true, true
				f(g, c)
				nums := nums && !c.mentions("lists.iota") // not that long
				for _, d := range c.Docs {
					g.named(d, nums)
				}
				for _, f := range slices.Sorted(maps.Keys(c.Files)) {
					if c.Files[f].Kind == "yisp" {
						for _, d := range c.Files[f].Docs {
							g.named(d, nums)
						}
					}
				}
				if g.ch(0.45) {
					docs := c.Docs
					if fs := slices.Sorted(maps.Keys(c.Files)); len(fs) > 0 && g.ch(0.5) {
						if f := c.Files[g.of(fs)]; f.Kind == "yisp" {
							docs = f.Docs
						}
					}
					g.misnamed(docs)
				}
			}
		}
		big := func(n int, salt string, p Profile, f func(g *G, c *Case)) {
			for i := 0; n > 0; n, i = n-5000, i+1 {
				ck.viewsBy(ck.generate(min(n, 5000), fmt.Sprint(salt, i), p, f), ck.views)
			}
		}
		big(ck.scale(1500, 30000), "programs", p, one(false, program))
		q := p
		q.Ops = map[string]int{"ctl": 5, "lists": 4, "maps": 5, "lam": 5}
		big(ck.scale(800, 15000), "moved", q, one(true, program))
		q.Depth, q.Anchor, q.Ref = 3, 0.25, 0.4
		w := Loads{Import: 8, Include: 8, Fn: 5, Spy: 2, Kinds: []string{"yisp", "yisp", "yisp", "data"}, Files: [2]int{1, 4}, Per: [2]int{1, 3}, Own: [2]int{1, 4}}
		big(ck.scale(1200, 20000), "files", q, one(false, func(g *G, c *Case) { g.project(c, w) }))
		ck.viewsBy(ck.generate(ck.scale(60, 1000), "tool", p, one(false, program)), ck.toolViews)
	}
}
