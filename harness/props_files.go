package main

// Programs of several files.

import (
	"fmt"
	"maps"
	"path"
	"path/filepath"
	"slices"
	"strings"
)

// Loads weighs what a file does with the files before it
type Loads struct {
	Import, Include, Read, Glob, Fn, Spy int
	Kinds                                []string // of the other files
	Files                                [2]int
	Per                                  [2]int // documents that load something
	Own                                  [2]int // other documents
	Null                                 float64
}

type made struct {
	path string
	kind string // yisp data text bad none
	sk   *Sk    // what an import of it gives
	vars []Var
	dir  bool // an index file
}

type project struct {
	web  string // the address of the directory "web", if that is on a server
	g    *G
	c    *Case
	w    Loads
	done []made
	seen map[string]bool
	top  bool   // in the main file
	file string // being written
}

var fileDirs = []string{"", "", "a", "a/b", "lib dir", "z", "a.d", "é"}

func rel(from, to string) string {
	r, err := filepath.Rel(from, to)
	must(err)
	return r
}

func (p *project) remote(file string) bool {
	return p.web != "" && (file == "web" || strings.HasPrefix(file, "web/"))
}

// how a file in dir may name target
func (p *project) name(dir string, m made) string {
	g := p.g
	t := m.path
	if p.remote(t) {
		at := p.web + strings.TrimPrefix(t, "web")
		here := p.remote(dir)
		switch {
		case !here && g.ch(0.1) || here && g.ch(0.05):
			i := strings.LastIndex(at, "/")
			return at[:i] + oneOf(g, "/x/..", "/.") + at[i:]
		case !here || g.ch(0.1):
			return at
		case g.ch(0.15):
			return at[strings.Index(at[8:], "/")+8:]
		}
		m.dir = false // a server has no index files
	}
	if m.dir && g.ch(0.7) {
		t = path.Dir(t)
	}
	r := rel(orDot(dir), t)
	switch {
	case r == ".":
		return "."
	case g.ch(0.15) && !strings.HasPrefix(r, ".."):
		return "./" + r
	case g.ch(0.08) && dir != "":
		return "../" + path.Base(dir) + "/" + r
	case g.ch(0.06):
		if m.dir && !strings.HasSuffix(r, ".yisp") {
			return r + "/"
		}
	case g.ch(0.05) && strings.Contains(r, "/") && !strings.HasPrefix(r, ".."):
		i := strings.Index(r, "/")
		return r[:i] + "/../" + r
	}
	return r
}
func orDot(d string) string {
	if d == "" {
		return "."
	}
	return d
}

func (p *project) pick(kinds string) (made, bool) {
	var l []made
	for _, m := range p.done {
		if strings.Contains(kinds, m.kind) && (p.remote(m.path) || !p.remote(p.file)) {
			l = append(l, m)
		}
	}
	if len(l) == 0 {
		return made{}, false
	}
	return l[p.g.n(len(l))], true
}

// a file to name: usually one that is there
func (p *project) target(kinds string) made {
	if !p.g.ch(0.008) {
		if m, ok := p.pick(kinds); ok {
			return m
		}
		if m, ok := p.pick("yisp data text"); ok {
			return m
		}
	}
	return made{path: oneOf(p.g, "nofile.yisp", "a/nofile.txt", "nodir/x.yaml", "nofile"), kind: "none"}
}

func (p *project) pattern(dir string) string {
	g := p.g
	if p.top && g.ch(0.3) {
		return oneOf(g, "*.yisp", "m*.yisp", "?*.yisp", "./*.yisp", "*/*.yisp", "*/*.yisp", "a/*.yisp")
	}
	pats := []string{"*.yaml", "*.txt", "*.json", "d*", "*.y?ml", "*/*.txt", "a/*.yaml", "*/*.json", "t?.txt", "./*.txt", "*.none", "lib*/*.txt", "t*.*", "*/t1.txt", "d1.*", "*/*/*.txt", "*.t*t"}
	if g.ch(0.85) {
		if m, ok := p.pick("data text"); ok && !p.remote(m.path) { // something that matches
			r := rel(orDot(dir), m.path)
			if !strings.HasPrefix(r, "..") {
				b := path.Base(r)
				e := path.Ext(b)
				segs := strings.Split(path.Dir(r), "/")
				for i := range segs {
					if segs[i] != "." && g.ch(0.3) {
						segs[i] = "*"
					}
				}
				if e == "" {
					e = b[1:]
				}
				last := oneOf(g, "*"+e, b[:1]+"*", "?"+b[1:], "*", "*"+b[1:])
				if last == "*" && !p.top { // would find the files that come later
					last = "*" + e
				}
				return path.Join(path.Join(segs...), last)
			}
		}
	}
	return g.of(pats)
}

// a document that loads other files
func (p *project) load(dir string) *N {
	g := p.g
	if len(p.done) == 0 && !g.ch(0.02) {
		return g.doc()
	}
	total := p.w.Import + p.w.Include + p.w.Read + p.w.Glob + p.w.Fn + p.w.Spy
	x := g.n(total)
	in := func(w int) bool { x -= w; return x < 0 }
	switch {
	case in(p.w.Import):
		n := call("import")
		n.Tag = "!yisp"
		for i, k := 0, oneOf(g, 1, 1, 1, 2, 2, 0); i < k; i++ {
			m := p.target(oneOf(g, "yisp", "yisp", "yisp", "yisp", "data", "text"))
			name := g.of(g.p.Names)
			n.Items = append(n.Items, nSeq(nStr(name), nStr(p.name(dir, m))))
			s := sk("mod")
			if m.sk != nil {
				s = m.sk
			}
			g.vars = append(g.vars, Var{name, s, false})
		}
		return n
	case in(p.w.Include):
		n := call("include")
		n.Tag = "!yisp"
		for i, k := 0, oneOf(g, 1, 1, 1, 2, 3); i < k; i++ {
			if p.remote(p.file) && !g.ch(0.02) || p.web != "" && g.ch(0.7) {
				n.Items = append(n.Items, nStr(p.name(dir, p.target("yisp data yisp text"))))
			} else if m, ok := p.pick("data text"); ok && g.ch(0.25) && !p.remote(m.path) && !strings.HasPrefix(rel(orDot(dir), m.path), "..") || p.top && g.ch(0.1) {
				n.Items = append(n.Items, nStr(p.pattern(dir)))
			} else {
				n.Items = append(n.Items, nStr(p.name(dir, p.target("yisp data yisp text"))))
			}
		}
		docs := &Sk{K: "docs", E: "any"}
		switch g.n(8) {
		case 0:
			g.bind(n, docs, false)
		case 1: // the documents one by one
			return call("lists.map", n, lam([]string{"x"}, oneOf(g, nSym("x"), nMap(kv("k", nSym("x"))), quote(nSeq(nSym("x"))), call("types.of", nSym("x"))))).tag("!yisp")
		case 2:
			return call("lists.filter", n, lam([]string{"x"}, call("==", call("types.of", nSym("x")), nStr(oneOf(g, "map", "int", "string"))))).tag("!yisp")
		case 3:
			return nMap(kv("in", n), kv("n", call("lists.length", n.clone()).tag("!yisp")))
		case 4:
			return nSeq(n, nInt(1))
		case 5:
			return call("lists.flatten", n, oneOf(g, n.clone(), quote(nSeq(nInt(7))), nInt(8))).tag("!yisp")
		}
		return n
	case in(p.w.Read):
		n := call(p.reads(), nStr(p.name(dir, p.target("text data text yisp")))).tag("!yisp")
		if g.ch(0.4) {
			g.bind(n, sk("str"), false)
		} else if g.ch(0.2) {
			return call("yaml.unmarshal", n).tag("!yisp")
		}
		return n
	case in(p.w.Glob):
		n := call("files.glob", nStr(p.pattern(dir))).tag("!yisp")
		if g.ch(0.2) {
			n.Items = append(n.Items, nStr(p.pattern(dir)))
		}
		if g.ch(0.3) {
			g.bind(n, &Sk{K: "list", E: "map"}, false)
		} else if g.ch(0.4) {
			return call("lists.map", n, lam([]string{"f"}, quote(nSeq(nSym("f.name"), nSym("f.path"))))).tag("!yisp")
		}
		return n
	case in(p.w.Fn): // functions whose body or argument names a file
		t := p.name(dir, p.target("yisp data text"))
		switch g.n(5) {
		case 0:
			n := lam(nil, call("include", nStr(t))).tag("!yisp")
			g.bind(n, &Sk{K: "lam", R: "docs"}, false)
			return n
		case 1:
			n := lam([]string{"p"}, call(oneOf(g, "include", p.reads()), nSym("p"))).tag("!yisp")
			g.bind(n, &Sk{K: "lam", Args: []string{"path"}, R: "any"}, false)
			return n
		case 2:
			n := lam([]string{"p"}, quote(nSeq(call(p.reads(), nStr(p.name(dir, p.target("text data yisp")))).tag("!yisp"), nSym("p")))).tag("!yisp")
			g.bind(n, &Sk{K: "lam", Args: []string{"any"}, R: "any"}, false)
			return n
		case 3:
			n := nStr(t)
			g.bind(n, sk("path"), false)
			return n
		}
		n := lam([]string{"p"}, nSeq(nStr("progn"), nSeq(nStr("import"), nSeq(nStr(g.of(g.p.Names)), nStr(p.name(dir, p.target("yisp"))))), nSym("p"))).tag("!yisp")
		g.bind(n, &Sk{K: "lam", Args: []string{"any"}, R: "any"}, false)
		return n
	}
	// names of other files, seen or not
	if len(p.done) > 0 {
		m := p.done[g.n(len(p.done))]
		if len(m.vars) > 0 {
			v := m.vars[g.n(len(m.vars))]
			return call("??", nSym(v.Name+"?"), nStr("unseen")).tag("!yisp")
		}
	}
	return call("types.of", nSym(oneOf(g, "a?", "b?", "x?", "int?"))).tag("!yisp")
}

// a call of a function, perhaps one of a module, or something a module holds
func (p *project) use() *N {
	g := p.g
	type cand struct {
		path string
		s    *Sk
	}
	var cs []cand
	seen := map[string]bool{}
	for i := len(g.vars) - 1; i >= 0; i-- {
		v := g.vars[i]
		if seen[v.Name] || v.Maybe {
			continue
		}
		seen[v.Name] = true
		var dig func(path string, s *Sk, d int)
		dig = func(path string, s *Sk, d int) {
			if s.K == "lam" || d > 0 {
				cs = append(cs, cand{path, s})
			}
			if s.K == "mod" && d < 3 {
				for j, k := range s.Keys {
					dig(path+"."+k, s.Vals[j], d+1)
				}
			}
		}
		dig(v.Name, v.S, 0)
	}
	if len(cs) == 0 {
		return nil
	}
	c := cs[g.n(len(cs))]
	if c.s.K == "lam" {
		n := nSeq(nSym(c.path))
		n.Tag = "!yisp"
		for _, a := range c.s.Args {
			if a == "path" {
				n.Items = append(n.Items, nStr(p.name(path.Dir(p.here()), p.target("yisp data text"))))
			} else {
				n.Items = append(n.Items, g.e(a, 1))
			}
		}
		return n
	}
	if c.s.K == "type" || c.s.K == "mod" {
		return call("types.of", nSym(c.path)).tag("!yisp")
	}
	if c.s.K == "path" {
		return call(p.reads(), nSym(c.path)).tag("!yisp")
	}
	return nSym(c.path)
}

// only files on disk can be read as they are
func (p *project) reads() string {
	if p.web != "" && !p.g.ch(0.03) {
		return "include"
	}
	return "files.read"
}

func (p *project) here() string { return p.file }

func (p *project) source(file string) []*N {
	g := p.g
	p.file = file
	dir := path.Dir(file)
	if dir == "." {
		dir = ""
	}
	var docs []*N
	var steps []int
	for i, k := 0, p.w.Per[0]+g.n(p.w.Per[1]-p.w.Per[0]+1); i < k; i++ {
		steps = append(steps, 0)
	}
	for i, k := 0, p.w.Own[0]+g.n(p.w.Own[1]-p.w.Own[0]+1); i < k; i++ {
		steps = append(steps, 1+g.n(2))
	}
	g.r.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
	for _, s := range steps {
		switch {
		case g.ch(p.w.Null):
			docs = append(docs, oneOf(g, nNull(), nNull(), nSeq(), quote(nSeq()), call("lists.as-toplevel", quote(nSeq())).tag("!yisp"), call("lists.as-toplevel", quote(nSeq(nInt(1), nNull(), nSeq(nInt(2))))).tag("!yisp"), quote(nSeq(nNull())), call("lists.as-toplevel", quote(nSeq(nNull()))).tag("!yisp"), nMap(kv("k", call("lists.as-toplevel", quote(nSeq(nInt(1)))).tag("!yisp")))))
		case s == 0:
			docs = append(docs, p.load(dir))
		case s == 1:
			if u := p.use(); u != nil {
				docs = append(docs, u)
				continue
			}
			fallthrough
		default:
			docs = append(docs, g.doc())
		}
	}
	return docs
}

func (p *project) fresh(name func() string) string {
	for i := 0; ; i++ {
		f := name()
		if i > 20 {
			f = "u" + f
		}
		if !p.seen[f] {
			p.seen[f] = true
			return f
		}
	}
}

func (g *G) project(c *Case, w Loads) {
	p := &project{g: g, c: c, w: w, seen: map[string]bool{}}
	fileDirs := fileDirs
	if c.srv != nil {
		p.web = c.srv.base + "/" + c.name + "/web"
		fileDirs = []string{"", "a", "web", "web", "web/a", "web/a/b", "web/lib dir", "web/é"}
		if g.ch(0.4) { // all of it
			fileDirs = fileDirs[2:]
		}
	}
	k := w.Files[0] + g.n(w.Files[1]-w.Files[0]+1)
	for i := 0; i < k; i++ {
		kind := g.of(w.Kinds)
		dir := g.of(fileDirs)
		f := &File{Kind: kind, Known: true}
		m := made{kind: kind}
		switch kind {
		case "yisp":
			m.path = p.fresh(func() string { return path.Join(dir, oneOf(g, "m1.yisp", "m2.yisp", "x y.yisp", "lib.yisp")) })
			if dir != "" && g.ch(0.25) && !p.seen[path.Join(dir, "index.yisp")] {
				m.path, m.dir = path.Join(dir, "index.yisp"), true
				p.seen[m.path] = true
			}
			saved := g.vars
			g.vars = nil
			f.Docs = p.source(m.path)
			m.vars = g.vars
			g.vars = saved
			m.sk = sk("mod")
			idx := map[string]int{}
			for _, v := range m.vars {
				if v.Maybe {
					continue
				}
				if j, ok := idx[v.Name]; ok {
					m.sk.Vals[j] = v.S
				} else {
					idx[v.Name] = len(m.sk.Keys)
					m.sk.Keys = append(m.sk.Keys, v.Name)
					m.sk.Vals = append(m.sk.Vals, v.S)
				}
			}
			if g.ch(0.3) {
				m.sk.Keys = append(m.sk.Keys, "int")
				m.sk.Vals = append(m.sk.Vals, sk("type"))
			}
		case "data":
			if g.ch(0.35) {
				m.path = p.fresh(func() string { return path.Join(dir, oneOf(g, "d1.json", "d2.json", "t1.json")) })
				f.Docs = []*N{jsonSafe(g.plain(3))}
				f.Text = jsonText(f.Docs[0])
			} else {
				m.path = p.fresh(func() string { return path.Join(dir, oneOf(g, "d1.yaml", "d2.yml", "d3.yaml", "t1.yaml")) })
				for j, n := 0, oneOf(g, 1, 1, 1, 2, 3); j < n; j++ {
					f.Docs = append(f.Docs, textKeys(g.plain(2)))
				}
			}
		case "text":
			m.path = p.fresh(func() string {
				return path.Join(dir, oneOf(g, "t1.txt", "t2.txt", "README", "d1.md", "noext", "t3.yamlx"))
			})
			f.Text = oneOf(g, "plain text\n", "", "a: 1\nb: [x]\n", "no newline", "é 日本\n\n", "!yisp [+, 1, 2]\n", "{}", "---\n- 1\n---\nx\n", "\n lead\n")
		case "bad":
			m.path = p.fresh(func() string { return path.Join(dir, oneOf(g, "bad.yaml", "bad.yisp", "bad.json")) })
			f.Text = "{[a\n"
			switch path.Ext(m.path) {
			case ".json":
				f.Text = oneOf(g, "", "{[a\n", `{"a": 1} x`, "1 2\n", `{"a": 1}{"a": 1}`, `{"a": 1,}`, "[1", "a: 1\n", "{'a': 1}")
			case ".yaml":
				f.Text = oneOf(g, "", "{[a\n", "a: 1\n---\n[a\n", "a: 1\n  b: 2\n", "a: \"x\n", "- 1\nb: 2\n")
			case ".yisp":
				f.Text = oneOf(g, "{[a\n", "a: 1\n---\n[a\n", "!yisp [+, 1, x, {]\n")
			}
			f.Known = false
		}
		c.Files[m.path] = f
		p.done = append(p.done, m)
	}
	dir := g.of(fileDirs)
	c.Main = p.fresh(func() string {
		return path.Join(dir, oneOf(g, "main.yisp", "main 2.yisp", "m.yisp", "m1.yisp", "lib.yisp"))
	})
	p.top = true
	g.vars = nil
	c.Docs = p.source(c.Main)
	if len(c.Docs) == 0 {
		c.Docs = []*N{nNull()}
	}
	if m, ok := p.pick("yisp data text"); ok && !p.remote(m.path) { // a directory the specification knows of
		c.Cwd = path.Dir(m.path)
	}
	if c.Cwd == "." || g.ch(0.3) {
		c.Cwd = ""
	}
	if p.web != "" {
		files := map[string]*File{}
		for f, x := range c.Files {
			if p.remote(f) {
				f = p.web + strings.TrimPrefix(f, "web")
			}
			files[f] = x
		}
		c.Files = files
		if p.remote(c.Main) {
			c.Main = p.web + strings.TrimPrefix(c.Main, "web")
			c.Final = true
		}
	}
}

// online has the case's files at web addresses served
func (c *Case) online(g *G) {
	now := map[string]*Answer{}
	at := func(u string) string { return strings.TrimPrefix(u, c.srv.base+"/"+c.name+"/") }
	for _, u := range slices.Sorted(maps.Keys(c.Files)) {
		if !isURL(u) {
			continue
		}
		f := c.Files[u]
		a := &Answer{Kind: "ok", Text: f.Text}
		switch {
		case g.ch(0.1):
			a.Kind = "redirect"
		case g.ch(0.06):
			a.Kind = oneOf(g, "404", "500", "cut", "drop")
			f.Kind, f.Known = "bad", false
		}
		now[at(u)] = a
	}
	if isURL(c.Main) {
		now[at(c.Main)] = &Answer{Kind: "ok", Text: c.prefix(len(c.Docs))}
	}
	c.srv.mu.Lock()
	c.srv.now[c.name] = now
	c.srv.mu.Unlock()
}
func isURL(p string) bool { return strings.Contains(p, "://") }

// textKeys: data whose keys are text, as far as YAML is concerned
func textKeys(n *N) *N {
	for _, i := range n.Items {
		textKeys(i)
	}
	for i, p := range n.Pairs {
		if p.Raw != "" {
			n.Pairs[i].Key, n.Pairs[i].Raw = "k"+p.Key, ""
		}
		textKeys(p.V)
	}
	return n
}

// jsonSafe makes data survive JSON: floats must not look like integers
func jsonSafe(n *N) *N {
	n.Raw = ""
	if n.K == "float" && (n.F != n.F || n.F-n.F != 0 || n.F == float64(int64(n.F))) {
		*n = *nFloat(2.5)
	}
	for _, i := range n.Items {
		jsonSafe(i)
	}
	for i := range n.Pairs {
		n.Pairs[i].Raw = ""
		jsonSafe(n.Pairs[i].V)
	}
	return n
}

func init() {
	small := func(p *Profile) {
		p.Names = []string{"a", "b", "f", "m", "x"}
		p.Keys = []string{"a", "b", "m", "x", "name"}
		p.Depth, p.Anchor, p.Ref, p.Comments = 3, 0.25, 0.4, 0
	}
	checks["C05"] = func(ck *Check) {
		p := baseProfile()
		small(&p)
		p.Ops["lam"] = 6
		w := Loads{Import: 10, Include: 4, Fn: 4, Spy: 3, Read: 1, Kinds: []string{"yisp", "yisp", "yisp", "yisp", "data"}, Files: [2]int{1, 4}, Per: [2]int{1, 3}, Own: [2]int{2, 5}}
		ck.exploreSession(ck.scale(3, 6), ck.moduleAlphabet)
		ck.run(1500, 25000, "modules", p, func(g *G, c *Case) { g.project(c, w) })
	}
	checks["C19"] = func(ck *Check) {
		ck.laws("paths")
		p := baseProfile()
		small(&p)
		w := Loads{Import: 3, Include: 7, Read: 6, Glob: 6, Fn: 7, Kinds: []string{"yisp", "yisp", "data", "data", "text", "text", "yisp", "data", "text", "bad"}, Files: [2]int{1, 6}, Per: [2]int{2, 5}, Own: [2]int{0, 2}, Null: 0}
		ck.run(1500, 25000, "paths", p, func(g *G, c *Case) { g.project(c, w) })
		n := ck.scale(120, 2000)
		ck.sessionsBy(ck.generate(n, "tool", p, func(g *G, c *Case) {
			g.project(c, w)
			c.Final = true
			if g.ch(0.5) {
				c.Stdin = true
				c.Main = path.Join(c.Cwd, "stdin.yisp")
				delete(c.Files, c.Main)
			}
		}), ck.cliBuilds)
	}
	checks["C27"] = func(ck *Check) {
		ck.laws("paths")
		srv := ck.serve()
		p := baseProfile()
		small(&p)
		w := Loads{Import: 7, Include: 7, Fn: 6, Spy: 1, Read: 1, Kinds: []string{"yisp", "yisp", "yisp", "data", "data", "text", "bad"}, Files: [2]int{1, 5}, Per: [2]int{1, 3}, Own: [2]int{0, 2}}
		k := 0
		gen := func(n int, salt string) []*Case {
			var cases []*Case
			r := ck.rng(salt)
			for i := 0; i < n; i++ {
				c := newCase(ck.Prop, i)
				k++
				c.srv, c.name = srv, fmt.Sprintf("p%d", k)
				g := &G{r: r, p: p, c: c}
				g.project(c, w)
				c.write(g.emitter())
				c.online(g)
				cases = append(cases, c)
			}
			return cases
		}
		for left, i := ck.scale(1500, 25000), 0; left > 0; left, i = left-6000, i+1 {
			ck.sessions(gen(min(left, 6000), fmt.Sprintf("web%d", i)))
		}
		q := gen(ck.scale(100, 1500), "tool")
		for _, c := range q {
			c.Final = true
		}
		ck.sessionsBy(q, ck.cliBuilds)
	}
	// lists and lists of documents under names, and what the operators make of them
	tops := func(g *G, c *Case) {
		c.NoCheck, c.Untyped = g.ch(0.3), true
		var names []string
		n := 0
		add := func(v *N) {
			if v.K != "sym" && g.ch(0.6) {
				v.Anchor = fmt.Sprintf("v%d", n)
				names = append(names, v.Anchor)
				n++
			}
			c.Docs = append(c.Docs, v)
		}
		item := func() *N {
			return oneOf(g, nInt(int64(g.n(9))), nInt(int64(g.n(9))), nNull(), nSeq(), nSeq(nInt(1)), nMap(kv("a", nInt(2))), nStr(""), nSeq(nNull(), nSeq()))
		}
		list := func() *N {
			l := nSeq()
			for i, k := 0, g.n(4); i < k; i++ {
				l.Items = append(l.Items, item())
			}
			return quote(l)
		}
		k := 0
		included := func() *N {
			kinds := []string{"yisp", "yisp", "data"}
			args := []*N{}
			for i, m := 0, 1+g.n(2); i < m; i++ {
				f := &File{Kind: g.of(kinds)}
				for j, m := 0, 1+g.n(3); j < m; j++ {
					d := item()
					if f.Kind == "yisp" {
						d = oneOf(g, quote(d), list(), call("lists.as-toplevel", list()).tag("!yisp"))
					} else if d.K == "seq" || d.K == "null" {
						d = nInt(int64(j))
					}
					f.Docs = append(f.Docs, d)
				}
				name := fmt.Sprintf("f%d.%s", k, map[string]string{"yisp": "yisp", "data": "yaml"}[f.Kind])
				k++
				c.Files[name] = f
				args = append(args, nStr(name))
			}
			return call("include", args...)
		}
		ref := func() *N {
			if len(names) == 0 || g.ch(0.15) {
				return oneOf(g, list(), call("lists.as-toplevel", list()), included())
			}
			return nSym(g.of(names))
		}
		add(list())
		add(yispT(call("lists.as-toplevel", list(), list())))
		add(yispT(included()))
		g.r.Shuffle(len(c.Docs), func(i, j int) { c.Docs[i], c.Docs[j] = c.Docs[j], c.Docs[i] })
		id := lam([]string{"x"}, nSym("x"))
		for i, k := 0, 3+g.n(5); i < k; i++ {
			x := ref()
			switch g.n(16) {
			case 0, 1, 2:
				add(x)
				if x.K == "seq" && x.Tag == "" {
					yispT(x)
				}
			case 3, 4:
				add(yispT(call("lists.as-toplevel", x)))
			case 5:
				add(yispT(call("lists.as-toplevel", x, ref())))
			case 6:
				add(yispT(call("lists.flatten", x)))
			case 7:
				add(yispT(call("lists.map", x, id)))
			case 8:
				add(yispT(call("lists.filter", x, lam([]string{"x"}, oneOf(g, nBool(true), call("==", nSym("x"), nInt(2)), call("not", call("==", nSym("x"), nInt(1))))))))
			case 9:
				add(yispT(call("lists.cons", item(), x)))
			case 10:
				add(yispT(call("lists.cdr", call("lists.cons", item(), x))))
			case 11:
				add(yispT(call("if", oneOf(g, nBool(true), x.clone()), x, nNull())))
			case 12:
				add(yispT(oneOf(g, call("progn", nInt(1), x), call("pipeline", x, id), call("pipeline", x, id, nStr("lists.flatten")), call("pipeline", x, nStr("lists.as-toplevel"), nStr("lists.flatten")))))
			case 13:
				add(yispT(nSeq(oneOf(g, id, lam([]string{"x"}, call("lists.as-toplevel", nSym("x"))), lam([]string{"x"}, call("lists.map", nSym("x"), id))), x)))
			case 14:
				add(oneOf(g, nMap(kv("k", x)), quote(nSeq(x)), nMap(kv("k", quote(nSeq(x))))))
			case 15:
				add(yispT(call("lists.at", quote(nSeq(x, ref())), nInt(int64(g.n(2))))))
			}
		}
		for i, k := 0, 1+g.n(3); i < k; i++ {
			c.Docs = append(c.Docs, nSym(g.of(append(names, "v0?"))))
		}
	}
	checks["C26"] = func(ck *Check) {
		p := baseProfile()
		small(&p)
		w := Loads{Import: 1, Include: 10, Fn: 2, Kinds: []string{"yisp", "yisp", "yisp", "data", "text"}, Files: [2]int{0, 4}, Per: [2]int{0, 4}, Own: [2]int{1, 3}, Null: 0.3}
		ck.run(1800, 30000, "documents", p, func(g *G, c *Case) { g.project(c, w) })
		ck.run(1500, 30000, "lists", p, tops)
	}
}
