package main

// A case: the files, options and documents of one program, as the
// specification (module TraceSession) and the worker both read it.

import (
	"crypto/sha256"
	"encoding/hex"
	"maps"
	"slices"
	"strings"
)

type File struct {
	Kind  string   // yisp data text bad
	Docs  []*N     // yisp, data
	Text  string   // what is on disk
	Known bool     // the text may be read by the program
	texts []string // the documents of a yisp file, written
}

type Out struct {
	Text string
	Docs []*N
}

type Case struct {
	ID    int
	Prop  string
	Main  string // path of the program, relative to the case directory
	Docs  []*N   // its documents
	Texts []string
	Files map[string]*File
	Pre   []Pair // bindings made before the program starts (plain data)
	PreT  bool   // the first of them is a list of documents

	// options
	Untyped, NoCheck, Special, AllowCmd bool
	ShowTrace, Sources                  bool
	AllowGo                             []string
	Confirms                            int // times the user says yes (command line only)
	Outs                                map[string]Out
	Schemas                             *Universe
	Cwd                                 string // working directory, relative
	Final                               bool   // observe only the whole program
	Places                              bool   // look at the places that are named
	Stdin                               bool   // the tool reads the program from its standard input
	Lead                                string // text before the first document
	srv                                 *server
	name                                string // of the case, on the server
}

func newCase(prop string, id int) *Case {
	return &Case{Prop: prop, ID: id, Main: "main.yisp", Files: map[string]*File{}, Outs: map[string]Out{}}
}

// strings that occur anywhere in the program (for the table of hashes)
func collectStrings(n *N, into map[string]bool) {
	if n.K == "str" {
		into[n.S] = true
	}
	for _, i := range n.Items {
		collectStrings(i, into)
	}
	for _, p := range n.Pairs {
		collectStrings(p.V, into)
	}
}

// write gives every document its text
func (c *Case) write(e *Emitter) {
	for _, d := range c.Docs {
		c.Texts = append(c.Texts, e.Doc(d))
	}
	for _, k := range slices.Sorted(maps.Keys(c.Files)) {
		f := c.Files[k]
		if f.Text == "" && len(f.Docs) > 0 {
			for _, d := range f.Docs {
				f.texts = append(f.texts, e.Doc(d))
			}
			f.Text = joinDocs(f.texts)
		}
	}
	for _, k := range slices.Sorted(maps.Keys(c.Outs)) {
		o := c.Outs[k]
		if o.Text == "" && len(o.Docs) > 0 {
			var ts []string
			for _, d := range o.Docs {
				ts = append(ts, e.Doc(d))
			}
			c.Outs[k] = Out{joinDocs(ts), o.Docs}
		}
	}
}

func (c *Case) prefix(k int) string { return c.Lead + joinDocs(c.Texts[:k]) }

// obs: one observation per prefix (or one for the whole program)
type Obs struct {
	S   string `json:"s"`
	Out []any  `json:"out"`
	Log []any  `json:"log"`
}

func (c *Case) record(obs []Obs) map[string]any {
	files := map[string]any{}
	texts := map[string]any{}
	for p, f := range c.Files {
		switch f.Kind {
		case "yisp":
			l := []any{}
			for _, d := range f.Docs {
				l = append(l, d.tuple())
			}
			files[p] = []any{"yisp", l}
		case "data":
			l := []any{}
			for _, d := range f.Docs {
				l = append(l, sortedData(d.data(), false)) // kept with its keys in name order
			}
			files[p] = []any{"data", l}
		case "bad":
			files[p] = []any{"bad"}
		default:
			files[p] = []any{"text", f.Text}
		}
		if f.Known {
			texts[p] = f.Text
		}
	}
	docs := []any{}
	for _, d := range c.Docs {
		docs = append(docs, d.tuple())
	}
	files[c.Main] = []any{"yisp", docs}
	outs := map[string]any{}
	for k, o := range c.Outs {
		l := []any{}
		for _, d := range o.Docs {
			l = append(l, d.tuple())
		}
		outs[k] = []any{o.Text, l}
	}
	shas := map[string]any{}
	ss := map[string]bool{}
	for _, d := range c.Docs {
		collectStrings(d, ss)
	}
	for _, f := range c.Files {
		for _, d := range f.Docs {
			collectStrings(d, ss)
		}
	}
	usesSha := ss["strings.sha256"]
	ptab := map[string]any{}
	if ss["yaml.unmarshal"] {
		for s := range ss {
			ptab[s] = parseTable(s)
		}
		for _, f := range c.Files {
			if f.Known {
				ptab[f.Text] = parseTable(f.Text)
			}
		}
	}
	if usesSha {
		for s := range ss {
			h := sha256.Sum256([]byte(s))
			shas[s] = hex.EncodeToString(h[:])
		}
	}
	// texts the output may hold that stand for data
	ytab := map[string]any{}
	if ss["yaml.marshal"] {
		for _, o := range obs {
			for _, d := range o.Out {
				marshalled(d.([]any), ytab)
			}
		}
	}
	for i, o := range obs { // no specified program prints anything this deep
		for _, d := range o.Out {
			if depth(d) > 150 {
				obs[i].Out = []any{[]any{"deep"}}
				break
			}
		}
	}
	schemas, gvk, urls := map[string]any{}, map[string]any{}, map[string]any{}
	if c.Schemas != nil {
		schemas, gvk, urls = c.Schemas.tables()
	}
	allow := []any{}
	for _, a := range c.AllowGo {
		allow = append(allow, a)
	}
	pre := []any{}
	for _, p := range c.Pre {
		pre = append(pre, []any{p.Key, p.V.data()})
	}
	return map[string]any{
		"id": c.ID, "main": c.Main, "docs": docs, "files": files, "texts": texts,
		"pre": pre, "predocs": c.PreT, "final": c.Final,
		"untyped": c.Untyped, "nocheck": c.NoCheck, "special": c.Special,
		"allowcmd": c.AllowCmd, "confirms": c.Confirms, "allowgo": allow, "outs": outs, "sha": shas, "ptab": ptab,
		"ytab": ytab, "schemas": schemas, "gvk": gvk, "urls": urls, "obs": obs,
	}
}

func parseTable(s string) []any {
	docs, err := canonYAML(s)
	if err != nil {
		if strings.ContainsAny(s, "*&") { // aliases across documents are not specified
			return []any{"any"}
		}
		return []any{"err"}
	}
	for i := range docs {
		docs[i] = textDates(docs[i])
	}
	if hasTag(docs) {
		return []any{"any"}
	}
	return []any{"ok", sortEach(docs)}
}

// in a text that is read, what looks like a date is text
func textDates(v any) any {
	l, ok := v.([]any)
	if !ok {
		return v
	}
	if len(l) == 3 && l[0] == "tagged" && l[1] == "!!timestamp" {
		return []any{"str", l[2]}
	}
	for i := range l {
		l[i] = textDates(l[i])
	}
	return l
}
func sortEach(docs []any) []any {
	l := []any{}
	for _, d := range docs {
		l = append(l, sortedData(d.([]any), false))
	}
	return l
}

func marshalled(d []any, tab map[string]any) {
	switch d[0] {
	case "str":
		s := d[1].(string)
		if _, seen := tab[s]; seen {
			return
		}
		if docs, err := canonYAML(s); err == nil {
			tab[s] = docs
			for _, x := range docs {
				marshalled(x.([]any), tab)
			}
		}
	case "list":
		for _, x := range d[1].([]any) {
			marshalled(x.([]any), tab)
		}
	case "map":
		for _, x := range d[1].([]any) {
			marshalled(x.([]any)[1].([]any), tab)
		}
	}
}

func depth(v any) int {
	n := 0
	if l, ok := v.([]any); ok {
		for _, x := range l {
			n = max(n, depth(x))
		}
		return n + 1
	}
	return 0
}

func hasTag(v any) bool {
	l, ok := v.([]any)
	if !ok {
		return false
	}
	if len(l) >= 2 && l[0] == "tagged" {
		return true
	}
	for _, x := range l {
		if hasTag(x) {
			return true
		}
	}
	return false
}
