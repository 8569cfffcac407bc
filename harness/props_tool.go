package main

// Histories of the command line tool (C20, C21, C22, C25): each run is
// recorded and the whole history judged by TraceTool.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	yaml "gopkg.in/yaml.v3"
)

// Answer is what the server says about an address
type Answer struct {
	Kind   string // ok 404 500 garbage wrong cut drop redirect
	Schema *N
	Text   string // if it is no schema
	Slow   bool
}

type TStep struct {
	Op      string
	Cfg     string // path of the configuration, "" for the default
	Dir     string // cache directory, "" for the default
	Nowrite bool
	Few     bool // few files may be open
	Pkg     string
	Confirm bool
	Cluster *Universe // nil: there is no answer
	Kubectl string    // what kubectl prints
	KFail   bool      // and fails
	Case    *Case
	Cases   []*Case
	Server  map[string]*Answer // by name
	Items   []*N
	Input   string // of the KRM function
	To      []any  // what an edit makes of the file
	Text    string
	OK      string
	Args    []string
}

type Tool struct {
	ID    int
	Steps []*TStep
}

// ---- the schema server

type server struct {
	base string
	mu   sync.Mutex
	now  map[string]map[string]*Answer // history -> name -> answer
	reqs map[string][]string
	come map[string]chan bool
}

func (ck *Check) serve() *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &server{base: "http://" + l.Addr().String(), now: map[string]map[string]*Answer{}, reqs: map[string][]string{}, come: map[string]chan bool{}}
	hs := &http.Server{Handler: s}
	hs.SetKeepAlivesEnabled(false) // or a client asks again when a kept connection is dropped
	go hs.Serve(l)
	return s
}

// the address of a schema in a history
func (s *server) url(h int, name string) string { return fmt.Sprintf("%s/h%d/%s", s.base, h, name) }

func (s *server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := strings.SplitN(strings.TrimPrefix(r.URL.RequestURI(), "/"), "/", 2)
	if len(p) != 2 {
		w.WriteHeader(404)
		return
	}
	name, moved := strings.CutPrefix(p[1], "moved/")
	s.mu.Lock()
	a := s.now[p[0]][name]
	if n, err := url.PathUnescape(name); a == nil && err == nil && s.now[p[0]][n] != nil {
		name, a = n, s.now[p[0]][n]
	}
	if !moved {
		s.reqs[p[0]] = append(s.reqs[p[0]], name)
	}
	come := s.come[p[0]]
	s.mu.Unlock()
	if a == nil {
		a = &Answer{Kind: "404"}
	} else if moved {
		a = &Answer{Kind: "ok", Schema: a.Schema, Text: a.Text}
	}
	if a.Slow {
		time.Sleep(25 * time.Millisecond)
	}
	text := a.Text
	if a.Schema != nil {
		text = jsonText(a.Schema)
	}
	switch a.Kind {
	case "ok":
		io.WriteString(w, text)
	case "redirect":
		w.Header().Set("Location", "/"+p[0]+"/moved/"+url.PathEscape(name))
		w.WriteHeader(http.StatusFound)
	case "404":
		w.WriteHeader(404)
		io.WriteString(w, `{"type": "object", "additionalProperties": true}`)
	case "500":
		w.WriteHeader(500)
		io.WriteString(w, text)
	case "garbage":
		io.WriteString(w, oneText(name, "<html>", "", `{"type": "object"`, "type: object"))
	case "wrong":
		io.WriteString(w, oneText(name, "[]", `"x"`, "12", `{"type": 1}`, `{"properties": []}`, `{"type": "object"} x`))
	case "cut", "stall":
		w.Header().Set("Content-Length", fmt.Sprint(len(text)+10))
		io.WriteString(w, text)
		w.(http.Flusher).Flush()
		if a.Kind == "stall" {
			if come != nil {
				come <- true
			}
			<-r.Context().Done()
			return
		}
		panic(http.ErrAbortHandler)
	case "drop":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
	}
}
func oneText(seed string, ts ...string) string {
	n := 0
	for _, c := range seed {
		n += int(c)
	}
	return ts[n%len(ts)]
}

// ---- runs

type toolRun struct {
	ck   *Check
	srv  *server
	h    *Tool
	d    string
	name string
}

func (r *toolRun) home() string { return filepath.Join(r.d, "home") }
func (r *toolRun) work() string { return filepath.Join(r.d, "case") }
func (r *toolRun) cfgPath(s *TStep) string {
	if s.Cfg == "" {
		return filepath.Join(r.home(), ".config/yisp/config.yaml")
	}
	return filepath.Join(r.work(), s.Cfg)
}

func (r *toolRun) command(s *TStep, args ...string) *exec.Cmd {
	var g []string
	if s.Cfg != "" {
		g = append(g, "-c", s.Cfg)
	}
	if s.Dir != "" {
		g = append(g, "--cache-dir", s.Dir)
	}
	if len(s.Cfg+s.Dir)%2 == 1 { // before or after
		args = append(g, args...)
	} else if i := indexOf(args, "--"); i >= 0 {
		args = append(append(append([]string{}, args[:i]...), g...), args[i:]...)
	} else {
		args = append(args, g...)
	}
	lim := ""
	if s.Nowrite {
		lim += "trap '' XFSZ; ulimit -f 0; "
	}
	if s.Few {
		lim += "ulimit -n 40; "
	}
	var cmd *exec.Cmd
	if lim != "" {
		cmd = exec.Command("/bin/bash", append([]string{"-c", lim + `exec "$0" "$@"`, r.ck.cliBin}, args...)...)
	} else {
		cmd = exec.Command(r.ck.cliBin, args...)
	}
	cmd.Dir = r.work()
	cmd.Env = []string{"HOME=" + r.home(), "PATH=" + r.ck.binDir(), "LANG=C.UTF-8", "GOTRACEBACK=none",
		"PROBE_LOG=" + filepath.Join(r.d, "log"), "PROBE_OUTS=" + filepath.Join(r.d, "outs")}
	return cmd
}
func indexOf(l []string, x string) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

func (r *toolRun) exec(s *TStep, in string, args ...string) CLIRes {
	cmd := r.command(s, args...)
	cmd.Stdin = strings.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-ctx.Done():
		cmd.Process.Kill()
		err = <-done
	}
	res := CLIRes{Out: o.String(), Err: e.String()}
	if err != nil {
		res.Exit = -1
		if x, ok := err.(*exec.ExitError); ok {
			res.Exit = x.ExitCode()
		}
	}
	return res
}

// config reads a configuration the way the specification shows it
func readConfig(p string) []any {
	b, err := os.ReadFile(p)
	if os.IsNotExist(err) {
		return []any{"none"}
	}
	if err != nil {
		return []any{"bad", "dir"}
	}
	var m map[string]any
	if yaml.Unmarshal(b, &m) != nil || !strings.Contains(p[strings.LastIndex(p, "/"):], ".") {
		return []any{"bad", string(b)}
	}
	pkgs, rest := []any{}, map[string]any{}
	for k, v := range m {
		if strings.ToLower(k) == "allowedgopkgs" {
			l, ok := v.([]any)
			if !ok && v != nil {
				return []any{"odd", fmt.Sprint(v)}
			}
			for _, x := range l {
				pkgs = append(pkgs, fmt.Sprint(x))
			}
			continue
		}
		rest[strings.ToLower(k)] = v
	}
	j, _ := json.Marshal(rest)
	return []any{"list", pkgs, string(j)}
}

func buildObs(r CLIRes, codes int) Obs {
	o := Obs{S: "ok", Out: []any{}, Log: []any{}}
	switch {
	case r.Exit == 0:
		docs, err := canonYAML(r.Out)
		if err != nil {
			o.S = "garbled"
		} else {
			o.Out = docs
		}
	case r.Exit < 1 || r.Exit > codes:
		o.S = fmt.Sprintf("exit %d", r.Exit)
	case r.Out != "":
		o.S = "output of a failing run"
	case r.Err == "":
		o.S = "failing without a word"
	default:
		o.S = "err"
	}
	return o
}

type toolObs struct {
	Obs
	Reqs []any `json:"reqs"`
	Cfg  []any `json:"cfg"`
	All  []Obs `json:"all"`
}

func buildArgs(c *Case) []string {
	args := []string{"build", c.Main}
	for _, f := range []struct {
		on   bool
		flag string
	}{{c.Untyped, "--allow-untyped-manifest"}, {c.NoCheck, "--disable-type-check"}, {c.Special, "--render-special-objects"}, {c.AllowCmd, "--allow-cmd"}, {c.Sources, "--enable-sourcemap"}} {
		if f.on {
			args = append(args, f.flag)
		}
	}
	return args
}

func (r *toolRun) place(c *Case) {
	files := map[string]string{c.Main: c.prefix(len(c.Texts))}
	for p, f := range c.Files {
		files[p] = f.Text
	}
	writeTree(r.work(), files)
	for k, o := range c.Outs {
		writeTree(filepath.Join(r.d, "outs"), map[string]string{k: o.Text})
	}
}

func (r *toolRun) step(s *TStep) (o toolObs) {
	log := filepath.Join(r.d, "log")
	os.Remove(log)
	come := make(chan bool, 8)
	r.srv.mu.Lock()
	r.srv.now[r.name] = s.Server
	r.srv.reqs[r.name] = nil
	r.srv.come[r.name] = come
	r.srv.mu.Unlock()
	simple := func(res CLIRes) {
		o.S = "ok"
		if res.Exit != 0 {
			o.S = "err"
		}
		if res.Exit < 0 || res.Exit > 2 {
			o.S = fmt.Sprintf("exit %d", res.Exit)
		}
		if os.Getenv("VERIF_MSGS") != "" {
			fmt.Printf("%s: exit %d\n%s%s\n", s.Op, res.Exit, clip(res.Out, 300), clip(res.Err, 500))
		}
	}
	o.Obs = Obs{S: "ok", Out: []any{}, Log: []any{}}
	o.All = []Obs{}
	switch s.Op {
	case "edit":
		p := r.cfgPath(s)
		os.RemoveAll(p)
		switch s.To[0] {
		case "none":
			must(os.MkdirAll(filepath.Dir(p), 0755))
		case "nodir":
			os.RemoveAll(filepath.Dir(p))
		default:
			must(os.MkdirAll(filepath.Dir(p), 0755))
			if s.Text == "dir" {
				must(os.MkdirAll(p, 0755))
			} else {
				must(os.WriteFile(p, []byte(s.Text), 0644))
			}
		}
	case "allow":
		simple(r.exec(s, "", "allow", "--", s.Pkg))
	case "cache":
		outs := filepath.Join(r.d, "outs")
		os.RemoveAll(outs)
		if s.Kubectl != "" || s.Cluster != nil {
			writeTree(outs, map[string]string{"kubectl": s.Kubectl})
		}
		if s.KFail {
			writeTree(outs, map[string]string{"kubectl.exit": ""})
		}
		in := ""
		if s.Confirm {
			in = oneText(s.Kubectl, "\n", "y\n")
		}
		simple(r.exec(s, in, "cache-kube-schemas"))
	case "build":
		r.place(s.Case)
		res := r.exec(s, strings.Repeat("\n", s.Case.Confirms), buildArgs(s.Case)...)
		o.Obs = buildObs(res, 1)
		if os.Getenv("VERIF_MSGS") != "" {
			fmt.Printf("build: exit %d\n%s%s\n", res.Exit, clip(res.Out, 300), clip(res.Err, 500))
		}
	case "krm":
		r.place(s.Case)
		res := r.exec(s, s.Input, "krm")
		o.Obs = buildObs(res, 2)
		if os.Getenv("VERIF_MSGS") != "" {
			fmt.Printf("krm: exit %d\n%s%s\n", res.Exit, clip(res.Out, 300), clip(res.Err, 500))
		}
	case "par":
		o.All = make([]Obs, len(s.Cases))
		for _, c := range s.Cases {
			r.place(c)
		}
		var wg sync.WaitGroup
		for i, c := range s.Cases {
			wg.Add(1)
			go func() { defer wg.Done(); o.All[i] = buildObs(r.exec(s, "", buildArgs(c)...), 1) }()
		}
		wg.Wait()
	case "kill":
		r.place(s.Case)
		cmd := r.command(s, buildArgs(s.Case)...)
		must(cmd.Start())
		done := make(chan bool, 1)
		go func() { cmd.Wait(); done <- true }()
		select {
		case <-come:
		case <-done: // it had no need to fetch
			done <- true
		case <-time.After(20 * time.Second):
		}
		cmd.Process.Kill()
		<-done
		o.S = "gone"
	case "other":
		simple(r.exec(s, s.Input, s.Args...))
	}
	o.Log = readLog(log)
	r.srv.mu.Lock()
	o.Reqs = []any{}
	for _, n := range r.srv.reqs[r.name] {
		o.Reqs = append(o.Reqs, r.srv.url(r.h.ID, n))
	}
	r.srv.mu.Unlock()
	if s.Op == "par" {
		sort.Slice(o.Reqs, func(i, j int) bool { return o.Reqs[i].(string) < o.Reqs[j].(string) })
	}
	o.Cfg = readConfig(r.cfgPath(s))
	return
}

func (s *TStep) record(srv *server, h int, o *toolObs) map[string]any {
	m := map[string]any{"op": s.Op, "cfg": s.Cfg, "dir": s.Dir, "nowrite": s.Nowrite}
	sv := map[string]any{}
	for n, a := range s.Server {
		v := []any{"bad"}
		if a.Kind == "ok" || a.Kind == "redirect" {
			v = []any{"ok", a.Schema.value()}
		}
		sv[srv.url(h, n)] = v
	}
	m["server"] = sv
	switch s.Op {
	case "edit":
		m["to"] = s.To
	case "allow":
		m["pkg"] = s.Pkg
	case "cache":
		m["confirm"] = s.Confirm
		m["cluster"] = []any{"fail"}
		if s.Cluster != nil {
			sc, gvk, _ := s.Cluster.tables()
			m["cluster"] = []any{"ok", sc, gvk}
		}
	case "build", "krm":
		obs := []Obs{o.Obs}
		m["c"] = s.Case.record(obs)
		delete(m["c"].(map[string]any), "obs")
		o.Obs = obs[0]
		if s.Op == "krm" {
			l := []any{}
			for _, x := range s.Items {
				l = append(l, sortedData(x.data(), false))
			}
			m["items"] = l
		}
	case "par":
		l := []any{}
		for i, c := range s.Cases {
			obs := []Obs{o.All[i]}
			x := c.record(obs)
			delete(x, "obs")
			l = append(l, x)
			o.All[i] = obs[0]
		}
		m["cs"] = l
	case "other":
		m["ok"] = s.OK
	}
	return m
}

// histories runs and judges them
func (ck *Check) histories(srv *server, hs []*Tool) {
	recs := make([]map[string]any, len(hs))
	all := make([][]toolObs, len(hs))
	parallel(len(hs), func(i int) {
		h := hs[i]
		r := &toolRun{ck: ck, srv: srv, h: h, d: ck.tempDir("tool"), name: fmt.Sprintf("h%d", h.ID)}
		defer os.RemoveAll(r.d)
		must(os.MkdirAll(r.work(), 0755))
		must(os.MkdirAll(r.home(), 0755))
		steps, obs := []any{}, []any{}
		for _, s := range h.Steps {
			o := r.step(s)
			steps = append(steps, s.record(srv, h.ID, &o))
			obs = append(obs, o)
			all[i] = append(all[i], o)
		}
		recs[i] = map[string]any{"id": i, "steps": steps, "obs": obs}
	})
	mis, done := ck.judge("TraceTool", recs, func(i int) int { return -1 })
	ck.mu.Lock()
	ck.Traces += len(done)
	n, _ := ck.Info["runs_of_the_tool"].(int)
	for _, h := range hs {
		n += len(h.Steps)
	}
	ck.Info["runs_of_the_tool"] = n
	if len(mis) == 0 && len(done) != len(hs) {
		ck.broken("%d of %d histories judged", len(done), len(hs))
	}
	ck.mu.Unlock()
	for i, h := range hs {
		if i < 2 {
			ck.sample(map[string]any{"history": h.brief(), "outcome": all[i][len(all[i])-1].S})
		}
	}
	for _, m := range mis {
		h := hs[m.ID]
		got, _ := json.Marshal(all[m.ID][m.Step-1])
		detail := map[string]any{"history": h.detail(m.Step, srv), "expected": m.Expected, "observed": all[m.ID][m.Step-1]}
		ck.violation(fmt.Sprintf("run %d of\n%s\nexpected %s\nobserved %s", m.Step, strings.Join(h.brief()[:m.Step], "\n"), m.Expected, got), detail)
	}
}

func (h *Tool) brief() []string {
	var l []string
	for _, s := range h.Steps {
		x := s.Op
		switch s.Op {
		case "allow":
			x += fmt.Sprintf(" %q", s.Pkg)
		case "edit":
			x += fmt.Sprintf(" %q", s.Text)
		case "other":
			x += " " + strings.Join(s.Args, " ")
		case "cache":
			x += fmt.Sprintf(" confirm=%v answer=%v", s.Confirm, s.Cluster != nil)
		case "build", "kill", "krm":
			x += " " + strings.ReplaceAll(clip(s.Case.prefix(len(s.Case.Texts)), 400), "\n", "\n    ")
		}
		if s.Cfg != "" {
			x += " config=" + s.Cfg
		}
		if s.Dir != "" {
			x += " cache-dir=" + s.Dir
		}
		if s.Nowrite {
			x += " (nothing can be written)"
		}
		for n, a := range s.Server {
			x += fmt.Sprintf(" [%s: %s]", clip(n, 20), a.Kind)
		}
		l = append(l, x)
	}
	return l
}

func (h *Tool) detail(k int, srv *server) []any {
	l := []any{}
	for _, s := range h.Steps[:k] {
		m := map[string]any{"op": s.Op, "config": s.Cfg, "cache_dir": s.Dir, "nowrite": s.Nowrite, "package": s.Pkg, "text": s.Text, "args": s.Args}
		if s.Case != nil {
			m["program"] = s.Case.prefix(len(s.Case.Texts))
			m["command"] = buildArgs(s.Case)
		}
		if s.Op == "cache" {
			m["kubectl"], m["confirm"] = s.Kubectl, s.Confirm
		}
		if s.Op == "krm" {
			m["stdin"] = s.Input
		}
		sv := map[string]any{}
		for n, a := range s.Server {
			t := ""
			if a.Schema != nil {
				t = jsonText(a.Schema)
			}
			sv[srv.url(h.ID, n)] = []string{a.Kind, t}
		}
		m["server"] = sv
		l = append(l, m)
	}
	return l
}

// ---- C22

var allowNames = []string{"github.com/a/b", "github.com/a/*", "github.com/x/y@v1.2.3", "true", "1.0", "null", "a: b", "é", "C:\\x", "x,y", "#c", "*", "-x", "--", "a b", "", "[a]", "{b: c}", "'q", "012", "~", "github.com/a/b", "github.com/a/b/", "GitHub.com/A/b", " y "}

func (g *G) goBuild(ck *Check) *Case {
	c := newCase(ck.Prop, 0)
	c.Final = true
	for i, k := 0, 1+g.n(2); i < k; i++ {
		pkg := g.of([]string{"github.com/a/b", "github.com/a/c", "github.com/x/y@v1.2.3", "true", "1.0", "a: b", "é", "x", "x,y", "y", "", "-x", "C:\\x", "github.com/a/b/", "github.com/a/b ", "GitHub.com/A/b", " y "})
		c.Docs = append(c.Docs, yispT(call("exec.go", nMap(kv("pkg", nStr(pkg)), kv("args", quote(nSeq(nStr("out"))))))))
	}
	c.write(g.emitter())
	return c
}

var cfgEdits = []struct {
	text string
	to   []any
}{
	{"", []any{"none"}}, {"", []any{"nodir"}},
	{"AllowedGoPkgs:\n  - one\n", []any{"list", []any{"one"}, "{}"}},
	{"allowedGoPkgs: [\"1.0\", two]\nother: 5\n", []any{"list", []any{"1.0", "two"}, `{"other":5}`}},
	{"# a comment\nother: [1, x]\nmore:\n  deep: yes it is\n", []any{"list", []any{}, `{"more":{"deep":"yes it is"},"other":[1,"x"]}`}},
	{"AllowedGoPkgs: [\n", []any{"bad", "AllowedGoPkgs: [\n"}},
	{"- a list\n", []any{"bad", "- a list\n"}},
	{"dir", []any{"bad", "dir"}},
	{"AllowedGoPkgs: []\n", []any{"list", []any{}, "{}"}},
	{"{\"AllowedGoPkgs\": [\"j\"], \"x\": {\"y\": true}}", []any{"list", []any{"j"}, `{"x":{"y":true}}`}},
}

func (g *G) allowHistory(ck *Check, id int) *Tool {
	h := &Tool{ID: id}
	cfgs := []string{"", "", "conf.yaml", "sub/c.yaml", "conf.json", "plain"}
	dirs := map[string]bool{}
	two := []string{cfgs[g.n(len(cfgs))], ""}
	for k := 2 + g.n(6); len(h.Steps) < k; {
		s := &TStep{Cfg: two[g.n(2)], Nowrite: g.ch(0.06)}
		s.Nowrite = s.Nowrite && s.Cfg != "conf.json" // an empty file is no JSON
		if s.Cfg == "sub/c.yaml" && !dirs[s.Cfg] || s.Cfg == "plain" && !dirs[s.Cfg] {
			dirs[s.Cfg] = true
			e := &TStep{Op: "edit", Cfg: s.Cfg, To: []any{"nodir"}}
			if s.Cfg == "plain" { // a name that says nothing of its format
				e.To, e.Text = []any{"bad", "AllowedGoPkgs: [x]\n"}, "AllowedGoPkgs: [x]\n"
			}
			h.Steps = append(h.Steps, e)
		}
		switch g.n(10) {
		case 0, 1, 2, 3:
			s.Op, s.Pkg = "allow", g.of(allowNames)
		case 4, 5, 6:
			s.Op, s.Case = "build", g.goBuild(ck)
		case 7:
			s.Op, s.OK, s.Args = "other", "ok", []string{oneOf(g, "version", "help")}
			if s.Args[0] == "help" || g.ch(0.5) {
				s.OK, s.Args = "err", oneOf(g, []string{"build", "missing.yisp"}, []string{"krm"}, []string{"cache-kube-schemas"}, []string{"build", "-o", "toml", "missing.yisp"})
				if s.Args[0] == "krm" {
					s.Input = "{"
				}
			}
		default:
			if s.Cfg == "plain" {
				continue
			}
			e := cfgEdits[g.n(len(cfgEdits))]
			if s.Cfg == "conf.json" && e.text != "" && e.text != "dir" && !strings.HasPrefix(e.text, "{") || s.Cfg != "sub/c.yaml" && e.to[0] == "nodir" {
				continue
			}
			s.Op, s.To, s.Text, s.Nowrite = "edit", e.to, e.text, false
		}
		h.Steps = append(h.Steps, s)
	}
	return h
}

// ---- C21

// cluster describes the definitions as kubectl prints them
func (g *G) cluster(u *Universe, extra int) string {
	defs := nMap()
	ids := []string{}
	for id := range u.Schemas {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		d := u.Schemas[id].clone()
		l := nSeq()
		gvks := []string{}
		for k, to := range u.GVK {
			if to == id {
				gvks = append(gvks, k)
			}
		}
		sort.Strings(gvks)
		for _, k := range gvks {
			p := strings.SplitN(k, "_", 3)
			l.Items = append(l.Items, nMap(kv("group", nStr(p[0])), kv("kind", nStr(p[2])), kv("version", nStr(p[1]))))
		}
		for g.ch(0.15) { // what is no kind is left out
			x := oneOf(g, nStr("apps/v1"), nNull(), nMap(kv("group", nStr("")), kv("kind", nStr("Service"))), nMap(kv("version", nStr("v1")), kv("kind", nStr("Service"))), nMap(kv("group", nStr("apps")), kv("version", nStr("v1"))))
			i := g.n(len(l.Items) + 1)
			l.Items = append(l.Items[:i:i], append([]*N{x}, l.Items[i:]...)...)
		}
		if len(l.Items) > 0 || g.ch(0.2) {
			d.Pairs = append(d.Pairs, kv("x-kubernetes-group-version-kind", l))
		}
		if g.ch(0.3) {
			d.Pairs = append(d.Pairs, kv("x-other", nSeq(nInt(1))))
		}
		defs.Pairs = append(defs.Pairs, kv(id, d))
	}
	for i := 0; i < extra; i++ {
		defs.Pairs = append(defs.Pairs, kv(fmt.Sprintf("filler.%d", i), nMap(kv("type", nStr("object")), kv("x-kubernetes-group-version-kind", nSeq(nMap(kv("group", nStr("filler")), kv("version", nStr("v1")), kv("kind", nStr(fmt.Sprintf("F%d", i)))))))))
	}
	g.r.Shuffle(len(defs.Pairs), func(i, j int) { defs.Pairs[i], defs.Pairs[j] = defs.Pairs[j], defs.Pairs[i] })
	return jsonText(nMap(kv("swagger", nStr("2.0")), kv("paths", nMap()), kv("definitions", defs)))
}

func (g *G) kubeHistory(ck *Check, id int) *Tool {
	h := &Tool{ID: id}
	sg := &SchemaGen{Defaults: 0.1, Ap: 0.2, Req: 0.2, Strategy: 0.1}
	us := []*Universe{g.universe(*sg, false), g.universe(*sg, false)}
	for _, u := range us {
		if g.ch(0.4) { // one definition for several kinds
			for k, id := range u.GVK {
				if k == "_v1_Service" {
					u.GVK["apps_v1_Deployment"] = id
				}
			}
		}
	}
	if g.ch(0.4) { // the same kinds, defined by one another's definitions
		gvks := []string{}
		for k := range us[1].GVK {
			gvks = append(gvks, k)
		}
		sort.Strings(gvks)
		if len(gvks) > 1 {
			m, i := us[1].GVK, g.n(len(gvks)-1)
			m[gvks[i]], m[gvks[i+1]] = m[gvks[i+1]], m[gvks[i]]
		}
	}
	dirs := []string{"", oneOf(g, "", "", "store", "a dir/x")}
	for k := 2 + g.n(5); len(h.Steps) < k; {
		s := &TStep{Dir: dirs[g.n(2)], Nowrite: g.ch(0.04)}
		u := us[g.n(2)]
		if len(h.Steps) == 0 && g.ch(0.7) || g.ch(0.4) {
			s.Op, s.Confirm = "cache", g.ch(0.9)
			switch {
			case g.ch(0.75):
				s.Cluster, s.Kubectl = u, g.cluster(u, 0)
			case g.ch(0.2):
				s.Nowrite = false // there is nothing to write
				s.Cluster, s.Kubectl = &Universe{}, oneOf(g, `{}`, `{"definitions": {}}`, `{"definitions": null, "x": 1}`)
			default:
				s.Kubectl = oneOf(g, "", "Unauthorized", "{", `{"definitions": []}`, `{"definitions": {"Alpha": 1}}`, "[]", g.cluster(u, 0)+"}", strings.TrimSuffix(g.cluster(u, 0), "}"))
				if g.ch(0.4) {
					s.Kubectl, s.KFail = g.cluster(u, 0), true
				}
			}
		} else {
			s.Op = "build"
			c := newCase(ck.Prop, 0)
			c.Final, c.Schemas, c.Untyped, c.NoCheck = true, u, g.ch(0.15), g.ch(0.1)
			g.c = c
			for i, k := 0, 1+g.n(2); i < k; i++ {
				m := g.manifest(c, sg, false)
				if g.ch(0.25) {
					g.damage(m)
				}
				c.Docs = append(c.Docs, m)
			}
			c.write(g.emitter())
			s.Case = c
		}
		h.Steps = append(h.Steps, s)
	}
	return h
}

// ---- C25

func (g *G) urlHistory(ck *Check, srv *server, id int) *Tool {
	h := &Tool{ID: id}
	sg := &SchemaGen{Defaults: 0.2, Ap: 0.25, Req: 0.2}
	names := []string{"a.json", oneOf(g, "b.json", "a.json?v=2", "A.json", "a.json/", "a%2Ejson", "s/../x", strings.Repeat("long/", 20)+"x.json", strings.Repeat("long/", 60)+"x.json", "é.json", "??>>~~"), "c.json"}[:1+g.n(3)]
	if len(names) == 3 && g.ch(0.25) { // long names that agree for most of their length
		long := strings.Repeat("long/", oneOf(g, 10, 18, 20, 25, 60))
		names[1], names[2] = long+"x.json", long+"y.json"
		if g.ch(0.3) {
			names[1], names[2] = "p/"+long+"x.json", "q/"+long+"x.json"
		}
	}
	obj := func() *N { return g.schemaOf(sg, "object", 2) }
	now := map[string]*N{}
	for _, n := range names {
		now[n] = obj()
	}
	dirs := []string{"", oneOf(g, "", "", "", "store")}
	prog := func(only string, k int) *Case {
		c := newCase(ck.Prop, 0)
		c.Final, c.Untyped, c.NoCheck = true, g.ch(0.15), g.ch(0.1)
		c.Main = fmt.Sprintf("p%d.yisp", k)
		g.c = c
		for i, k := 0, 1+g.n(3); i < k; i++ {
			n := g.of(names)
			if only != "" {
				n = only
			}
			m := nMap()
			if v := g.nearly(now[n], sg); v != nil && v.K == "map" {
				m = v
			}
			m.Pairs = append([]Pair{kv("$schema", nStr(srv.url(id, n)))}, m.Pairs...)
			if g.ch(0.15) {
				m = nSeq(m, m.clone())
			} else if g.ch(0.1) {
				m = nMap(kv("in", m))
			}
			c.Docs = append(c.Docs, m)
			if only != "" {
				break
			}
		}
		c.write(g.emitter())
		return c
	}
	for k := 2 + g.n(5); len(h.Steps) < k; {
		s := &TStep{Op: "build", Dir: dirs[g.n(2)], Nowrite: g.ch(0.06), Server: map[string]*Answer{}}
		for _, n := range names {
			if g.ch(0.3) { // the schema at the address changes
				now[n] = obj()
			}
			kind := "ok"
			if g.ch(0.35) {
				kind = oneOf(g, "404", "500", "garbage", "wrong", "cut", "drop", "redirect", "redirect")
			}
			s.Server[n] = &Answer{Kind: kind, Schema: now[n]}
		}
		switch {
		case g.ch(0.12):
			s.Op = "kill"
			n := g.of(names)
			s.Server[n].Kind = "stall"
			s.Case = prog(n, 0)
			s.Nowrite = false
		case g.ch(0.15):
			s.Op = "par"
			for _, a := range s.Server {
				a.Slow = true
			}
			for i := 0; i < 3; i++ {
				s.Cases = append(s.Cases, prog("", i))
			}
		default:
			s.Case = prog("", 0)
		}
		h.Steps = append(h.Steps, s)
	}
	return h
}

// ---- C20

func (g *G) krmStep(ck *Check) *TStep {
	p := baseProfile()
	p.Docs, p.Anchor, p.Err = [2]int{0, 2}, 0.1, 0.01
	g.p = p
	g.vars = nil
	c := newCase(ck.Prop, 0)
	c.Final, c.Main, c.Untyped = true, "stdin.krm.yaml", g.ch(0.3)
	g.c = c
	s := &TStep{Op: "krm", Case: c}
	if g.ch(0.3) {
		c.Schemas = nil
	}
	list := nSeq()
	for i, k := 0, g.n(5); i < k; i++ {
		var it *N
		switch {
		case g.ch(0.6):
			it = g.manifest(c, nil, true)
			it.Tag = ""
		default:
			it, _ = g.data("map", 3)
		}
		if g.ch(0.2) {
			it.Pairs = append([]Pair{kv("apiVersion", nStr(oneOf(g, "krm.yisp.gammalab.net/v1", "krm.yisp.gammalab.net/v1", "krm.yisp.gammalab.net/v1beta1", "krm.yisp.gammalab.net", "x")))}, without(it, "apiVersion").Pairs...)
		}
		list.Items = append(list.Items, plain(it))
	}
	s.Items = list.Items
	g.vars = []Var{{"items", sk("docs"), false}}
	item := func() *N { return nSym("it") }
	lam := func(body *N) *N { return nSeq(nStr("lambda"), nSeq(nSym("it")), body) }
	for i, k := 0, 1+g.n(2); i < k; i++ {
		switch g.n(9) {
		case 0, 1:
			c.Docs = append(c.Docs, nSym("items"))
		case 2:
			c.Docs = append(c.Docs, yispT(call("lists.map", nSym("items"), lam(call("maps.merge", item(), protect(nMap(kv("added", nInt(1)))))))))
		case 3:
			c.Docs = append(c.Docs, yispT(call("lists.filter", nSym("items"), lam(call("==", nSym("it.kind?"), nStr(oneOf(g, "Service", "Deployment")))))))
		case 4:
			c.Docs = append(c.Docs, nSeq(nSym("items"), nInt(1)))
		case 5:
			c.Docs = append(c.Docs, yispT(call("lists.len", nSym("items"))))
		case 6:
			g.program(c)
		case 7:
			c.Docs = append(c.Docs, yispT(call("k8s.patch", nSym("items"), quote(nSeq(plain(g.manifest(c, nil, true)))))))
		case 8:
			c.Docs = append(c.Docs, g.manifest(c, nil, false)) // a kind nothing is known of
		}
	}
	if g.ch(0.03) {
		c.Docs = append(c.Docs, nSym("nothing"))
	}
	c.write(g.emitter())
	text := c.prefix(len(c.Docs))
	spec := nMap()
	if c.Untyped || g.ch(0.3) {
		spec.Pairs = append(spec.Pairs, kv("allowUntypedManifest", nBool(c.Untyped)))
	}
	if g.ch(0.3) || text == "" { // a file
		c.Main = oneOf(g, "main.yisp", "sub/x.yisp")
		t := oneOf(g, c.Main, "./"+c.Main, path.Join("sub/..", c.Main))
		spec.Pairs = append(spec.Pairs, kv("target", nStr(t)))
		if g.ch(0.2) {
			spec.Pairs = append(spec.Pairs, kv("yisp", nStr("")))
		}
	} else {
		spec.Pairs = append(spec.Pairs, kv("yisp", nStr(text)))
	}
	cfg := nMap(kv("apiVersion", nStr("krm.yisp.gammalab.net/v1")), kv("kind", nStr("Yisp")), kv("metadata", nMap(kv("name", nStr("fn")))), kv("spec", spec))
	rl := nMap(kv("apiVersion", nStr("config.kubernetes.io/v1")), kv("kind", nStr("ResourceList")), kv("functionConfig", cfg))
	if len(list.Items) > 0 || g.ch(0.5) {
		rl.Pairs = append(rl.Pairs, kv("items", list))
	}
	g.r.Shuffle(len(rl.Pairs), func(i, j int) { rl.Pairs[i], rl.Pairs[j] = rl.Pairs[j], rl.Pairs[i] })
	if g.ch(0.4) {
		s.Input = jsonText(rl)
		for _, x := range list.Items {
			jsonFloats(x)
		}
	} else {
		e := &Emitter{fold: true, r: g.r, flow: 0.2}
		s.Input = e.Doc(rl)
	}
	if g.ch(0.03) {
		s.Input = oneOf(g, "a: [", "items: 5\n", "- 1\n")
		s.Case.Docs = append([]*N{{K: "malformed"}}, s.Case.Docs...)
	}
	return s
}

// plain removes what only a program has
func plain(n *N) *N {
	n.Tag, n.Anchor, n.Raw = "", "", ""
	for _, i := range n.Items {
		plain(i)
	}
	for i := range n.Pairs {
		n.Pairs[i].Raw = ""
		plain(n.Pairs[i].V)
	}
	return n
}
func without(n *N, k string) *N {
	m := nMap()
	for _, p := range n.Pairs {
		if p.Key != k {
			m.Pairs = append(m.Pairs, p)
		}
	}
	return m
}

// in JSON 1.0 is written as 1
func jsonFloats(n *N) {
	if n.K == "float" && n.F == float64(int64(n.F)) {
		*n = *nInt(int64(n.F))
	}
	for _, i := range n.Items {
		jsonFloats(i)
	}
	for _, p := range n.Pairs {
		jsonFloats(p.V)
	}
}

func init() {
	many := func(ck *Check, srv *server, q, t int, f func(g *G, srv *server, id int) *Tool) {
		r := ck.rng("histories")
		for left := ck.scale(q, t); left > 0; left -= 2000 {
			var hs []*Tool
			for i := 0; i < min(left, 2000); i++ {
				ck.hid++
				hs = append(hs, f(&G{r: r, p: baseProfile()}, srv, ck.hid))
			}
			ck.histories(srv, hs)
		}
	}
	checks["C20"] = func(ck *Check) {
		many(ck, ck.serve(), 900, 20000, func(g *G, srv *server, id int) *Tool { return &Tool{ID: id, Steps: []*TStep{g.krmStep(ck)}} })
	}
	checks["C21"] = func(ck *Check) {
		srv := ck.serve()
		ck.explore(srv, 0, ck.kubeAlphabet)
		first := ck.hid + 1
		many(ck, srv, 350, 8000, func(g *G, srv *server, id int) *Tool {
			h := g.kubeHistory(ck, id)
			if id == first { // many definitions, few open files
				for _, s := range h.Steps {
					if s.Op == "cache" && s.Cluster != nil && len(s.Cluster.Schemas) > 0 {
						s.Few, s.Nowrite, s.Confirm = true, false, true
						s.Kubectl = g.cluster(s.Cluster, 80)
					}
				}
			}
			return h
		})
	}
	checks["C22"] = func(ck *Check) {
		srv := ck.serve()
		ck.explore(srv, ck.scale(1, 2), ck.allowAlphabet)
		if ck.thorough() {
			ck.explore(srv, 1, ck.wholeAlphabet(srv))
		}
		many(ck, srv, 500, 12000, func(g *G, srv *server, id int) *Tool { return g.allowHistory(ck, id) })
	}
	checks["C25"] = func(ck *Check) {
		srv := ck.serve()
		ck.explore(srv, 0, ck.urlAlphabet(srv))
		many(ck, srv, 350, 8000, func(g *G, srv *server, id int) *Tool { return g.urlHistory(ck, srv, id) })
	}
}
