package main

// Session checks: programs run prefix by prefix, judged by TraceSession.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"
)

func (u *Universe) home() map[string]string {
	m := map[string]string{}
	if u == nil {
		return m
	}
	for id, s := range u.Schemas {
		m[filepath.Join(".cache/yisp/schemas", id+".json")] = jsonText(s)
	}
	for g, id := range u.GVK {
		m[filepath.Join(".cache/yisp/gvk", g+".txt")] = id
	}
	for url, s := range u.URLs {
		if s != nil {
			m[filepath.Join(".cache/yisp/schemas", base64.StdEncoding.EncodeToString([]byte(url))+".json")] = jsonText(s)
		}
	}
	return m
}

// jsonText writes plain data as JSON
func jsonText(n *N) string {
	switch n.K {
	case "null":
		return "null"
	case "bool":
		return fmt.Sprint(n.B)
	case "int":
		return n.I.String()
	case "float":
		b, _ := json.Marshal(n.F)
		return string(b)
	case "str":
		b, _ := json.Marshal(n.S)
		return string(b)
	case "seq":
		s := "["
		for i, x := range n.Items {
			if i > 0 {
				s += ", "
			}
			s += jsonText(x)
		}
		return s + "]"
	case "map":
		s := "{"
		for i, p := range n.Pairs {
			if i > 0 {
				s += ", "
			}
			k, _ := json.Marshal(p.Key)
			s += string(k) + ": " + jsonText(p.V)
		}
		return s + "}"
	}
	panic(n.K)
}

func (c *Case) request() *WReq {
	req := &WReq{Files: map[string]string{}, Main: c.Main, Cwd: c.Cwd, Home: c.Schemas.home(), Outs: map[string]string{}}
	for p, f := range c.Files {
		if !isURL(p) {
			req.Files[p] = f.Text
		}
	}
	for k, o := range c.Outs {
		req.Outs[k] = o.Text
	}
	lo := 1
	if c.Final {
		lo = len(c.Docs)
	}
	for k := lo; k <= len(c.Docs); k++ {
		r := c.run()
		r.Main = c.prefix(k)
		req.Runs = append(req.Runs, r)
	}
	return req
}
func (c *Case) run() WRun {
	r := WRun{Mode: "yaml", Untyped: c.Untyped, NoCheck: c.NoCheck, Special: c.Special, AllowCmd: c.AllowCmd,
		AllowGo: c.AllowGo, ShowTrace: c.ShowTrace, Sources: c.Sources}
	if len(c.Pre) > 0 {
		r.PreKey, r.Pre, r.PreDocs = c.Pre[0].Key, json.RawMessage(jsonText(c.Pre[0].V)), c.PreT
	}
	return r
}

func observe(res []WRes, n int) []Obs {
	var obs []Obs
	for i := 0; i < n; i++ {
		if i >= len(res) {
			obs = append(obs, Obs{S: "crash", Out: []any{}, Log: []any{}})
			continue
		}
		r := res[i]
		o := Obs{S: r.S, Out: []any{}, Log: r.Log}
		if o.Log == nil {
			o.Log = []any{}
		}
		if r.S == "err" && os.Getenv("VERIF_MSGS") != "" {
			fmt.Printf("MSG %q\n", clip(r.Msg, 300))
		}
		if r.S == "ok" && r.Any != nil {
			var d []any
			dec := json.NewDecoder(bytes.NewReader(r.Any))
			must(dec.Decode(&d))
			if d[0] != "list" {
				o.S = "not a list"
			} else {
				o.Out = d[1].([]any)
			}
		} else if r.S == "ok" {
			docs, err := canonYAML(r.Text)
			if err != nil {
				o.S = "garbled"
			} else {
				o.Out = docs
			}
		}
		if r.S == "ok" && !r.Same {
			o.S = "wrote to its sources"
		}
		obs = append(obs, o)
	}
	return obs
}

// runCases executes every case and returns the observations
func (ck *Check) runCases(cases []*Case) [][]Obs {
	obs := make([][]Obs, len(cases))
	var wg sync.WaitGroup
	for i, c := range cases {
		wg.Add(1)
		ck.pool.jobs <- func(p *proc) {
			defer wg.Done()
			req := c.request()
			obs[i] = observe(p.do(req), len(req.Runs))
		}
	}
	wg.Wait()
	return obs
}

// sessions runs the cases and has them judged
func (ck *Check) sessions(cases []*Case) { ck.sessionsBy(cases, ck.runCases) }

// sessionsBy: with the observations made in some other way
func (ck *Check) sessionsBy(cases []*Case, run func([]*Case) [][]Obs) {
	for i, c := range cases {
		c.ID = i
	}
	t0 := time.Now()
	obs := run(cases)
	t1 := time.Now()
	recs := make([]map[string]any, len(cases))
	for i, c := range cases {
		recs[i] = c.record(obs[i])
	}
	mis, done := ck.judge("TraceSession", recs, func(i int) int { return len(cases[i].Docs) + 1 })
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Printf("%d programs: %.1fs to run, %.1fs to judge\n", len(cases), t1.Sub(t0).Seconds(), time.Since(t1).Seconds())
	}
	tally := map[string]int{}
	for _, s := range done {
		tally[s]++
	}
	ck.mu.Lock()
	ck.Traces += len(done)
	for k, v := range tally {
		n, _ := ck.Info["cases_ending_"+k].(int)
		ck.Info["cases_ending_"+k] = n + v
	}
	ck.mu.Unlock()
	for i, c := range cases {
		if i < 2 {
			ck.sample(map[string]any{"program": c.prefix(len(c.Docs)), "outcome": obs[i][len(obs[i])-1].S})
		}
	}
	for _, m := range mis {
		c := cases[m.ID]
		k := m.Step - 1
		if c.Final {
			k = 0
		}
		o := obs[m.ID][k]
		ex := m.Expected
		got, _ := json.Marshal(o)
		files := map[string]string{}
		for p, f := range c.Files {
			files[p] = f.Text
		}
		ck.violation(fmt.Sprintf("after document %d\n%s\nexpected %s\nobserved %s", m.Step, c.prefix(m.Step), ex, got),
			map[string]any{"program": c.prefix(m.Step), "path": c.Main, "cwd": c.Cwd, "files": files, "outs": c.Outs, "home": c.Schemas.home(),
				"untyped": c.Untyped, "nocheck": c.NoCheck, "special": c.Special, "allowcmd": c.AllowCmd, "allowgo": c.AllowGo,
				"bindings": c.Pre, "expected": ex, "observed": o})
	}
}
