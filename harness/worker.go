package main

// The worker evaluates programs with the code under test.  It runs in its
// own process: a crash or hang of the code under test is an observation.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

type WRun struct {
	Main  string            `json:"main"`            // content of the program
	Write map[string]string `json:"write,omitempty"` // files to (over)write first
	Mode  string            `json:"mode"`            // yaml, any, bytes, stat
	Path  string            `json:"path,omitempty"`  // program, if not the request's
	Glob  map[string]any    `json:"glob,omitempty"`  // globals of a bytes run

	Untyped, NoCheck, Special, AllowCmd, ShowTrace, Sources bool
	AllowGo                                                 []string
	PreKey                                                  string // a binding made before
	Pre                                                     json.RawMessage
	PreDocs                                                 bool
	Keep                                                    bool              // use the engine of an earlier run with these options
	Tree                                                    map[string]string // all the files there shall be
	Home                                                    map[string]string // with Tree: files below HOME
	Cwd                                                     string            // with Tree
}
type WReq struct {
	Files map[string]string `json:"files"`
	Home  map[string]string `json:"home,omitempty"` // files below HOME, if changed
	Main  string            `json:"mainpath"`
	Cwd   string            `json:"cwd"`
	Runs  []WRun            `json:"runs"`
	Outs  map[string]string `json:"outs,omitempty"`
}
type WRes struct {
	S    string          `json:"s"` // ok err crash timeout
	Text string          `json:"text"`
	Any  json.RawMessage `json:"any,omitempty"`
	Log  []any           `json:"log"`
	Msg  string          `json:"msg"`
	Same bool            `json:"same"` // files below the case directory are untouched
	Kept bool            `json:"kept"` // not even written to, the caches neither (with Tree)
}

const runTimeout = 20 * time.Second

func workerMain(dir string) {
	debug.SetMaxStack(256 << 20)
	in := bufio.NewReaderSize(os.NewFile(3, "req"), 1<<20)
	out := os.NewFile(4, "res")
	caseDir := filepath.Join(dir, "case")
	w := &worker{dir: dir, caseDir: caseDir, log: filepath.Join(dir, "probe.log")}
	os.Setenv("PROBE_LOG", w.log)
	os.Setenv("PROBE_OUTS", filepath.Join(dir, "outs"))
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req WReq
		if err := json.Unmarshal(line, &req); err != nil {
			panic(err)
		}
		res := w.serve(&req)
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
	}
}

type worker struct {
	dir, caseDir, log string
	engs              map[string]evaluator // by options
}
type evaluator interface {
	EvaluateFileToYaml(string) (string, error)
	EvaluateFileToAny(string) (any, error)
	EvaluateReaderToYaml(io.Reader, string) (string, error)
	EvaluateBytesToYaml([]byte, map[string]any) (string, error)
	EvaluateFileToYamlWithEnv(string, *core.Env) (string, error)
	SetOption(string, any)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func writeTree(base string, files map[string]string) {
	for p, t := range files {
		f := filepath.Join(base, p)
		must(os.MkdirAll(filepath.Dir(f), 0755))
		must(os.WriteFile(f, []byte(t), 0644))
	}
}

func readTree(base string) map[string]string {
	m := map[string]string{}
	filepath.Walk(base, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(base, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// stamps tells when every file below base was written, and how large it is
func stamps(base string) map[string]string {
	m := map[string]string{}
	filepath.Walk(base, func(p string, i os.FileInfo, err error) error {
		if err == nil {
			m[p] = fmt.Sprint(i.Mode(), i.Size(), i.ModTime().UnixNano())
		}
		return nil
	})
	return m
}

func (w *worker) serve(req *WReq) []WRes {
	w.engs = map[string]evaluator{}
	os.Chdir(w.dir)
	must(os.RemoveAll(w.caseDir))
	must(os.MkdirAll(w.caseDir, 0755))
	writeTree(w.caseDir, req.Files)
	if req.Home != nil {
		cache := filepath.Join(w.dir, "home", ".cache")
		must(os.RemoveAll(cache))
		writeTree(filepath.Join(w.dir, "home"), req.Home)
	}
	outs := filepath.Join(w.dir, "outs")
	must(os.RemoveAll(outs))
	if len(req.Outs) > 0 {
		writeTree(outs, req.Outs)
	}
	cwd := filepath.Join(w.caseDir, req.Cwd)
	must(os.MkdirAll(cwd, 0755))
	must(os.Chdir(cwd))
	results := []WRes{}
	for _, r := range req.Runs {
		p := req.Main
		if r.Path != "" {
			p = r.Path
		}
		if r.Write != nil {
			writeTree(w.caseDir, r.Write)
		}
		if r.Tree != nil {
			must(os.Chdir(w.dir))
			must(os.RemoveAll(w.caseDir))
			cache := filepath.Join(w.dir, "home", ".cache")
			must(os.RemoveAll(cache))
			writeTree(filepath.Join(w.dir, "home"), r.Home)
			writeTree(w.caseDir, r.Tree)
			must(os.MkdirAll(filepath.Join(w.caseDir, r.Cwd), 0755))
			must(os.Chdir(filepath.Join(w.caseDir, r.Cwd)))
		} else if r.Mode != "bytes" && p == req.Main && !isURL(p) {
			writeTree(w.caseDir, map[string]string{p: r.Main})
		}
		os.Remove(w.log)
		var stamp [2]map[string]string
		if r.Tree != nil {
			stamp = [2]map[string]string{stamps(w.caseDir), stamps(filepath.Join(w.dir, "home"))}
		}
		before := readTree(w.caseDir)
		done := make(chan WRes, 1)
		if !isURL(p) {
			p = filepath.Join(w.caseDir, p)
		}
		go func() { done <- w.run(&r, p) }()
		var res WRes
		select {
		case res = <-done:
		case <-time.After(runTimeout):
			res = WRes{S: "timeout"}
		}
		after := readTree(w.caseDir)
		res.Same = len(before) == len(after)
		for k, v := range before {
			if after[k] != v {
				res.Same = false
			}
		}
		res.Kept = r.Tree != nil && reflect.DeepEqual(stamp, [2]map[string]string{stamps(w.caseDir), stamps(filepath.Join(w.dir, "home"))})
		res.Log = readLog(w.log)
		results = append(results, res)
		if res.S == "timeout" || res.S == "crash" {
			break // the process state cannot be trusted any more
		}
	}
	return results
}

func readLog(path string) []any {
	l := []any{}
	b, _ := os.ReadFile(path)
	for _, line := range bytes.Split(b, []byte("\n")) {
		if len(line) > 0 {
			var v any
			must(json.Unmarshal(line, &v))
			l = append(l, v)
		}
	}
	return l
}

func (w *worker) run(r *WRun, path string) (res WRes) {
	defer func() {
		if x := recover(); x != nil {
			res = WRes{S: "crash", Msg: fmt.Sprint(x)}
		}
	}()
	key := fmt.Sprint(r.ShowTrace, r.Sources, r.Special, r.Untyped, r.NoCheck, r.AllowCmd, r.AllowGo)
	eng := w.engs[key]
	if eng == nil || !r.Keep {
		eng = engine.NewEngine(engine.Options{
			ShowTrace: r.ShowTrace, RenderSources: r.Sources, RenderSpecialObjects: r.Special,
			AllowUntypedManifest: r.Untyped, DisableTypeCheck: r.NoCheck,
		})
		eng.SetOption("net.gammalab.yisp.exec.allow_cmd", r.AllowCmd)
		eng.SetOption("net.gammalab.yisp.exec.allowed_go_pkgs", append([]string{}, r.AllowGo...))
		w.engs[key] = eng
	}
	var text string
	var err error
	var native any
	switch r.Mode {
	case "yaml":
		if r.PreKey != "" {
			env := core.NewEnv()
			var pre any
			dec := json.NewDecoder(bytes.NewReader(r.Pre))
			dec.UseNumber()
			must(dec.Decode(&pre))
			n, e := core.ParseAny(filepath.Join(filepath.Dir(path), "items.krm.yaml"), pre)
			if e != nil {
				return WRes{S: "err", Msg: e.Error()}
			}
			n.IsDocumentRoot = r.PreDocs
			env.Set(r.PreKey, n)
			text, err = eng.EvaluateFileToYamlWithEnv(path, env)
		} else {
			text, err = eng.EvaluateFileToYaml(path)
		}
	case "reader":
		text, err = eng.EvaluateReaderToYaml(strings.NewReader(r.Main), path)
	case "any":
		native, err = eng.EvaluateFileToAny(path)
	case "bytes":
		text, err = eng.EvaluateBytesToYaml([]byte(r.Main), r.Glob)
	}
	if err != nil {
		return WRes{S: "err", Msg: err.Error()}
	}
	res = WRes{S: "ok", Text: text}
	if r.Mode == "any" {
		res.Any, err = json.Marshal(canonAny(native))
		must(err)
	}
	return res
}

// ---- the parent's side

type Pool struct {
	dir  string
	n    int
	jobs chan func(*proc)
	wg   sync.WaitGroup
}
type proc struct {
	dir  string
	cmd  *exec.Cmd
	req  *os.File
	res  *bufio.Reader
	rf   *os.File
	home map[string]string
}

func newPool(dir string, n int) *Pool {
	p := &Pool{dir: dir, n: n, jobs: make(chan func(*proc), n)}
	for i := 0; i < n; i++ {
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			pr := &proc{dir: filepath.Join(dir, fmt.Sprintf("w%d", i))}
			for j := range p.jobs {
				j(pr)
			}
			pr.stop()
		}()
	}
	return p
}
func (p *Pool) close() { close(p.jobs); p.wg.Wait() }

func (p *proc) start() {
	must(os.MkdirAll(filepath.Join(p.dir, "home"), 0755))
	bin := filepath.Join(p.dir, "bin")
	must(os.MkdirAll(bin, 0755))
	self, err := os.Executable()
	must(err)
	for _, n := range []string{"probe", "go", "kubectl"} {
		os.Symlink(filepath.Join(filepath.Dir(self), "probe"), filepath.Join(bin, n))
	}
	rr, rw, err := os.Pipe()
	must(err)
	sr, sw, err := os.Pipe()
	must(err)
	p.cmd = exec.Command(self, "worker", p.dir)
	p.cmd.Env = []string{"HOME=" + filepath.Join(p.dir, "home"), "PATH=" + bin, "GOTRACEBACK=none", "GOMEMLIMIT=2GiB", "LANG=C.UTF-8"}
	p.cmd.ExtraFiles = []*os.File{rr, sw}
	p.cmd.Stdin = nil
	if os.Getenv("VERIF_DEBUG") != "" {
		p.cmd.Stderr = os.Stderr
	}
	must(p.cmd.Start())
	rr.Close()
	sw.Close()
	p.req, p.rf = rw, sr
	p.res = bufio.NewReaderSize(sr, 1<<20)
	p.home = nil
}
func (p *proc) stop() {
	if p.cmd != nil {
		p.req.Close()
		p.rf.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

// do runs a request; runs that got no answer because the process died are
// reported as crashes
func (p *proc) do(req *WReq) []WRes {
	if p.cmd == nil {
		p.start()
	}
	home := req.Home
	if home == nil {
		home = map[string]string{}
	}
	same := p.home != nil && len(p.home) == len(home)
	if same {
		for k, v := range home {
			if p.home[k] != v {
				same = false
			}
		}
	}
	r := *req
	if same {
		r.Home = nil
	} else {
		r.Home = home
		if len(home) == 0 {
			r.Home = map[string]string{".cache/none": ""}
		}
		p.home = home
	}
	b, err := json.Marshal(&r)
	must(err)
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := p.req.Write(append(b, '\n')); err != nil {
			ch <- ans{nil, err}
			return
		}
		line, err := p.res.ReadBytes('\n')
		ch <- ans{line, err}
	}()
	var a ans
	select {
	case a = <-ch:
	case <-time.After(runTimeout*2 + 10*time.Second):
		a = ans{nil, fmt.Errorf("no answer")}
	}
	if a.err != nil {
		p.stop()
		return []WRes{{S: "crash", Msg: "the process died"}}
	}
	var res []WRes
	must(json.Unmarshal(a.line, &res))
	if n := len(res); n > 0 && (res[n-1].S == "timeout" || res[n-1].S == "crash") {
		p.stop()
	}
	return res
}
