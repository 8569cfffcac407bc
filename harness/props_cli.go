package main

// The command line tool.

import (
	"bytes"
	"context"
	"fmt"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"
)

type CLI struct {
	Dir  string // working directory
	Home string
	Path string // PATH
	Env  []string
	In   string
}
type CLIRes struct {
	Out, Err string
	Exit     int // -1: killed or timed out
}

func (ck *Check) cli(c CLI, args ...string) CLIRes {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, ck.cliBin, args...)
	cmd.Dir = c.Dir
	cmd.Env = append([]string{"HOME=" + c.Home, "PATH=" + c.Path, "LANG=C.UTF-8", "GOTRACEBACK=none"}, c.Env...)
	cmd.Stdin = bytes.NewReader([]byte(c.In))
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := CLIRes{Out: o.String(), Err: e.String()}
	if err != nil {
		r.Exit = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.Exit = x.ExitCode()
		}
	}
	return r
}

// tempDir is a fresh directory of this check
func (ck *Check) tempDir(kind string) string {
	ck.mu.Lock()
	ck.seq++
	d := filepath.Join(ck.Dir, fmt.Sprintf("%s%d", kind, ck.seq))
	ck.mu.Unlock()
	must(os.MkdirAll(d, 0755))
	return d
}

// binDir holds the stand-ins for external programs
func (ck *Check) binDir() string {
	d := filepath.Join(ck.Dir, "bin")
	ck.mu.Lock()
	defer ck.mu.Unlock()
	if _, err := os.Stat(d); err != nil {
		must(os.MkdirAll(d, 0755))
		self, err := os.Executable()
		must(err)
		for _, n := range []string{"probe", "go", "kubectl"} {
			os.Symlink(filepath.Join(filepath.Dir(self), "probe"), filepath.Join(d, n))
		}
	}
	return d
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func() { defer func() { <-sem; wg.Done() }(); f(i) }()
	}
	wg.Wait()
}

// a build by the command line tool, as an observation of a whole program
func (ck *Check) cliBuilds(cases []*Case) [][]Obs {
	obs := make([][]Obs, len(cases))
	parallel(len(cases), func(i int) {
		c := cases[i]
		d := ck.tempDir("cli")
		defer os.RemoveAll(d)
		files := map[string]string{c.Main: c.prefix(len(c.Docs))}
		for p, f := range c.Files {
			files[p] = f.Text
		}
		maps.DeleteFunc(files, func(p, _ string) bool { return isURL(p) })
		cd := filepath.Join(d, "case")
		writeTree(cd, files)
		home := filepath.Join(d, "home")
		must(os.MkdirAll(home, 0755))
		writeTree(home, c.Schemas.home())
		cwd := filepath.Join(cd, c.Cwd)
		must(os.MkdirAll(cwd, 0755))
		target, err := filepath.Rel(cwd, filepath.Join(cd, c.Main))
		must(err)
		if isURL(c.Main) {
			target = c.Main
		}
		args := []string{"build", target}
		if c.Stdin {
			args = []string{"build", "-"}
		}
		if c.Untyped {
			args = append(args, "--allow-untyped-manifest")
		}
		if c.NoCheck {
			args = append(args, "--disable-type-check")
		}
		if c.Special {
			args = append(args, "--render-special-objects")
		}
		if c.AllowCmd {
			args = append(args, "--allow-cmd")
		}
		if c.Sources {
			args = append(args, "--enable-sourcemap")
		}
		in := ""
		if c.Stdin {
			in = files[c.Main]
		}
		if c.Confirms > 0 || ck.Prop == "C16" && !c.Stdin {
			r := ck.rng(fmt.Sprintf("answers %d", i))
			for range c.Confirms { // a line each
				in += []string{"", "", "", "y", "yes", "ok\r", " "}[r.Intn(7)] + "\n"
			}
			in += []string{"", "", "y", "no"}[r.Intn(4)]
		}
		outs := filepath.Join(d, "outs")
		for k, o := range c.Outs {
			writeTree(outs, map[string]string{k: o.Text})
		}
		if len(c.AllowGo) > 0 {
			writeTree(home, map[string]string{".config/yisp/config.yaml": goConfig(c.AllowGo)})
		}
		r := ck.cli(CLI{Dir: cwd, Home: home, Path: ck.binDir(), In: in, Env: []string{"PROBE_LOG=" + filepath.Join(d, "log"), "PROBE_OUTS=" + outs}}, args...)
		o := Obs{S: "ok", Out: []any{}, Log: readLog(filepath.Join(d, "log"))}
		switch {
		case r.Exit == 0:
			docs, err := canonYAML(r.Out)
			if err != nil {
				o.S = "garbled"
			} else {
				o.Out = docs
			}
		case r.Exit != 1:
			o.S = fmt.Sprintf("exit %d", r.Exit)
		case r.Out != "":
			o.S = "output of a failing build"
		case r.Err == "":
			o.S = "failing without a word"
		default:
			o.S = "err"
		}
		obs[i] = []Obs{o}
	})
	return obs
}

func (ck *Check) cliErrors() {
	p := baseProfile()
	p.Err = 0.12
	n := ck.scale(120, 1500)
	ck.sessionsBy(ck.generate(n, "cli", p, func(g *G, c *Case) { c.Final = true; g.program(c) }), ck.cliBuilds)
}

// a configuration that allows the Go packages
func goConfig(pkgs []string) string {
	l := nSeq()
	for _, p := range pkgs {
		l.Items = append(l.Items, nStr(p))
	}
	return jsonText(nMap(kv("AllowedGoPkgs", l)))
}
