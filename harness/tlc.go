package main

// Runs TLC on a module of /verif/spec and reads its answers.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

const toolDir = "/opt/veriftools/tla"

type TLCOut struct {
	Out       string
	Generated int
	Distinct  int
	OK        bool
}

var statesRe = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`)

func (ck *Check) tlc(module, cfg string, env []string, workers int, heap string) TLCOut {
	ck.mu.Lock()
	ck.seq++
	meta := filepath.Join(ck.Dir, fmt.Sprintf("tlc%d", ck.seq))
	ck.mu.Unlock()
	must(os.MkdirAll(meta, 0755))
	defer os.RemoveAll(meta)
	spec := filepath.Join(ck.Verif, "spec")
	args := []string{"-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
		"-Djava.io.tmpdir=" + meta,
		"-cp", toolDir + "/tla2tools.jar:" + toolDir + "/CommunityModules-deps.jar", "tlc2.TLC",
		"-workers", strconv.Itoa(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning", "-config", filepath.Join(spec, cfg), filepath.Join(spec, module+".tla")}
	cmd := exec.Command("java", args...)
	cmd.Dir = meta
	cmd.Env = append(os.Environ(), env...)
	b, err := cmd.CombinedOutput()
	o := TLCOut{Out: string(b)}
	if m := statesRe.FindStringSubmatch(o.Out); m != nil {
		o.Generated, _ = strconv.Atoi(m[1])
		o.Distinct, _ = strconv.Atoi(m[2])
	}
	o.OK = err == nil && strings.Contains(o.Out, "Model checking completed. No error has been found.")
	return o
}

type Mismatch struct {
	ID       int
	Step     int
	Expected string
}

var misRe = regexp.MustCompile(`(?m)^<<"MISMATCH", (\d+), (\d+)>>`)
var doneRe = regexp.MustCompile(`(?m)^<<"DONE", (\d+), "(\w+)">>`)

// judge checks recorded cases against a trace module.  steps gives the number
// of states a case of the given index must contribute when it agrees.
func (ck *Check) judge(module string, recs []map[string]any, steps func(int) int) (mis []Mismatch, done map[int]string) {
	done = map[int]string{}
	if len(recs) == 0 {
		return
	}
	jvms, workers, heap := 4, 2, "5g"
	if len(recs) < 40 {
		jvms = 1
	}
	var wg sync.WaitGroup
	per := (len(recs) + jvms - 1) / jvms
	if per > 1500*workers {
		per = 1500 * workers
	}
	sem := make(chan bool, jvms)
	for lo := 0; lo < len(recs); lo += per {
		hi := min(lo+per, len(recs))
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			ck.mu.Lock()
			ck.seq++
			file := filepath.Join(ck.Dir, fmt.Sprintf("cases%d.ndjson", ck.seq))
			ck.mu.Unlock()
			f, err := os.Create(file)
			must(err)
			enc := json.NewEncoder(f)
			enc.SetEscapeHTML(false)
			expect := 0
			for i := lo; i < hi; i++ {
				must(enc.Encode(recs[i]))
				expect += steps(i) // negative: not known
			}
			f.Close()
			o := ck.tlc(module, module+".cfg", []string{"CASES=" + file}, workers, heap)
			ms := misRe.FindAllStringSubmatch(o.Out, -1)
			if os.Getenv("VERIF_DEBUG") == "" {
				os.Remove(file)
			}
			ck.mu.Lock()
			defer ck.mu.Unlock()
			ck.States += o.Distinct
			ck.Transitions += o.Generated
			for _, m := range ms {
				id, _ := strconv.Atoi(m[1])
				st, _ := strconv.Atoi(m[2])
				mis = append(mis, Mismatch{id, st, expectedOf(o.Out, id)})
			}
			for _, m := range doneRe.FindAllStringSubmatch(o.Out, -1) {
				id, _ := strconv.Atoi(m[1])
				done[id] = m[2]
			}
			if !o.OK || (len(ms) == 0 && expect > 0 && o.Distinct != expect) {
				ck.broken("TLC did not finish its work on %s (%d of %d states): %s", file, o.Distinct, expect, tail(o.Out, 3000))
			}
		}()
	}
	wg.Wait()
	return
}

func expectedOf(out string, id int) string {
	p := fmt.Sprintf(`<<"EXPECTED", %d, `, id)
	i := strings.Index(out, p)
	if i < 0 {
		p = fmt.Sprintf("<< \"EXPECTED\",\n   %d,", id)
		if i = strings.Index(out, p); i < 0 {
			return ""
		}
	}
	rest := out[i+len(p):]
	if j := strings.Index(rest, ">>\n"); j >= 0 {
		rest = rest[:j]
	}
	rest = strings.TrimSpace(rest)
	if s, err := strconv.Unquote(rest); err == nil {
		return s
	}
	return rest
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
