package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check is one run of one property's check.
type Check struct {
	Prop, Tier string
	Seed       int64
	Verif      string
	Dir        string // scratch
	mu         sync.Mutex
	seq        int
	hid        int // the last history's number
	start      time.Time
	pool       *Pool
	cliBin     string

	States, Transitions int
	Traces              int
	Samples             []any
	Violations          int
	Info                map[string]any
	replays             []string
	brokenMsg           string
}

func (ck *Check) broken(f string, a ...any) {
	if ck.brokenMsg == "" {
		ck.brokenMsg = fmt.Sprintf(f, a...)
	}
}
func (ck *Check) thorough() bool { return ck.Tier == "thorough" }

// scale picks a size for the tier
func (ck *Check) scale(quick, thorough int) int {
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		return int(float64(quick) * f)
	}
	if ck.thorough() {
		return thorough
	}
	return quick
}
func (ck *Check) rng(salt string) *rand.Rand {
	h := int64(1469598103934665603)
	for _, c := range []byte(ck.Prop + "/" + salt) {
		h = (h ^ int64(c)) * 1099511628211
	}
	return rand.New(rand.NewSource(h ^ ck.Seed*7919))
}

// violation records a failing case and where to find it
func (ck *Check) violation(what string, detail any) {
	ck.mu.Lock()
	defer ck.mu.Unlock()
	ck.Violations++
	if ck.Violations > 20 {
		return
	}
	dir := filepath.Join(ck.Verif, "replays")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", ck.Prop, ck.Seed, ck.Violations))
	b, _ := json.MarshalIndent(map[string]any{"property": ck.Prop, "tier": ck.Tier, "seed": ck.Seed, "what": what, "case": detail}, "", " ")
	os.WriteFile(p, b, 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", ck.Prop, p)
	fmt.Printf("  %s\n", strings.ReplaceAll(clip(what, 1500), "\n", "\n  "))
	ck.replays = append(ck.replays, p)
}
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (ck *Check) sample(v any) {
	if len(ck.Samples) < 4 {
		ck.Samples = append(ck.Samples, v)
	}
}

func (ck *Check) finish() int {
	wall := time.Since(ck.start).Seconds()
	cov := map[string]any{
		"states": ck.States, "transitions": ck.Transitions,
		"traces_validated_against_impl": ck.Traces, "samples": ck.Samples,
	}
	keys := []string{}
	for k := range ck.Info {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov[k] = ck.Info[k]
	}
	ev := map[string]any{"property": ck.Prop, "tier": ck.Tier, "seed": ck.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall, "violations": ck.Violations,
		"assumptions": []string{"TLC evaluates the specification correctly", "gopkg.in/yaml.v3 and encoding/json read the printed output correctly"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(ck.Verif, "evidence"), 0755)
	must(os.WriteFile(filepath.Join(ck.Verif, "evidence", ck.Prop+".json"), b, 0644))
	fmt.Printf("%s %s seed=%d: %d traces, %d states, %d violations, %.1fs\n", ck.Prop, ck.Tier, ck.Seed, ck.Traces, ck.States, ck.Violations, wall)
	if ck.Violations > 0 {
		return 1
	}
	if ck.brokenMsg != "" {
		fmt.Println("BROKEN:", ck.brokenMsg)
		return 2
	}
	return 0
}

var checks = map[string]func(*Check){}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness check PROPERTY TIER | worker DIR")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2])
	case "check":
		debug.SetGCPercent(200)
		ck := &Check{Prop: os.Args[2], Tier: os.Args[3], start: time.Now(), Info: map[string]any{}}
		ck.Seed = 1
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if v, err := strconv.ParseInt(s, 10, 64); err == nil {
				ck.Seed = v
			}
		}
		ck.Verif = os.Getenv("VERIF_HOME")
		ck.Dir = os.Getenv("VERIF_SCRATCH")
		ck.cliBin = filepath.Join(ck.Dir, "yisp")
		f := checks[ck.Prop]
		if f == nil {
			fmt.Println("no such check:", ck.Prop)
			os.Exit(2)
		}
		ck.pool = newPool(ck.Dir, 8)
		f(ck)
		ck.pool.close()
		os.Exit(ck.finish())
	default:
		os.Exit(2)
	}
}
