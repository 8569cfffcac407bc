// probe stands in for external programs (probe, go, kubectl): it writes down
// how it was called and answers what its arguments ask for.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	name := filepath.Base(os.Args[0])
	args := os.Args[1:]
	var stdin []byte
	if st, err := os.Stdin.Stat(); err == nil && st.Mode()&os.ModeCharDevice == 0 {
		stdin, _ = io.ReadAll(os.Stdin)
	}
	argv := append([]string{name}, args...)
	b, _ := json.Marshal([]any{argv, string(stdin)})
	f, err := os.OpenFile(os.Getenv("PROBE_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err == nil {
		f.Write(append(b, '\n'))
		f.Close()
	}
	if name == "go" {
		if len(args) < 2 || args[0] != "run" {
			os.Exit(3)
		}
		args = args[2:]
	}
	switch {
	case name == "kubectl":
		b, err := os.ReadFile(filepath.Join(os.Getenv("PROBE_OUTS"), "kubectl"))
		if err != nil {
			fmt.Fprintln(os.Stderr, "kubectl: no cluster")
			os.Exit(1)
		}
		os.Stdout.Write(b)
		if _, err := os.Stat(filepath.Join(os.Getenv("PROBE_OUTS"), "kubectl.exit")); err == nil {
			os.Exit(1)
		}
	case len(args) == 0:
		os.Stdout.Write(stdin)
	case args[0] == "!":
		fmt.Fprintln(os.Stderr, "probe: told to fail")
		os.Exit(1)
	case strings.HasPrefix(args[0], "!!"): // it fails after all its output
		os.Stdout.WriteString(args[0][2:])
		fmt.Fprintln(os.Stderr, "probe: told to fail")
		os.Exit(2)
	case strings.HasPrefix(args[0], "!-"): // and says nothing about it
		os.Stdout.WriteString(args[0][2:])
		os.Exit(3)
	case strings.HasPrefix(args[0], "!?"): // it has something to say besides
		fmt.Fprintln(os.Stderr, "probe: a word of warning")
		os.Stdout.WriteString(args[0][2:])
	case strings.HasPrefix(args[0], "@"):
		b, err := os.ReadFile(filepath.Join(os.Getenv("PROBE_OUTS"), args[0][1:]))
		if err != nil {
			os.Exit(4)
		}
		os.Stdout.Write(b)
	default:
		os.Stdout.WriteString(args[0])
	}
}
