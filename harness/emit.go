package main

// Writes expressions as YAML text in randomly chosen styles.

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

type Emitter struct {
	r        *rand.Rand
	flow     float64 // chance that a collection is written in flow style
	comments float64
	fold     bool
	spell    bool // vary the spelling of numbers, booleans and nulls
	sb       strings.Builder
}

var plainSafe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_./+-]*( [A-Za-z0-9_]+)*$`)
var plainBad = regexp.MustCompile(`^(?i:y|n|yes|no|on|off|true|false|null|nan|inf|e[0-9]+)$`)

var keyWord = regexp.MustCompile(`^(-?[0-9]+|0x[0-9a-fA-F]+|-?[0-9]+\.[0-9]+|[Tt]rue|[Ff]alse|null|~|yes|no|on|off|[0-9]{4}-[0-9]{2}-[0-9]{2})$`)
var dateWord = regexp.MustCompile(`^[0-9]{4}-[0-9]{2}-[0-9]{2}(T[0-9]{2}:[0-9]{2}:[0-9]{2}Z)?$`)

func plainOK(s string) bool { return plainSafe.MatchString(s) && !plainBad.MatchString(s) }

func dq(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c == '\r':
			b.WriteString(`\r`)
		case c < 0x20 || c >= 0x7f && c < 0xa0 || c == 0x2028 || c == 0x2029 || c == 0xfeff:
			if c < 256 {
				fmt.Fprintf(&b, `\x%02x`, c)
			} else {
				fmt.Fprintf(&b, `\u%04x`, c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var sqOK = regexp.MustCompile(`^[^\n\r\t\x00-\x1f\x7f-\x{9f}\x{2028}\x{2029}\x{feff}]*$`)

func (e *Emitter) quoted(s string) string {
	if sqOK.MatchString(s) && e.r.Intn(2) == 0 {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	if e.spell && e.r.Intn(3) == 0 {
		return e.escaped(s)
	}
	return dq(s)
}

var escapes = map[rune]string{0: "0", 7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r", 27: "e", ' ': " ", '"': `"`, '\\': `\`, 0x85: "N", 0xa0: "_", 0x2028: "L", 0x2029: "P"}

// escaped writes more characters than it has to in some other way
func (e *Emitter) escaped(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		name, ok := escapes[c]
		switch k := e.r.Intn(8); {
		case ok && k < 4:
			b.WriteString(`\` + name)
		case k == 4 && c < 256:
			fmt.Fprintf(&b, `\x%02X`, c)
		case k == 5 && c < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, c)
		case k == 6:
			fmt.Fprintf(&b, `\U%08X`, c)
		default:
			t := dq(string(c))
			b.WriteString(t[1 : len(t)-1])
		}
	}
	b.WriteByte('"')
	return b.String()
}

// the text of a string on one line; flow tells whether it stands in a flow
// collection
func (e *Emitter) str(s string) string {
	if plainOK(s) && e.r.Intn(5) > 0 || dateWord.MatchString(s) && e.r.Intn(2) > 0 {
		return s
	}
	return e.quoted(s)
}

func floatText(f float64) string {
	switch {
	case math.IsNaN(f):
		return ".nan"
	case math.IsInf(f, 1):
		return ".inf"
	case math.IsInf(f, -1):
		return "-.inf"
	}
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if len(s) > 18 {
		s = strconv.FormatFloat(f, 'e', -1, 64)
		if !strings.Contains(s, ".") {
			s = strings.Replace(s, "e", ".0e", 1)
		}
		return s
	}
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func underscore(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	if len(s) > 3 {
		s = s[:len(s)-3] + "_" + s[len(s)-3:]
	}
	if neg {
		s = "-" + s
	}
	return s
}

func (e *Emitter) intText(i *big.Int) string {
	s := i.String()
	if !e.spell {
		return s
	}
	switch e.r.Intn(8) {
	case 0:
		if i.Sign() >= 0 {
			return "+" + s
		}
	case 1:
		if i.Sign() >= 0 {
			return "0x" + i.Text(16)
		}
	case 2:
		if i.Sign() >= 0 {
			return "0o" + i.Text(8)
		}
	case 3:
		if i.Sign() >= 0 {
			return "0b" + i.Text(2)
		}
		return "-0b" + new(big.Int).Abs(i).Text(2)
	case 4:
		return underscore(s)
	}
	return s
}

func (e *Emitter) pick(ss ...string) string { return ss[e.r.Intn(len(ss))] }

func (e *Emitter) scalar(n *N) string {
	if n.Raw != "" {
		return n.Raw
	}
	switch n.K {
	case "null":
		if e.spell {
			return e.pick("null", "~", "Null", "NULL")
		}
		return "null"
	case "bool":
		if e.spell {
			if n.B {
				return e.pick("true", "True", "TRUE")
			}
			return e.pick("false", "False", "FALSE")
		}
		return strconv.FormatBool(n.B)
	case "int":
		return e.intText(n.I)
	case "float":
		t := floatText(n.F)
		if e.spell && !math.IsInf(n.F, 0) && !math.IsNaN(n.F) && e.r.Intn(3) == 0 {
			u := strconv.FormatFloat(n.F, 'e', -1, 64)
			if !strings.Contains(u, ".") {
				u = strings.Replace(u, "e", ".0e", 1)
			}
			return u
		}
		if e.spell && math.IsInf(n.F, 0) {
			return strings.Replace(t, ".inf", e.pick(".inf", ".Inf", ".INF"), 1)
		}
		if e.spell && math.IsNaN(n.F) {
			return e.pick(".nan", ".NaN", ".NAN")
		}
		return t
	case "str":
		return e.str(n.S)
	case "sym":
		var p []string
		for _, s := range n.Segs {
			t := s.Name
			if s.Opt {
				t += "?"
			}
			p = append(p, t)
		}
		return "*" + strings.Join(p, ".")
	}
	panic("scalar " + n.K)
}

func (e *Emitter) props(n *N) string {
	if n.K == "sym" {
		return ""
	}
	var p []string
	if n.Anchor != "" {
		p = append(p, "&"+n.Anchor)
	}
	if n.Tag != "" {
		p = append(p, n.Tag)
	}
	if len(p) == 2 && e.r.Intn(3) == 0 {
		p[0], p[1] = p[1], p[0]
	}
	if len(p) == 0 {
		return ""
	}
	return strings.Join(p, " ") + " "
}

func (e *Emitter) key(p Pair) string {
	if p.Raw != "" {
		return p.Raw
	}
	if p.Key == "<<" {
		return p.Key
	}
	if plainOK(p.Key) && e.r.Intn(6) > 0 || keyWord.MatchString(p.Key) && e.r.Intn(2) > 0 {
		return p.Key // a key is its text, whatever that looks like
	}
	return e.quoted(p.Key)
}

// flow style, on one line
func (e *Emitter) flowNode(n *N) string {
	pr := e.props(n)
	switch n.K {
	case "seq":
		var s []string
		for _, i := range n.Items {
			s = append(s, e.flowNode(i))
		}
		return pr + "[" + strings.Join(s, ", ") + "]"
	case "map":
		var s []string
		for _, p := range n.Pairs {
			s = append(s, e.key(p)+": "+e.flowNode(p.V))
		}
		return pr + "{" + strings.Join(s, ", ") + "}"
	}
	return pr + e.scalar(n)
}

func (e *Emitter) comment(ind int) {
	if e.comments > 0 && e.r.Float64() < e.comments {
		e.sb.WriteString(strings.Repeat(" ", ind) + "# " + e.pick("note", "a: b", "- x", "*y", "[1, 2]", "'") + "\n")
	}
}
func (e *Emitter) eol() {
	if e.comments > 0 && e.r.Float64() < e.comments {
		e.sb.WriteString(" # " + e.pick("c", "k: v", "!yisp"))
	}
	e.sb.WriteByte('\n')
}

var foldOK = regexp.MustCompile(`^[A-Za-z]+( [A-Za-z]+)+$`)
var blockOK = regexp.MustCompile(`^[^ \n\t\r\x00-\x1f\x7f-\x{9f}\x{2028}\x{2029}\x{feff}#][^\t\r\x00-\x09\x0b-\x1f\x7f-\x{9f}\x{2028}\x{2029}\x{feff}]*$`)

const (
	posTop = iota
	posKey
	posDash
)

// val writes n after an indicator (or at the start of a line, for posTop);
// children are written with indentation ind
func (e *Emitter) val(n *N, ind, pos int) {
	sep := " "
	if pos == posTop {
		sep = ""
	}
	pad := strings.Repeat(" ", ind)
	switch {
	case n.K == "seq" && len(n.Items) > 0 && e.r.Float64() >= e.flow:
		pr := strings.TrimSpace(e.props(n))
		compact := false
		if pr != "" {
			e.sb.WriteString(sep + pr)
			e.eol()
		} else if pos == posKey {
			e.eol()
		} else if pos == posDash {
			if e.r.Intn(2) == 0 {
				compact = true
				e.sb.WriteByte(' ')
			} else {
				e.eol()
			}
		}
		if pos == posKey && ind >= 2 && e.r.Intn(3) == 0 {
			pad = pad[2:]
			ind -= 2
		}
		for i, it := range n.Items {
			if i > 0 || !compact {
				e.comment(ind)
				e.sb.WriteString(pad)
			}
			e.sb.WriteString("-")
			e.val(it, ind+2, posDash)
		}
	case n.K == "map" && len(n.Pairs) > 0 && e.r.Float64() >= e.flow:
		pr := strings.TrimSpace(e.props(n))
		compact := false
		if pr != "" {
			e.sb.WriteString(sep + pr)
			e.eol()
		} else if pos == posKey {
			e.eol()
		} else if pos == posDash {
			if e.r.Intn(4) > 0 {
				compact = true
				e.sb.WriteByte(' ')
			} else {
				e.eol()
			}
		}
		for i, p := range n.Pairs {
			if i > 0 || !compact {
				e.comment(ind)
				e.sb.WriteString(pad)
			}
			e.sb.WriteString(e.key(p) + ":")
			e.val(p.V, ind+2, posKey)
		}
	case n.K == "seq" || n.K == "map":
		e.sb.WriteString(sep + e.flowNode(n))
		e.eol()
	case n.K == "str" && n.Raw == "" && ind > 0 && strings.Contains(n.S, "\n") && blockOK.MatchString(n.S) && e.r.Intn(2) == 0:
		body := strings.TrimRight(n.S, "\n")
		tail := len(n.S) - len(body)
		ch := "-"
		if tail == 1 {
			ch = ""
		} else if tail > 1 {
			ch = "+"
		}
		e.sb.WriteString(sep + e.props(n) + "|" + ch + "\n")
		for _, l := range strings.Split(body, "\n") {
			if l == "" {
				e.sb.WriteByte('\n')
			} else {
				e.sb.WriteString(pad + l + "\n")
			}
		}
		for i := 1; i < tail; i++ {
			e.sb.WriteByte('\n')
		}
	case n.K == "str" && n.Raw == "" && e.fold && ind > 0 && foldOK.MatchString(n.S) && e.r.Intn(3) == 0:
		e.sb.WriteString(sep + e.props(n) + ">-\n" + pad + strings.Join(strings.Split(n.S, " "), e.pick(" ", "\n"+pad)) + "\n")
	case n.K == "str" && n.Raw == "" && e.fold && e.r.Intn(3) == 0 && e.lines(n, sep+e.props(n), ind):
	default:
		if n.K == "null" && e.spell && n.Raw == "" && n.Tag == "" && n.Anchor == "" && pos == posKey && e.r.Intn(4) == 0 {
			e.eol()
			return
		}
		e.sb.WriteString(sep + e.props(n) + e.scalar(n))
		e.eol()
	}
}

var literalOK = regexp.MustCompile(`^[^\r\x00-\x08\x0b-\x1f\x7f-\x{9f}\x{2028}\x{2029}\x{feff}]+$`)
var spacedBreak = regexp.MustCompile(`[ \t]\n|\n[ \t]|^[ \t]|[ \t]$`)
var breaks = regexp.MustCompile(`\n+`)
var wordsOK = regexp.MustCompile(`^[A-Za-z]+( [A-Za-z]+)*(\n+[A-Za-z]+( [A-Za-z]+)*)*$`)

// folded breaks lines at single spaces and doubles the line breaks there are
func (e *Emitter) folded(s, pad string) string {
	s = breaks.ReplaceAllStringFunc(s, func(b string) string { return b + "\n" })
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == ' ' && i > 0 && i+1 < len(s) && !strings.ContainsRune(" \n\t", rune(s[i-1])) && !strings.ContainsRune(" \n\t#", rune(s[i+1])) && e.r.Intn(3) == 0:
			b.WriteString("\n" + pad)
		case s[i] == '\n' && i+1 < len(s) && s[i+1] != '\n':
			b.WriteString("\n" + pad)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// lines writes a string in one of the styles that take more than a line, if it has one
func (e *Emitter) lines(n *N, head string, ind int) bool {
	s := n.S
	if len(s) == 0 || !literalOK.MatchString(s) {
		return false
	}
	pad := strings.Repeat(" ", ind)
	body := strings.TrimRight(s, "\n")
	tail := len(s) - len(body)
	chomp := []string{"-", "", "+"}[min(tail, 2)]
	if body == "" && tail == 1 {
		chomp = "+"
	}
	switch k := e.r.Intn(5); {
	case k == 0: // literal, the indentation given
		hint := "2"
		if ind == 0 {
			w := 1 + e.r.Intn(4)
			hint = strconv.Itoa(w)
			pad = strings.Repeat(" ", w)
		}
		t := e.pick(hint+chomp, chomp+hint)
		e.sb.WriteString(head + "|" + t + "\n")
		for i, l := range strings.Split(body, "\n") {
			if body == "" {
				break
			}
			if l != "" || i == 0 && e.r.Intn(2) == 0 {
				e.sb.WriteString(pad)
			}
			e.sb.WriteString(l + "\n")
		}
		if body == "" {
			tail++
		}
		for i := 1; i < tail; i++ {
			e.sb.WriteByte('\n')
		}
		return true
	case k == 1 && ind > 0 && body != "" && !spacedBreak.MatchString(body) && !strings.HasPrefix(body, "\n"):
		e.sb.WriteString(head + ">" + chomp + "\n" + pad + e.folded(body, pad) + "\n")
		for i := 1; i < tail; i++ {
			e.sb.WriteByte('\n')
		}
		return true
	case k == 2 && ind > 0 && !spacedBreak.MatchString(s) && !strings.Contains(s, "\t"):
		t := e.folded(strings.ReplaceAll(s, "'", "''"), pad)
		if strings.HasSuffix(t, "\n") {
			t += pad
		}
		e.sb.WriteString(head + "'" + t + "'")
		e.eol()
		return true
	case k == 3 && ind > 0 && !strings.Contains(s, "\n"):
		var t []string
		for i, w := range strings.Split(s, " ") {
			w = dq(w)
			w = w[1 : len(w)-1]
			if i > 0 {
				t = append(t, e.pick(" ", "\\ ", "\\x20", "\\\n"+pad+"\\ "))
			}
			if len(w) > 3 && e.r.Intn(2) == 0 && !strings.Contains(w, "\\") && w[1] < 128 && w[2] < 128 {
				w = w[:2] + "\\\n" + pad + w[2:]
			}
			t = append(t, w)
		}
		e.sb.WriteString(head + "\"" + strings.Join(t, "") + "\"")
		e.eol()
		return true
	case k == 4 && ind > 0 && wordsOK.MatchString(s):
		for _, w := range strings.Fields(s) {
			if plainBad.MatchString(w) {
				return false
			}
		}
		e.sb.WriteString(head + e.folded(s, pad))
		e.eol()
		return true
	}
	return false
}

// Doc is the text of one document, without a marker.
func (e *Emitter) Doc(n *N) string {
	if n.K == "malformed" || n.K == "opaque" {
		return n.S
	}
	e.sb.Reset()
	e.comment(0)
	e.val(n, 0, posTop)
	return e.sb.String()
}

// Docs is the text of a file of documents.
func joinDocs(docs []string) string {
	return strings.Join(docs, "---\n")
}
