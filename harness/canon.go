package main

// Reads what the code under test printed back as canonical data.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

func canonYAML(text string) ([]any, error) {
	dec := yaml.NewDecoder(strings.NewReader(text))
	docs := []any{}
	for {
		var n yaml.Node
		err := dec.Decode(&n)
		if errors.Is(err, io.EOF) {
			return docs, nil
		}
		if err != nil {
			return nil, err
		}
		if n.Kind != yaml.DocumentNode || len(n.Content) != 1 {
			return nil, fmt.Errorf("odd document")
		}
		d, err := canonNode(n.Content[0])
		if err != nil {
			return nil, err
		}
		docs = append(docs, d)
	}
}

func parseInt(s string) (*big.Int, bool) {
	t := strings.ReplaceAll(s, "_", "")
	t = strings.TrimPrefix(t, "+")
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimPrefix(t, "-")
	base := 10
	for p, b := range map[string]int{"0x": 16, "0o": 8, "0b": 2} {
		if strings.HasPrefix(t, p) {
			base = b
			t = t[2:]
			break
		}
	}
	if base == 10 && len(t) > 1 && t[0] == '0' {
		base = 8
	}
	i, ok := new(big.Int).SetString(t, base)
	if ok && neg {
		i.Neg(i)
	}
	return i, ok
}

func canonNode(n *yaml.Node) ([]any, error) {
	switch n.Kind {
	case yaml.SequenceNode:
		if t := n.ShortTag(); t != "!!seq" {
			return []any{"tagged", t}, nil
		}
		l := []any{}
		for _, c := range n.Content {
			d, err := canonNode(c)
			if err != nil {
				return nil, err
			}
			l = append(l, d)
		}
		return []any{"list", l}, nil
	case yaml.MappingNode:
		if t := n.ShortTag(); t != "!!map" {
			return []any{"tagged", t}, nil
		}
		l := []any{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			if n.Content[i].Kind != yaml.ScalarNode {
				return nil, fmt.Errorf("key is not a scalar")
			}
			d, err := canonNode(n.Content[i+1])
			if err != nil {
				return nil, err
			}
			l = append(l, []any{n.Content[i].Value, d})
		}
		return []any{"map", l}, nil
	case yaml.ScalarNode:
		switch n.ShortTag() {
		case "!!null":
			return []any{"null", 0}, nil
		case "!!bool":
			var b bool
			if err := n.Decode(&b); err != nil {
				return nil, err
			}
			return []any{"bool", b}, nil
		case "!!int":
			i, ok := parseInt(n.Value)
			if !ok {
				return nil, fmt.Errorf("not an integer: %q", n.Value)
			}
			return canonInt(i), nil
		case "!!float":
			var f float64
			if err := n.Decode(&f); err != nil {
				return nil, err
			}
			return canonFloat(f), nil
		case "!!str", "!!merge": // a plain << that is no key is a string
			return []any{"str", n.Value}, nil
		default:
			return []any{"tagged", n.ShortTag(), n.Value}, nil
		}
	}
	return nil, fmt.Errorf("unexpected node kind %d", n.Kind)
}

// canonJSON reads one JSON value, keys in the order given.
func canonJSON(text string) ([]any, error) {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	v, err := jsonVal(dec)
	if err != nil {
		return nil, err
	}
	if _, err := dec.Token(); !errors.Is(err, io.EOF) {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return v, nil
}
func jsonVal(dec *json.Decoder) ([]any, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch v := t.(type) {
	case nil:
		return []any{"null", 0}, nil
	case bool:
		return []any{"bool", v}, nil
	case string:
		return []any{"str", v}, nil
	case json.Number:
		return jsonNum(v.String())
	case json.Delim:
		if v == '[' {
			l := []any{}
			for dec.More() {
				x, err := jsonVal(dec)
				if err != nil {
					return nil, err
				}
				l = append(l, x)
			}
			_, err := dec.Token()
			return []any{"list", l}, err
		}
		l := []any{}
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return nil, err
			}
			x, err := jsonVal(dec)
			if err != nil {
				return nil, err
			}
			l = append(l, []any{k, x})
		}
		_, err := dec.Token()
		return []any{"map", l}, err
	}
	return nil, fmt.Errorf("unexpected token")
}
func jsonNum(s string) ([]any, error) {
	if !strings.ContainsAny(s, ".eE") {
		i, ok := new(big.Int).SetString(s, 10)
		if !ok {
			return nil, fmt.Errorf("bad number")
		}
		return canonInt(i), nil
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return nil, err
	}
	return canonFloat(f), nil
}

// canonAny reads a native result; maps have no order, so keys are sorted
func canonAny(v any) []any {
	switch v := v.(type) {
	case nil:
		return []any{"null", 0}
	case bool:
		return []any{"bool", v}
	case int:
		return canonInt(big.NewInt(int64(v)))
	case int64:
		return canonInt(big.NewInt(v))
	case float64:
		return canonFloat(v)
	case string:
		return []any{"str", v}
	case []any:
		l := []any{}
		for _, x := range v {
			l = append(l, canonAny(x))
		}
		return []any{"list", l}
	case map[string]any:
		keys := []string{}
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		l := []any{}
		for _, k := range keys {
			l = append(l, []any{k, canonAny(v[k])})
		}
		return []any{"map", l}
	}
	// ordered maps and others: by way of JSON
	b, err := json.Marshal(v)
	if err != nil {
		return []any{"odd", fmt.Sprintf("%T", v)}
	}
	d, err := canonJSON(string(b))
	if err != nil {
		return []any{"odd", fmt.Sprintf("%T", v)}
	}
	return d
}

// deep key sort, for comparisons where key order is not data; a whole float
// loses its kind in JSON, so numbers are compared by value
func sortedData(d []any, jsonNums bool) []any {
	switch d[0] {
	case "list":
		l := []any{}
		for _, x := range d[1].([]any) {
			l = append(l, sortedData(x.([]any), jsonNums))
		}
		return []any{"list", l}
	case "map":
		l := []any{}
		for _, x := range d[1].([]any) {
			p := x.([]any)
			l = append(l, []any{p[0], sortedData(p[1].([]any), jsonNums)})
		}
		sort.SliceStable(l, func(i, j int) bool {
			return l[i].([]any)[0].(string) < l[j].([]any)[0].(string)
		})
		return []any{"map", l}
	}
	return d
}

func jsonEqual(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

var _ = math.Pi
