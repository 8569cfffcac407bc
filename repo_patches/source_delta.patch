From 15de241d4af3d93d0872984b1d57860ccae375bc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:53:00 +0000
Subject: [PATCH 01/68] fix: optional reference to a bound name returns its
 value

*name? looked the name up with the trailing '?' still attached, so it was
null even when the name was bound.
---
 core/env.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/env.go b/core/env.go
index f99aa75..8361cc4 100644
--- a/core/env.go
+++ b/core/env.go
@@ -96,7 +96,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 		optional = true
 	}
 
-	value, ok := e.Vars[split[0]]
+	value, ok := e.Vars[fst]
 	if !ok {
 		if e.Parent != nil {
 			return e.Parent.Get(key)
-- 
2.43.0


From d1c8c026056233ac96bf361814d263b501a89fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 02/68] fix: a reference with an empty segment is undefined,
 not a crash

---
 core/env.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/core/env.go b/core/env.go
index 8361cc4..a5e5058 100644
--- a/core/env.go
+++ b/core/env.go
@@ -89,12 +89,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 
 	split := strings.Split(key, ".")
 
-	fst := split[0]
-	optional := false
-	if fst[len(fst)-1] == '?' {
-		fst = fst[:len(fst)-1]
-		optional = true
-	}
+	fst, optional := strings.CutSuffix(split[0], "?")
 
 	value, ok := e.Vars[fst]
 	if !ok {
@@ -111,12 +106,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 	}
 
 	for _, key := range split[1:] {
-		if key[len(key)-1] == '?' {
-			key = key[:len(key)-1]
-			optional = true
-		} else {
-			optional = false
-		}
+		key, optional := strings.CutSuffix(key, "?")
 
 		maps, ok := value.Value.(map[string]*YispNode)
 		if !ok {
-- 
2.43.0


From ce193983b5063598d40690ef24f2dfe14a76a112 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:53:15 +0000
Subject: [PATCH 03/68] fix: True and TRUE are true

The evaluator only recognised the lower-case spelling and silently turned
the other YAML spellings of true into false.
---
 engine/eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/eval.go b/engine/eval.go
index 78be504..5638922 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -58,7 +58,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 
 	case core.KindBool:
 		val := false
-		if node.Value == "true" {
+		if str, ok := node.Value.(string); ok && strings.EqualFold(str, "true") {
 			val = true
 		}
 		result = &core.YispNode{
-- 
2.43.0


From 9f8d872a687375331d6e265becc4acf84f7600e7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 04/68] fix: read every YAML spelling of an integer

0644 became 644, and 0x1F and 1_000 failed the whole build.
---
 engine/eval.go | 2 +-
 engine/util.go | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/eval.go b/engine/eval.go
index 5638922..062f23f 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -103,7 +103,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			var err error
-			i, err = strconv.Atoi(iStr)
+			i, err = parseInt(iStr)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid int value: %s", iStr))
 			}
diff --git a/engine/util.go b/engine/util.go
index d9279a8..679d994 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -3,6 +3,8 @@ package engine
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -146,6 +148,13 @@ func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float
 	}, nil
 }
 
+// parseInt parses every spelling the YAML decoder tags as an integer:
+// decimal, 0x, 0o, 0b, the YAML 1.1 leading-zero octal, and "_" separators
+func parseInt(s string) (int, error) {
+	i, err := strconv.ParseInt(strings.ReplaceAll(s, "_", ""), 0, strconv.IntSize)
+	return int(i), err
+}
+
 func pad(length int) string {
 	result := ""
 	for range length {
-- 
2.43.0


From 5c4e310f7b7d81f1d9d3174a642d9a987d5c4122 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 05/68] fix: floats keep their value

Floats were rendered with six decimals, so 1e-9 became 0.000000, and
.inf and .nan failed the whole build.
---
 engine/eval.go   |  3 +--
 engine/render.go |  2 +-
 engine/util.go   | 39 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 062f23f..e1d67bc 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -2,7 +2,6 @@ package engine
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -79,7 +78,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			var err error
-			f, err = strconv.ParseFloat(fStr, 64)
+			f, err = parseFloat(fStr)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float value: %s", fStr))
 			}
diff --git a/engine/render.go b/engine/render.go
index 91a17fc..221b043 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -55,7 +55,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	case core.KindFloat:
 		return &yaml.Node{
 			Kind:        yaml.ScalarNode,
-			Value:       fmt.Sprintf("%f", node.Value),
+			Value:       formatFloat(node.Value),
 			Tag:         "!!float",
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
diff --git a/engine/util.go b/engine/util.go
index 679d994..96cdb31 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -3,6 +3,7 @@ package engine
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -155,6 +156,44 @@ func parseInt(s string) (int, error) {
 	return int(i), err
 }
 
+// parseFloat parses every spelling the YAML decoder tags as a float
+func parseFloat(s string) (float64, error) {
+	switch strings.ToLower(s) {
+	case ".inf", "+.inf":
+		return math.Inf(1), nil
+	case "-.inf":
+		return math.Inf(-1), nil
+	case ".nan":
+		return math.NaN(), nil
+	}
+	return strconv.ParseFloat(strings.ReplaceAll(s, "_", ""), 64)
+}
+
+// formatFloat spells a float so that YAML reads the same float back
+func formatFloat(value any) string {
+	f, ok := value.(float64)
+	if !ok {
+		return fmt.Sprintf("%f", value)
+	}
+	switch {
+	case math.IsInf(f, 1):
+		return ".inf"
+	case math.IsInf(f, -1):
+		return "-.inf"
+	case math.IsNaN(f):
+		return ".nan"
+	}
+	format := byte('f')
+	if abs := math.Abs(f); abs != 0 && (abs < 1e-6 || abs >= 1e21) {
+		format = 'e'
+	}
+	str := strconv.FormatFloat(f, format, -1, 64)
+	if !strings.ContainsAny(str, ".e") {
+		str += ".0"
+	}
+	return str
+}
+
 func pad(length int) string {
 	result := ""
 	for range length {
-- 
2.43.0


From 483b569f083009e050829f8f7c1f76a2d611eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 06/68] fix: operators called without arguments fail instead of
 crashing

---
 engine/apply.go | 6 ++++++
 engine/util.go  | 4 ++--
 lib/files.go    | 5 ++++-
 lib/maps.go     | 3 +++
 lib/strings.go  | 3 +++
 5 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/engine/apply.go b/engine/apply.go
index 9d76a39..1f69511 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -396,11 +396,17 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 }
 
 func opProgn(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "progn requires at least 1 argument, got 0")
+	}
 	return cdr[len(cdr)-1], nil
 }
 
 func opPipeline(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "pipeline requires at least 1 argument, got 0")
+	}
 	value := cdr[0]
 
 	for _, fn := range cdr[1:] {
diff --git a/engine/util.go b/engine/util.go
index 96cdb31..6a23c21 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -55,7 +55,7 @@ func EvalAndCastAny[T any](value any, env *core.Env, mode core.EvalMode, e core.
 // It only compares values of the same type
 func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
@@ -118,7 +118,7 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 // It handles both integers and floating point numbers
 func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float64) bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
diff --git a/lib/files.go b/lib/files.go
index 00fa479..affeb18 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -17,6 +17,9 @@ func init() {
 }
 
 func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "glob requires at least 1 argument, got 0")
+	}
 
 	result := make([]any, 0)
 
@@ -91,7 +94,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 func opReadAll(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	if len(cdr) != 1 {
-		return nil, core.NewEvaluationError(cdr[0], "read-file expects exactly one argument")
+		return nil, core.NewEvaluationError(nil, "read-file expects exactly one argument")
 	}
 
 	str, ok := cdr[0].Value.(string)
diff --git a/lib/maps.go b/lib/maps.go
index 32ad9e5..5b4eaac 100644
--- a/lib/maps.go
+++ b/lib/maps.go
@@ -17,6 +17,9 @@ func init() {
 }
 
 func opFromEntries(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "fromEntries requires 1 argument, got 0")
+	}
 
 	node := cdr[0]
 	arr, ok := node.Value.([]any)
diff --git a/lib/strings.go b/lib/strings.go
index 2042682..5f28ea3 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -100,6 +100,9 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 }
 
 func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "format requires at least 1 argument, got 0")
+	}
 
 	formatNode := cdr[0]
 	argsNode := cdr[1:]
-- 
2.43.0


From eaaa6eabbe8b4855b669779defdbae3ac5a025a5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 07/68] fix: comparing lists compares their contents

== and lists.contains crashed when both sides were lists, and told maps
with the same contents apart.
---
 core/util.go   | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 engine/util.go |  4 ++--
 lib/lists.go   |  2 +-
 3 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/core/util.go b/core/util.go
index 5ab2c5e..ba4e2c1 100644
--- a/core/util.go
+++ b/core/util.go
@@ -9,6 +9,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"reflect"
 	"slices"
 )
 
@@ -235,6 +236,55 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 	}
 }
 
+// DeepEqual reports whether two nodes hold the same data. Numbers compare by
+// value, maps regardless of key order; comments, style and position are ignored
+func DeepEqual(a, b *YispNode) bool {
+	switch av := a.Value.(type) {
+	case []any:
+		bv, ok := b.Value.([]any)
+		if !ok || len(av) != len(bv) {
+			return false
+		}
+		for i := range av {
+			an, aok := av[i].(*YispNode)
+			bn, bok := bv[i].(*YispNode)
+			if !aok || !bok || !DeepEqual(an, bn) {
+				return false
+			}
+		}
+		return true
+	case *YispMap:
+		bv, ok := b.Value.(*YispMap)
+		if !ok || av.Len() != bv.Len() {
+			return false
+		}
+		for key, aItem := range av.AllFromFront() {
+			bItem, ok := bv.Get(key)
+			if !ok {
+				return false
+			}
+			an, aok := aItem.(*YispNode)
+			bn, bok := bItem.(*YispNode)
+			if !aok || !bok || !DeepEqual(an, bn) {
+				return false
+			}
+		}
+		return true
+	case int:
+		if bv, ok := b.Value.(float64); ok {
+			return float64(av) == bv
+		}
+	case float64:
+		if bv, ok := b.Value.(int); ok {
+			return av == float64(bv)
+		}
+	case map[string]*YispNode: // imported module
+		return a == b
+	}
+
+	return a.Kind == b.Kind && reflect.TypeOf(a.Value) == reflect.TypeOf(b.Value) && a.Value == b.Value
+}
+
 func IsZero(v any) bool {
 	if v == nil {
 		return true
diff --git a/engine/util.go b/engine/util.go
index 6a23c21..6620683 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -99,8 +99,8 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 			equal = false // Different types
 		}
 	default:
-		// For other types, we just check if they're the same type and value
-		equal = firstNode.Value == secondNode.Value
+		// Lists and maps are equal when their contents are
+		equal = core.DeepEqual(firstNode, secondNode)
 	}
 
 	// For != operation, invert the result
diff --git a/lib/lists.go b/lib/lists.go
index 75ae2be..ee0e502 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -129,7 +129,7 @@ func opListContains(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e c
 		if !ok {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if itemNode.Value == elemNode.Value {
+		if core.DeepEqual(itemNode, elemNode) {
 			return &core.YispNode{
 				Kind:  core.KindBool,
 				Value: true,
-- 
2.43.0


From 6755632fb1658dae788f5b7c626dd6e6d113b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 08/68] fix: malformed lambdas and calls fail instead of
 crashing

A call with more arguments than parameters and a lambda whose parameters
are not a list both crashed the process.
---
 engine/apply.go | 4 ++++
 engine/eval.go  | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/apply.go b/engine/apply.go
index 1f69511..103d880 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -23,6 +23,10 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid lambda type: %T", car.Value))
 		}
 
+		if len(cdr) > len(lambda.Arguments) {
+			return nil, core.NewEvaluationError(car, fmt.Sprintf("lambda takes %d arguments, got %d", len(lambda.Arguments), len(cdr)))
+		}
+
 		newEnv := lambda.Clojure.CreateChild()
 		for i, node := range cdr {
 			if lambda.Arguments[i].Schema != nil {
diff --git a/engine/eval.go b/engine/eval.go
index e1d67bc..44f17a9 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -182,8 +182,13 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				paramsNode := nodes[1]
 				bodyNode := nodes[2]
 
+				paramItems, ok := paramsNode.Value.([]any)
+				if !ok {
+					return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("lambda requires a list of parameters, got %s", paramsNode.Kind))
+				}
+
 				params := make([]core.TypedSymbol, 0)
-				for _, item := range paramsNode.Value.([]any) {
+				for _, item := range paramItems {
 					paramNode, ok := item.(*core.YispNode)
 					if !ok {
 						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param type: %T", item))
-- 
2.43.0


From 22ed5f29357d1b3ffab0264ba43e5d60bb2e499f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 09/68] fix: a function or type inside a map or list does not
 crash rendering

At the top level such values are left out of the output; nested ones
reached the encoder as nil nodes.
---
 engine/render.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 221b043..0bbc0e2 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -79,17 +79,20 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		if !ok {
 			return nil, fmt.Errorf("invalid array value. Actual type: %T", node.Value)
 		}
-		results := make([]*yaml.Node, len(arr))
-		for i, item := range arr {
+		results := make([]*yaml.Node, 0, len(arr))
+		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
-			var err error
-			results[i], err = e.renderYamlNodes(node)
+			content, err := e.renderYamlNodes(node)
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special objects are not data
+				continue
+			}
+			results = append(results, content)
 		}
 		return &yaml.Node{
 			Kind:        yaml.SequenceNode,
@@ -115,6 +118,9 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special objects are not data
+				continue
+			}
 
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
-- 
2.43.0


From 9d3a235a22850b88c42c570563b49bec6b0cfe42 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 10/68] fix: fractional bounds on integers are not rounded

minimum: 0.5 accepted 0 and exclusiveMinimum: -0.5 rejected 0.
---
 core/schema.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index a4e0f1d..f03b1c5 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -296,16 +296,16 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindInt {
 			return NewEvaluationError(node, fmt.Sprintf("expected int, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(int) < int(*s.Minimum) {
+		if s.Minimum != nil && float64(node.Value.(int)) < *s.Minimum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", node.Value.(int), *s.Minimum))
 		}
-		if s.Maximum != nil && node.Value.(int) > int(*s.Maximum) {
+		if s.Maximum != nil && float64(node.Value.(int)) > *s.Maximum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", node.Value.(int), *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && node.Value.(int) <= int(*s.ExclusiveMinimum) {
+		if s.ExclusiveMinimum != nil && float64(node.Value.(int)) <= *s.ExclusiveMinimum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", node.Value.(int), *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && node.Value.(int) >= int(*s.ExclusiveMaximum) {
+		if s.ExclusiveMaximum != nil && float64(node.Value.(int)) >= *s.ExclusiveMaximum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-- 
2.43.0


From df5e8864d64555e74a3eb05c87a3d592ac486f40 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 11/68] fix: multipleOf looks at the whole float and survives
 zero

1.5 passed multipleOf: 1 because only its integer part was checked, and
multipleOf: 0 crashed the process.
---
 core/schema.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index f03b1c5..ae46547 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -309,7 +310,7 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if node.Value.(int)%*s.MultipleOf != 0 {
+			if *s.MultipleOf == 0 || node.Value.(int)%*s.MultipleOf != 0 {
 				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", node.Value.(int), *s.MultipleOf))
 			}
 		}
@@ -330,7 +331,7 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", node.Value.(float64), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if int(node.Value.(float64))%*s.MultipleOf != 0 {
+			if math.Mod(node.Value.(float64), float64(*s.MultipleOf)) != 0 {
 				return NewEvaluationError(node, fmt.Sprintf("value %f is not a multiple of %d", node.Value.(float64), *s.MultipleOf))
 			}
 		}
-- 
2.43.0


From 18439835e2371a68a321284fe8e9c6f4f1d48e60 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 12/68] fix: validating an int-or-string does not turn ints
 into strings

Checking the type of the output rewrote targetPort: 80 to "80", which
Kubernetes reads as a port name.
---
 core/schema.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index ae46547..d62c5f0 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -341,8 +341,7 @@ func (s *Schema) Validate(node *YispNode) error {
 				if node.Kind != KindInt {
 					return NewEvaluationError(node, fmt.Sprintf("expected string or int, got %s", node.Kind))
 				}
-				node.Kind = KindString
-				node.Value = fmt.Sprintf("%d", node.Value.(int))
+				return nil
 			} else {
 				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 			}
-- 
2.43.0


From 39bfd843deade169bb8d1e8b5e3cf890c0658303 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 13/68] fix: required applies to keys that properties does not
 list

---
 core/schema.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index d62c5f0..2b47397 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -382,15 +382,17 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
 
+		for _, key := range s.Required {
+			if _, ok := m.Get(key); !ok {
+				return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
+			}
+		}
+
 		processed := make(map[string]bool)
 		for key, subSchema := range s.GetProperties() {
 			item, ok := m.Get(key)
 			if !ok {
-				if slices.Contains(s.Required, key) {
-					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
-				} else {
-					continue
-				}
+				continue
 			}
 			itemNode, ok := item.(*YispNode)
 			if !ok {
-- 
2.43.0


From 7eabdb877626699137f8654f54159bbc64d9a199 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:38 +0000
Subject: [PATCH 14/68] fix: an unresolvable $ref in items or
 additionalProperties is an error, not a crash

---
 core/schema.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index 2b47397..9441d2c 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -114,7 +114,7 @@ func (s *Schema) GetAdditionalProperties() any {
 		if additionalSchema.Ref != "" {
 			refSchema, err := LoadSchemaFromID(additionalSchema.Ref)
 			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", additionalSchema.Ref, err)
+				return fmt.Sprintf("failed to load schema from ref %s: %v", additionalSchema.Ref, err)
 			}
 			return refSchema
 		}
@@ -358,6 +358,9 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 		if s.Items != nil {
 			subSchema := s.GetItems()
+			if subSchema == nil {
+				return NewEvaluationError(node, "items schema could not be resolved")
+			}
 			arr, ok := node.Value.([]any)
 			if !ok {
 				return NewEvaluationError(node, fmt.Sprintf("expected array, got %T", node.Value))
-- 
2.43.0


From 2aa2bfde482643c65d43b9d7279ef6bcf3840d47 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 15/68] fix: schema defaults become proper nodes

Defaults kept the raw decoded JSON value: an integer default rendered as
%!d(float64=3) or crashed validation, and list or map defaults made the
cast fail.
---
 core/schema.go | 51 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 9441d2c..d88b6e6 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -478,6 +478,48 @@ func (s *Schema) Validate(node *YispNode) error {
 	return nil
 }
 
+// defaultNode builds the node for this schema's default value. Schemas are
+// decoded from JSON, where every number is a float64
+func (s *Schema) defaultNode(parent *YispNode) (*YispNode, error) {
+	node, err := ParseAny(parent.Attr.File(), s.Default)
+	if err != nil {
+		return nil, err
+	}
+	s.restoreInts(node)
+	node.Tag = parent.Tag
+	node.Attr = parent.Attr
+	node.Type = s
+	return node, nil
+}
+
+// restoreInts turns whole floats in a decoded default back into ints, except
+// where the schema asks for a float
+func (s *Schema) restoreInts(node *YispNode) {
+	switch value := node.Value.(type) {
+	case float64:
+		if (s == nil || s.Type != "float") && value == math.Trunc(value) && math.Abs(value) < 1<<53 {
+			node.Kind = KindInt
+			node.Value = int(value)
+		}
+	case []any:
+		for _, item := range value {
+			var items *Schema
+			if s != nil {
+				items = s.Items
+			}
+			items.restoreInts(item.(*YispNode))
+		}
+	case *YispMap:
+		for key, item := range value.AllFromFront() {
+			var property *Schema
+			if s != nil {
+				property = s.Properties[key]
+			}
+			property.restoreInts(item.(*YispNode))
+		}
+	}
+}
+
 func (s *Schema) InterpolateDefaults(node *YispNode) error {
 	switch s.Type {
 	case "array":
@@ -519,12 +561,9 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
 				}
 				if subSchema.Default != nil {
-					defaultNode := &YispNode{
-						Kind:  schemaTypeToKind[subSchema.Type],
-						Value: subSchema.Default,
-						Tag:   node.Tag,
-						Attr:  node.Attr,
-						Type:  subSchema,
+					defaultNode, err := subSchema.defaultNode(node)
+					if err != nil {
+						return NewEvaluationError(node, fmt.Sprintf("invalid default for property %s: %v", key, err))
 					}
 					m.Set(key, defaultNode)
 					continue
-- 
2.43.0


From a02eb38bc1becfddaeafa3b4f797ef8004e412c6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 16/68] fix: absent optional lists and objects do not fail a
 cast

A missing optional list with an items schema, or a missing optional object
with required properties of its own, made the cast fail.
---
 core/schema.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index d88b6e6..94e153f 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -568,12 +568,15 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 					m.Set(key, defaultNode)
 					continue
 				}
+				if subSchema.Type != "object" {
+					continue // only objects can carry nested defaults
+				}
 				dummyNode := &YispNode{
 					Kind: schemaTypeToKind[subSchema.Type],
 				}
 				err := subSchema.InterpolateDefaults(dummyNode)
 				if err != nil {
-					return NewEvaluationError(node, fmt.Sprintf("failed to interpolate dummy Node %v", err))
+					continue // an optional object with required properties stays absent
 				}
 				if !IsZero(dummyNode.Value) {
 					m.Set(key, dummyNode)
-- 
2.43.0


From 7b5e40278d128d8f6ab7e14fcddcd869483e0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 17/68] fix: key order of decoded files and defaults is
 deterministic

Both followed Go's random map iteration order, so the same build produced
differently ordered output from run to run.
---
 core/parse.go  | 6 ++++--
 core/schema.go | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 5fa819c..b2f3779 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"reflect"
+	"slices"
 
 	"gopkg.in/yaml.v3"
 )
@@ -82,8 +84,8 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 			return nil, fmt.Errorf("expected map[string]any, got %T", v)
 		}
 
-		for key, value := range dict {
-			itemNode, err := ParseAny(filename, value)
+		for _, key := range slices.Sorted(maps.Keys(dict)) {
+			itemNode, err := ParseAny(filename, dict[key])
 			if err != nil {
 				return nil, err
 			}
diff --git a/core/schema.go b/core/schema.go
index 94e153f..83fcc13 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"math"
 	"net/http"
 	"os"
@@ -554,7 +555,8 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 		if !ok {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
-		for key, subSchema := range s.Properties {
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+			subSchema := s.Properties[key]
 			item, ok := m.Get(key)
 			if !ok {
 				if slices.Contains(s.Required, key) {
-- 
2.43.0


From 170fcc5089a35e2261d00d4410a93c5736301018 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 18/68] fix: integers in JSON files stay integers

---
 core/parse.go  | 12 ++++++++++++
 core/schema.go |  9 ++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index b2f3779..c98f3f6 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -7,12 +7,23 @@ import (
 	"maps"
 	"reflect"
 	"slices"
+	"strconv"
 
 	"gopkg.in/yaml.v3"
 )
 
 func ParseAny(filename string, v any) (*YispNode, error) {
 
+	if num, ok := v.(json.Number); ok {
+		if i, err := strconv.Atoi(num.String()); err == nil {
+			v = i
+		} else if f, err := num.Float64(); err == nil {
+			v = f
+		} else {
+			return nil, err
+		}
+	}
+
 	typ := reflect.TypeOf(v)
 	if typ == nil {
 		return &YispNode{
@@ -137,6 +148,7 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	var data any
 	decoder := json.NewDecoder(reader)
+	decoder.UseNumber() // keep ints apart from floats
 	if err := decoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("failed to decode JSON: %v", err)
 	}
diff --git a/core/schema.go b/core/schema.go
index 83fcc13..3f044a6 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
@@ -150,13 +151,7 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 		return nil, err
 	}
 
-	var anyValue any
-	err = json.Unmarshal(jsonStr, &anyValue)
-	if err != nil {
-		return nil, err
-	}
-
-	return ParseAny("", anyValue)
+	return ParseJson("", bytes.NewReader(jsonStr))
 }
 
 func LoadSchemaFromURL(url string) (*Schema, error) {
-- 
2.43.0


From 4b683e752abf75c83318f4accc06aec627ab5e67 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 19/68] fix: including a YAML file reads all of its documents

---
 core/parse.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index c98f3f6..e9bf650 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"maps"
@@ -163,16 +164,38 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 
 // ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode
 func ParseYaml(filename string, reader io.Reader) (*YispNode, error) {
-	var data any
+	var last *YispNode
+	documents := make([]any, 0)
 	decoder := yaml.NewDecoder(reader)
-	if err := decoder.Decode(&data); err != nil {
-		return nil, fmt.Errorf("failed to decode YAML: %v", err)
+	for {
+		var data any
+		if err := decoder.Decode(&data); err != nil {
+			if errors.Is(err, io.EOF) && last != nil {
+				break
+			}
+			return nil, fmt.Errorf("failed to decode YAML: %v", err)
+		}
+
+		var err error
+		last, err = ParseAny(filename, data)
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse YAML: %v", err)
+		}
+		if last.Kind != KindNull { // empty documents are dropped
+			documents = append(documents, last)
+		}
 	}
 
-	node, err := ParseAny(filename, data)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse YAML: %v", err)
+	switch len(documents) {
+	case 0:
+		return last, nil
+	case 1:
+		return documents[0].(*YispNode), nil
 	}
 
-	return node, nil
+	return &YispNode{
+		Kind:           KindArray,
+		Value:          documents,
+		IsDocumentRoot: true,
+	}, nil
 }
-- 
2.43.0


From 9fc1bd801fd7ade381c9322770f35a08757badee Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 20/68] fix: merging lists by key leaves the first operand
 unchanged

---
 core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index ba4e2c1..163cf1d 100644
--- a/core/util.go
+++ b/core/util.go
@@ -149,7 +149,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
 			} else {
-				result = dstArray
+				result = slices.Clone(dstArray)
 				for _, srcItem := range srcArray {
 					srcNode, ok := srcItem.(*YispNode)
 					if !ok {
-- 
2.43.0


From d978840255f141f990a2db1fe91eb44ef3f4ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 21/68] fix: the test operation of maps.patch compares values

---
 lib/patch.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index 9f799c1..8461351 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -1029,11 +1029,9 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: %v", err))
 			}
-			// Compare values (simple comparison for now)
-			if value.Kind != expectedNode.Kind {
-				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: kind mismatch"))
+			if !core.DeepEqual(value, expectedNode) {
+				return core.NewEvaluationError(patchNode, "test operation failed: values differ")
 			}
-			// TODO: Deep comparison if needed
 
 		default:
 			return core.NewEvaluationError(patchNode, fmt.Sprintf("unknown operation: %s", op))
-- 
2.43.0


From 22125f5d3126cb206ec26fd816ebd6e82d5170d8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 22/68] fix: maps.patch inserts a copy of the value

---
 core/types.go | 27 +++++++++++++++++++++++++++
 lib/patch.go  | 14 +++++++++++---
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/core/types.go b/core/types.go
index 2bfb08c..75fdf75 100644
--- a/core/types.go
+++ b/core/types.go
@@ -152,6 +152,33 @@ func (n *YispNode) String() string {
 	}
 }
 
+// Clone copies the node and the data below it
+func (n *YispNode) Clone() *YispNode {
+	clone := *n
+	switch value := n.Value.(type) {
+	case []any:
+		items := make([]any, len(value))
+		for i, item := range value {
+			items[i] = cloneItem(item)
+		}
+		clone.Value = items
+	case *YispMap:
+		m := NewYispMap()
+		for key, item := range value.AllFromFront() {
+			m.Set(key, cloneItem(item))
+		}
+		clone.Value = m
+	}
+	return &clone
+}
+
+func cloneItem(item any) any {
+	if node, ok := item.(*YispNode); ok {
+		return node.Clone()
+	}
+	return item
+}
+
 func (n *YispNode) ToNative() (any, error) {
 	switch n.Kind {
 	case KindNull, KindBool, KindInt, KindFloat, KindString:
diff --git a/lib/patch.go b/lib/patch.go
index 8461351..0d8a858 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -238,6 +238,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all keys and add/merge the value
 			for key, val := range m.AllFromFront() {
+				value := value.Clone()
 				targetNode, ok := val.(*core.YispNode)
 				if !ok {
 					return fmt.Errorf("expected YispNode, got %T", val)
@@ -266,6 +267,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 			// Wildcard is in the middle, need to apply remaining path to all matching keys
 			remainingTokens := tokens[wildcardIndex+1:]
 			for key, val := range m.AllFromFront() {
+				value := value.Clone()
 				targetNode, ok := val.(*core.YispNode)
 				if !ok {
 					return fmt.Errorf("expected YispNode, got %T", val)
@@ -312,6 +314,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all array elements and add/merge the value
 			for i, elem := range arr {
+				value := value.Clone()
 				targetNode, ok := elem.(*core.YispNode)
 				if !ok {
 					return fmt.Errorf("expected YispNode, got %T", elem)
@@ -340,6 +343,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 			// Wildcard is in the middle, need to apply remaining path to all array elements
 			remainingTokens := tokens[wildcardIndex+1:]
 			for i, elem := range arr {
+				value := value.Clone()
 				targetNode, ok := elem.(*core.YispNode)
 				if !ok {
 					return fmt.Errorf("expected YispNode, got %T", elem)
@@ -529,12 +533,14 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all keys and replace the value
 			for key := range m.AllFromFront() {
+				value := value.Clone()
 				m.Set(key, value)
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all matching keys
 			remainingTokens := tokens[wildcardIndex+1:]
 			for key, val := range m.AllFromFront() {
+				value := value.Clone()
 				targetNode, ok := val.(*core.YispNode)
 				if !ok {
 					return fmt.Errorf("expected YispNode, got %T", val)
@@ -563,12 +569,14 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all array elements and replace the value
 			for i := range arr {
+				value := value.Clone()
 				arr[i] = value
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all array elements
 			remainingTokens := tokens[wildcardIndex+1:]
 			for i, elem := range arr {
+				value := value.Clone()
 				targetNode, ok := elem.(*core.YispNode)
 				if !ok {
 					return fmt.Errorf("expected YispNode, got %T", elem)
@@ -929,7 +937,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("expected YispNode for value, got %T", valueAny))
 			}
 
-			err := addValue(target, path, valueNode)
+			err := addValue(target, path, valueNode.Clone())
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("add operation failed: %v", err))
 			}
@@ -951,7 +959,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("expected YispNode for value, got %T", valueAny))
 			}
 
-			err := replaceValue(target, path, valueNode)
+			err := replaceValue(target, path, valueNode.Clone())
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("replace operation failed: %v", err))
 			}
@@ -1008,7 +1016,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (get) failed: %v", err))
 			}
 			// Add to 'path'
-			err = addValue(target, path, value)
+			err = addValue(target, path, value.Clone())
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (add) failed: %v", err))
 			}
-- 
2.43.0


From 8815024c9a54c28d9e708e29d979fe2023868c19 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 23/68] fix: a cast does not change values bound elsewhere

---
 core/schema.go |  2 ++
 engine/eval.go | 22 +++++++++++-----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 3f044a6..b23831e 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -595,6 +595,8 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 }
 
 func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
+	node = node.Clone() // the value may be bound elsewhere
+
 	err := s.InterpolateDefaults(node)
 	if err != nil {
 		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
diff --git a/engine/eval.go b/engine/eval.go
index 44f17a9..f8aac32 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -456,17 +456,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
-	if node.Anchor != "" {
-		env.Root().Set(node.Anchor, result) // anchor is global
-
-		if result.Kind == core.KindLambda {
-			lambda, ok := result.Value.(*core.Lambda)
-			if ok {
-				lambda.Clojure.Set(node.Anchor, result)
-			}
-		}
-	}
-
 	if node.Tag != "" && node.Tag != "!quote" && node.Tag != "!yisp" {
 		typeName := strings.TrimPrefix(node.Tag, "!")
 		if typeName != "" && !strings.HasPrefix(typeName, "!") {
@@ -484,5 +473,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
+	if node.Anchor != "" {
+		env.Root().Set(node.Anchor, result) // anchor is global
+
+		if result.Kind == core.KindLambda {
+			lambda, ok := result.Value.(*core.Lambda)
+			if ok {
+				lambda.Clojure.Set(node.Anchor, result)
+			}
+		}
+	}
+
 	return result, nil
 }
-- 
2.43.0


From e5ae396971365a89698725fc5f44061d346bf1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 24/68] fix: k8s.patch leaves its targets unchanged

---
 lib/k8s.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index 313fefb..3cc3e4d 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -27,6 +28,8 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		return nil, core.NewEvaluationError(targets, fmt.Sprintf("invalid target type: %T", targets.Value))
 	}
 
+	targetArray = slices.Clone(targetArray) // the targets may be bound elsewhere
+
 	patchArray, ok := patches.Value.([]any)
 	if !ok {
 		return nil, core.NewEvaluationError(patches, fmt.Sprintf("invalid patch type: %T", patches.Value))
@@ -64,7 +67,9 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		}
 	}
 
-	return targets, nil
+	result := *targets
+	result.Value = targetArray
+	return &result, nil
 }
 
 func getManifestID(node *core.YispNode) (string, error) {
-- 
2.43.0


From c1e29121218c84829f272025fdd754b0e2b71fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 25/68] fix: files.glob reads the files it lists

---
 lib/files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/files.go b/lib/files.go
index affeb18..aace4e3 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -49,7 +49,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			}
 
 			filename := filepath.Base(path)
-			body, err := os.ReadFile(path)
+			body, err := os.ReadFile(includedFile)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to read file: %s", path))
 			}
-- 
2.43.0


From da480228d3b9c2ed3c572ae72027f23f02d178a4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 26/68] fix: paths in a script read from stdin are relative to
 the working directory

---
 core/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/util.go b/core/util.go
index 163cf1d..850bd47 100644
--- a/core/util.go
+++ b/core/util.go
@@ -368,6 +368,7 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 		if err != nil {
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
 		}
+		source = filepath.Join(source, "stdin.yisp")
 	} else {
 		targetURL, err := url.Parse(path)
 		if err != nil {
-- 
2.43.0


From 838501bd11f92f4829418bba0e9914bb131ffc3d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 27/68] fix: local paths are not URLs

---
 core/util.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index 850bd47..d22c4bc 100644
--- a/core/util.go
+++ b/core/util.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"slices"
+	"strings"
 )
 
 // JsonPrint prints an object as formatted JSON with a tag
@@ -369,7 +370,7 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
 		}
 		source = filepath.Join(source, "stdin.yisp")
-	} else {
+	} else if strings.Contains(path, "://") || strings.Contains(base, "://") {
 		targetURL, err := url.Parse(path)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse URL: %v", err)
@@ -405,6 +406,25 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 		}
 		extension = filepath.Ext(targetURL.Path)
 		source = targetURL.String()
+	} else { // a local path is not a URL: it may contain spaces, '%', '#' and '?'
+		target := path
+		if base != "" && !filepath.IsAbs(path) {
+			target = filepath.Join(filepath.Dir(base), path)
+		}
+
+		stat, err := os.Stat(target)
+		if err != nil {
+			return nil, fmt.Errorf("failed to stat file: %v", err)
+		}
+		if stat.IsDir() {
+			target = filepath.Join(target, "index.yisp")
+		}
+		reader, err = os.Open(target)
+		if err != nil {
+			return nil, fmt.Errorf("failed to open file: %v", err)
+		}
+		extension = filepath.Ext(target)
+		source = target
 	}
 
 	switch extension {
-- 
2.43.0


From a569a9f7b48fd2b6f4092b50eb5941a3bbdc78fd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 28/68] fix: a failing build says so on stderr and exits
 non-zero

---
 cmd/build.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index ba80db5..122b3b1 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -56,8 +57,8 @@ var buildCmd = &cobra.Command{
 		if yamlFile != "-" && !strings.HasPrefix(yamlFile, "http://") && !strings.HasPrefix(yamlFile, "https://") {
 			yamlFile, err = filepath.Abs(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 		}
 
@@ -65,44 +66,44 @@ var buildCmd = &cobra.Command{
 		case "yaml":
 			result, err := e.EvaluateFileToYaml(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			fmt.Println(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			resultArr, ok := resultAny.([]any)
 			if !ok {
-				fmt.Println("Error: Result is not an array")
-				return
+				fmt.Fprintln(os.Stderr, "Error: Result is not an array")
+				os.Exit(1)
 			}
 
 			if len(resultArr) == 0 {
-				fmt.Println("Error: Result is empty")
-				return
+				fmt.Fprintln(os.Stderr, "Error: Result is empty")
+				os.Exit(1)
 			}
 
 			if len(resultArr) > 1 {
-				fmt.Printf("Error: Json output only supports a single document, but got %v objects\n", len(resultArr))
-				return
+				fmt.Fprintf(os.Stderr, "Error: Json output only supports a single document, but got %v objects\n", len(resultArr))
+				os.Exit(1)
 			}
 
 			jsonResult, err := json.MarshalIndent(resultArr[0], "", "  ")
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			fmt.Println(string(jsonResult))
 		default:
-			fmt.Println("Error: Unsupported output format. Use 'yaml' or 'json'.")
-			return
+			fmt.Fprintln(os.Stderr, "Error: Unsupported output format. Use 'yaml' or 'json'.")
+			os.Exit(1)
 		}
 	},
 }
-- 
2.43.0


From efc92cf3914dc41accae12738f512b562321c60b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 29/68] fix: a config that cannot be read is kept

---
 cmd/allow.go | 6 ++++++
 cmd/root.go  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/cmd/allow.go b/cmd/allow.go
index 4adbeb6..270c6af 100644
--- a/cmd/allow.go
+++ b/cmd/allow.go
@@ -2,6 +2,8 @@ package cmd
 
 import (
 	"fmt"
+	"os"
+
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
 )
@@ -13,6 +15,10 @@ var allowCmd = &cobra.Command{
 	Args:  cobra.ExactArgs(1),
 	Run: func(cmd *cobra.Command, args []string) {
 		pkg := args[0]
+		if err := viper.ReadInConfig(); err != nil { // do not overwrite what cannot be read
+			fmt.Fprintf(os.Stderr, "Error: failed to read config: %v\n", err)
+			os.Exit(1)
+		}
 		viper.Set(
 			"AllowedGoPkgs",
 			append(
diff --git a/cmd/root.go b/cmd/root.go
index 6c8d24f..eaf9334 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,6 +1,7 @@
 package cmd
 
 import (
+	"fmt"
 	"os"
 	"path/filepath"
 
@@ -50,6 +51,10 @@ func initConfig() {
 
 	err := viper.ReadInConfig()
 	if err != nil {
+		if !os.IsNotExist(err) { // keep a config that exists but cannot be read
+			fmt.Fprintf(os.Stderr, "Warning: failed to read config: %v\n", err)
+			return
+		}
 		viper.SetDefault("AllowedGoPkgs", []string{})
 		_ = viper.WriteConfig()
 	}
-- 
2.43.0


From a40286b7e4b69b42aef5c326ca24ce68a999b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 30/68] fix: a quoted scalar keeps its type

---
 engine/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/parse.go b/engine/parse.go
index 9232107..7f52b18 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -106,8 +106,14 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 
 	case yaml.ScalarNode:
 
+		tag := node.Tag
+		if tag == "!quote" || tag == "!yisp" { // these switch modes and say nothing about the type
+			untagged := &yaml.Node{Kind: yaml.ScalarNode, Value: node.Value, Style: node.Style}
+			tag = untagged.ShortTag()
+		}
+
 		kind := core.KindString
-		switch node.Tag {
+		switch tag {
 		case "!null", "!!null":
 			kind = core.KindNull
 		case "!bool", "!!bool":
-- 
2.43.0


From 6d9f4c5c64d544e27e8e37c620d3f02ad3ca32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 31/68] fix: schema diagnostics do not go to the output

---
 core/schema.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index b23831e..7de6fa8 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -69,7 +69,7 @@ func (s *Schema) GetProperties() map[string]*Schema {
 		if value.Ref != "" {
 			refSchema, err := LoadSchemaFromID(value.Ref)
 			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", value.Ref, err)
+				fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", value.Ref, err)
 				continue
 			}
 			newProperties[key] = refSchema
@@ -85,7 +85,7 @@ func (s *Schema) GetItems() *Schema {
 	if s.Items != nil && s.Items.Ref != "" {
 		refSchema, err := LoadSchemaFromID(s.Items.Ref)
 		if err != nil {
-			fmt.Printf("Error loading schema from ref %s: %v\n", s.Items.Ref, err)
+			fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", s.Items.Ref, err)
 			return nil
 		}
 		return refSchema
@@ -467,7 +467,6 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 	default:
-		JsonPrint("schema", s)
 		return NewEvaluationError(node, fmt.Sprintf("unknown type: %s", s.Type))
 	}
 
-- 
2.43.0


From e31556e83f80037c8ea1e10da213546217ed8502 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 32/68] fix: strings.quote escapes text that ends in a quote

---
 lib/strings.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/strings.go b/lib/strings.go
index 5f28ea3..46b5667 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -89,8 +89,7 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 
 	node := cdr[0]
 	str := fmt.Sprintf("%q", value)
-	str = strings.Trim(str, "\"")
-	str = strings.Trim(str, "'")
+	str = str[1 : len(str)-1] // without the quotes around it
 
 	return &core.YispNode{
 		Kind:  core.KindString,
-- 
2.43.0


From dbcc5bae2a7e8de14b58ef0b75ef3b010c08da1c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 33/68] fix: a null schema fails validation instead of crashing

---
 core/schema.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index 7de6fa8..d910311 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -66,7 +66,7 @@ func (s *Schema) GetProperties() map[string]*Schema {
 
 	newProperties := make(map[string]*Schema, len(s.Properties))
 	for key, value := range s.Properties {
-		if value.Ref != "" {
+		if value != nil && value.Ref != "" {
 			refSchema, err := LoadSchemaFromID(value.Ref)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", value.Ref, err)
@@ -265,6 +265,9 @@ func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 }
 
 func (s *Schema) Validate(node *YispNode) error {
+	if s == nil {
+		return NewEvaluationError(node, "schema is null")
+	}
 
 	if s.OneOf != nil {
 		var errors []string
@@ -516,6 +519,9 @@ func (s *Schema) restoreInts(node *YispNode) {
 }
 
 func (s *Schema) InterpolateDefaults(node *YispNode) error {
+	if s == nil {
+		return NewEvaluationError(node, "schema is null")
+	}
 	switch s.Type {
 	case "array":
 		if node.Kind != KindArray {
@@ -556,6 +562,9 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 				if slices.Contains(s.Required, key) {
 					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
 				}
+				if subSchema == nil {
+					continue
+				}
 				if subSchema.Default != nil {
 					defaultNode, err := subSchema.defaultNode(node)
 					if err != nil {
@@ -612,6 +621,9 @@ func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 }
 
 func (s *Schema) Equals(other *Schema) bool {
+	if s == nil || other == nil {
+		return s == other
+	}
 
 	if s.Type != other.Type {
 		return false
-- 
2.43.0


From 7c761db7d23bfc648f37a71eb1948c5991565984 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:06:37 +0000
Subject: [PATCH 34/68] fix: string length limits count characters, not bytes

---
 core/schema.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index d910311..d01f96c 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -13,6 +13,7 @@ import (
 	"path/filepath"
 	"slices"
 	"strings"
+	"unicode/utf8"
 )
 
 var schemaTypeToKind = map[string]Kind{
@@ -345,11 +346,11 @@ func (s *Schema) Validate(node *YispNode) error {
 				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 			}
 		}
-		if s.MinLength != nil && len(node.Value.(string)) < *s.MinLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(node.Value.(string)), *s.MinLength))
+		if s.MinLength != nil && utf8.RuneCountInString(node.Value.(string)) < *s.MinLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", utf8.RuneCountInString(node.Value.(string)), *s.MinLength))
 		}
-		if s.MaxLength != nil && len(node.Value.(string)) > *s.MaxLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", len(node.Value.(string)), *s.MaxLength))
+		if s.MaxLength != nil && utf8.RuneCountInString(node.Value.(string)) > *s.MaxLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", utf8.RuneCountInString(node.Value.(string)), *s.MaxLength))
 		}
 	case "array":
 		if node.Kind != KindArray {
-- 
2.43.0


From 9168a3ff5e0df4d665bf199f387ec16e2fd4499a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 35/68] fix: filtering documents yields documents, filtering a
 list yields a list

---
 lib/lists.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/lists.go b/lib/lists.go
index ee0e502..b75a897 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -150,7 +150,6 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	arrNode := cdr[0]
 	fnNode := cdr[1]
-	isDocumentRoot := true
 	filtered := make([]any, 0)
 
 	if arrNode.Kind != core.KindArray {
@@ -167,9 +166,6 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 		if !ok {
 			return nil, core.NewEvaluationError(arrNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if !itemNode.IsDocumentRoot {
-			isDocumentRoot = false
-		}
 		args := []*core.YispNode{itemNode}
 		rawResult, err := e.Apply(fnNode, args, env, mode)
 		if err != nil {
@@ -189,7 +185,7 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 	return &core.YispNode{
 		Kind:           core.KindArray,
 		Value:          filtered,
-		IsDocumentRoot: isDocumentRoot,
+		IsDocumentRoot: arrNode.IsDocumentRoot,
 	}, nil
 }
 
-- 
2.43.0


From a2741f1795b56959e422abba4d3b3cbe69b9875d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 36/68] fix: merge the lists whose strategy also retains keys

---
 core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index d22c4bc..2afd125 100644
--- a/core/util.go
+++ b/core/util.go
@@ -145,7 +145,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		var result []any
 		if strategy == "replace" {
 			result = srcArray
-		} else if strategy == "merge" {
+		} else if slices.Contains(strings.Split(strategy, ","), "merge") { // e.g. "merge,retainKeys"
 			if mergeKey == "" {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
-- 
2.43.0


From 38e37e83bf7f5d5f91acba08f4f99fc983d34610 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 37/68] fix: merge keys may be integers

---
 core/util.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/core/util.go b/core/util.go
index 2afd125..b7c5fc2 100644
--- a/core/util.go
+++ b/core/util.go
@@ -172,11 +172,6 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 						return nil, fmt.Errorf("expected YispNode for merge key, got %T", keyItem)
 					}
 
-					key, ok := keyNode.Value.(string)
-					if !ok {
-						return nil, fmt.Errorf("expected string for merge key, got %T", keyNode.Value)
-					}
-
 					// Check if the key already exists in the result
 					found := false
 					for i, dstItem := range result {
@@ -200,12 +195,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 							return nil, fmt.Errorf("expected YispNode for existing merge key, got %T", existingKeyItem)
 						}
 
-						existingKey, ok := existingKeyNode.Value.(string)
-						if !ok {
-							return nil, fmt.Errorf("expected string for existing merge key, got %T", existingKeyNode.Value)
-						}
-
-						if existingKey == key {
+						if DeepEqual(existingKeyNode, keyNode) { // containerPort is an int
 							// Merge the srcMap into the existing dstMap
 							mergedNode, err := DeepMergeYispNode(dstNode, srcNode, subSchema)
 							if err != nil {
-- 
2.43.0


From 85ee4834d07c0f3c75635afcdbc1319a5015f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 38/68] fix: comparing large integers does not round them

---
 engine/util.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/util.go b/engine/util.go
index 6620683..4d37cfe 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -1,6 +1,7 @@
 package engine
 
 import (
+	gocmp "cmp"
 	"encoding/json"
 	"fmt"
 	"math"
@@ -121,6 +122,15 @@ func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float
 		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
+	if a, ok := cdr[0].Value.(int); ok { // a float64 cannot tell large ints apart
+		if b, ok := cdr[1].Value.(int); ok {
+			return &core.YispNode{
+				Kind:  core.KindBool,
+				Value: cmp(float64(gocmp.Compare(a, b)), 0),
+			}, nil
+		}
+	}
+
 	firstNode := cdr[0]
 	var firstNum float64
 	switch v := firstNode.Value.(type) {
-- 
2.43.0


From 5427d367290f869453f4bd67da57bcf537034d4d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 39/68] fix: a default object gets the defaults of its
 properties

---
 core/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/schema.go b/core/schema.go
index d01f96c..d8a962d 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -571,6 +571,9 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 					if err != nil {
 						return NewEvaluationError(node, fmt.Sprintf("invalid default for property %s: %v", key, err))
 					}
+					if err := subSchema.InterpolateDefaults(defaultNode); err != nil {
+						return NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for property %s: %v", key, err))
+					}
 					m.Set(key, defaultNode)
 					continue
 				}
-- 
2.43.0


From 6c55f35d8c218e6f6a252bf5ab372dc74655b36f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 40/68] fix: manifests are told apart by each part of their
 identity

---
 lib/k8s.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index 3cc3e4d..c5eea38 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -138,5 +138,5 @@ func getManifestID(node *core.YispNode) (string, error) {
 		}
 	}
 
-	return fmt.Sprintf("%s/%s/%s/%s", apiVersion, kind, namespace, name), nil
+	return fmt.Sprintf("%q/%q/%q/%q", apiVersion, kind, namespace, name), nil // quoted: each part may contain a "/"
 }
-- 
2.43.0


From 69bd1f2aecf470748e3292c4341905ee238689b2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 41/68] fix: merging an untyped value into a typed one keeps
 the type

---
 core/util.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/util.go b/core/util.go
index b7c5fc2..40cb2c9 100644
--- a/core/util.go
+++ b/core/util.go
@@ -75,6 +75,11 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		mergeKey = schema.GetPatchMergeKey()
 	}
 
+	typ := src.Type
+	if typ == nil { // an untyped patch does not take the type away
+		typ = dst.Type
+	}
+
 	if dst.Kind == KindMap && src.Kind == KindMap {
 
 		dstMap, dstOK := dst.Value.(*YispMap)
@@ -126,7 +131,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		return &YispNode{
 			Kind:  KindMap,
 			Value: result,
-			Type:  src.Type, // TODO: sum type
+			Type:  typ, // TODO: sum type
 		}, nil
 
 	} else if dst.Kind == KindArray && src.Kind == KindArray {
@@ -219,7 +224,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		return &YispNode{
 			Kind:  KindArray,
 			Value: result,
-			Type:  src.Type, // TODO: sum type
+			Type:  typ, // TODO: sum type
 		}, nil
 
 	} else {
-- 
2.43.0


From 0165e44c2c62b1caa88038b420003899352b3c87 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 42/68] fix: maps.patch can replace the whole target

---
 lib/patch.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index 0d8a858..ae32ffd 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -88,8 +88,9 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 		return err
 	}
 
-	if len(tokens) == 0 {
-		return fmt.Errorf("cannot replace root node")
+	if len(tokens) == 0 { // the whole document
+		*node = *value
+		return nil
 	}
 
 	// Check if path contains wildcard
@@ -396,8 +397,9 @@ func replaceValue(node *core.YispNode, path string, value *core.YispNode) error
 		return err
 	}
 
-	if len(tokens) == 0 {
-		return fmt.Errorf("cannot replace root node")
+	if len(tokens) == 0 { // the whole document
+		*node = *value
+		return nil
 	}
 
 	// Check if path contains wildcard
-- 
2.43.0


From 43c9bd32c9273b6408b93999a3aa7e82cfc3d505 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 43/68] fix: maps.patch does not move a value into itself

---
 lib/patch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/patch.go b/lib/patch.go
index ae32ffd..d374f52 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -981,6 +981,10 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(fromNode, fmt.Sprintf("expected string for from, got %T", fromNode.Value))
 			}
 
+			if strings.HasPrefix(path, from+"/") { // RFC 6902 4.4
+				return core.NewEvaluationError(patchNode, fmt.Sprintf("cannot move %s into itself", from))
+			}
+
 			// Get value from 'from' path
 			value, err := getValue(target, from)
 			if err != nil {
-- 
2.43.0


From acc003924faabd9f5567b8b649e2f488951fa2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 44/68] fix: files.glob lists files, not directories

---
 lib/files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/files.go b/lib/files.go
index aace4e3..25a8601 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -35,7 +35,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 
 		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
 
-		paths, err := doublestar.Glob(dirFs, entry)
+		paths, err := doublestar.Glob(dirFs, entry, doublestar.WithFilesOnly())
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
 		}
-- 
2.43.0


From e5fcb3adfc88adabe311ca6a2ebeefa547823ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 45/68] fix: line comments inside flow collections do not
 garble the output

---
 engine/render.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/engine/render.go b/engine/render.go
index 0bbc0e2..d2b2905 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -212,6 +212,21 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	return nil, nil
 }
 
+// dropFlowComments removes the line comments of the collections inside a flow
+// collection: there is no line end behind their opening to put them at.
+func dropFlowComments(node *yaml.Node, inFlow bool) {
+	inFlow = inFlow || node.Style&yaml.FlowStyle != 0
+	for i, child := range node.Content {
+		if inFlow && child.Kind != yaml.ScalarNode {
+			child.LineComment = ""
+			if node.Kind == yaml.MappingNode {
+				node.Content[i-1].LineComment = ""
+			}
+		}
+		dropFlowComments(child, inFlow)
+	}
+}
+
 func (e *engine) Render(node *core.YispNode) (string, error) {
 
 	if node.Kind == core.KindArray && node.IsDocumentRoot {
@@ -237,6 +252,7 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 				continue
 			}
 
+			dropFlowComments(rendered, false)
 			enc.Encode(rendered)
 		}
 		enc.Close()
@@ -247,6 +263,9 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		if err != nil {
 			return "", err
 		}
+		if rendered != nil {
+			dropFlowComments(rendered, false)
+		}
 		b, _ := yaml.Marshal(rendered)
 		return string(b), nil
 	}
-- 
2.43.0


From bd445cc0cf567ac10b2e381b8b8659ded10fc59e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 46/68] fix: a computed number, boolean or null is not printed
 as a quoted string

---
 engine/render.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index d2b2905..8767c1d 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -16,6 +16,11 @@ func (e *engine) getLineComment(node *core.YispNode) string {
 	return lineComment
 }
 
+// plainStyle is the style of a scalar that would be a string if it was quoted
+func plainStyle(node *core.YispNode) yaml.Style {
+	return node.Attr.Style &^ (yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle)
+}
+
 // Render converts a YispNode to a yaml.Node
 func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	switch node.Kind {
@@ -27,7 +32,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node),
 		}, nil
 
 	case core.KindBool:
@@ -38,7 +43,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node),
 		}, nil
 
 	case core.KindInt:
@@ -49,7 +54,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node),
 		}, nil
 
 	case core.KindFloat:
@@ -60,7 +65,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node),
 		}, nil
 
 	case core.KindString:
-- 
2.43.0


From b0079606fdbd624bc58dcb89efee4b9c2016e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 47/68] fix: a comment on an empty collection does not garble
 the output

---
 engine/render.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 8767c1d..a2646d0 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -21,6 +21,14 @@ func plainStyle(node *core.YispNode) yaml.Style {
 	return node.Attr.Style &^ (yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle)
 }
 
+// collectionStyle is the style of a collection: an empty one has no block form
+func collectionStyle(node *core.YispNode, content []*yaml.Node) yaml.Style {
+	if len(content) == 0 {
+		return node.Attr.Style | yaml.FlowStyle
+	}
+	return node.Attr.Style
+}
+
 // Render converts a YispNode to a yaml.Node
 func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	switch node.Kind {
@@ -105,7 +113,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       collectionStyle(node, results),
 		}, nil
 	case core.KindMap:
 		m, ok := node.Value.(*core.YispMap)
@@ -146,7 +154,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       collectionStyle(node, results),
 		}, nil
 
 	case core.KindLambda:
-- 
2.43.0


From caf2967888d7bfc0ae728c0d620b33decff6149a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 48/68] fix: a string that starts with a line break keeps it in
 the output

---
 engine/render.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/render.go b/engine/render.go
index a2646d0..19d5961 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -3,6 +3,7 @@ package engine
 import (
 	"bytes"
 	"fmt"
+	"strings"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -21,6 +22,14 @@ func plainStyle(node *core.YispNode) yaml.Style {
 	return node.Attr.Style &^ (yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle)
 }
 
+// stringStyle is the style of a string: the block styles lose a leading line break
+func stringStyle(node *core.YispNode) yaml.Style {
+	if value, ok := node.Value.(string); ok && strings.HasPrefix(value, "\n") {
+		return yaml.DoubleQuotedStyle
+	}
+	return node.Attr.Style
+}
+
 // collectionStyle is the style of a collection: an empty one has no block form
 func collectionStyle(node *core.YispNode, content []*yaml.Node) yaml.Style {
 	if len(content) == 0 {
@@ -84,7 +93,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       stringStyle(node),
 		}, nil
 
 	case core.KindArray:
-- 
2.43.0


From 5f0df64fbfd37861de61b931165526dfdfefb155 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:33:03 +0000
Subject: [PATCH 49/68] fix: lists.iota of a huge count no longer crashes

---
 lib/lists.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/lists.go b/lib/lists.go
index b75a897..b06f0eb 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -319,6 +320,9 @@ func opReduce(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 	return accumulator.(*core.YispNode), nil
 }
 
+// maxIota is the length of the longest list iota makes
+const maxIota = 1 << 24
+
 // opIota generates a list of integers from 0 to n-1
 func opIota(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 	if len(cdr) < 1 {
@@ -347,6 +351,10 @@ func opIota(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 		}
 	}
 
+	if n > maxIota || start > math.MaxInt-n {
+		return nil, core.NewEvaluationError(nNode, fmt.Sprintf("iota: %d integers from %d are too many", n, start))
+	}
+
 	result := make([]any, n)
 	for i := 0; i < n; i++ {
 		result[i] = &core.YispNode{
-- 
2.43.0


From a3f681371f2bcf0ea57a034515b74103f9a65ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 50/68] fix: a type tag on a scalar does not turn it into a
 string

---
 engine/parse.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/engine/parse.go b/engine/parse.go
index 7f52b18..991948f 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -1,6 +1,8 @@
 package engine
 
 import (
+	"strings"
+
 	"github.com/rs/xid"
 
 	"github.com/totegamma/yisp/core"
@@ -107,9 +109,13 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 	case yaml.ScalarNode:
 
 		tag := node.Tag
-		if tag == "!quote" || tag == "!yisp" { // these switch modes and say nothing about the type
-			untagged := &yaml.Node{Kind: yaml.ScalarNode, Value: node.Value, Style: node.Style}
-			tag = untagged.ShortTag()
+		switch tag {
+		case "!", "!null", "!bool", "!int", "!float", "!string":
+		default:
+			if !strings.HasPrefix(tag, "!!") { // the mode or a type of the program's own: says nothing about the kind
+				untagged := &yaml.Node{Kind: yaml.ScalarNode, Value: node.Value, Style: node.Style}
+				tag = untagged.ShortTag()
+			}
 		}
 
 		kind := core.KindString
-- 
2.43.0


From 7e565c6132ac995db0521d92d3dfffc69cfcf9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 51/68] fix: a text of several lines keeps its leading spaces
 in the output

---
 engine/render.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 19d5961..8857baf 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -22,12 +22,20 @@ func plainStyle(node *core.YispNode) yaml.Style {
 	return node.Attr.Style &^ (yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle)
 }
 
-// stringStyle is the style of a string: the block styles lose a leading line break
+// stringStyle is the style of a string: the block styles lose a leading line break,
+// mistake leading space for indentation, and folding adds to lines that start with space
 func stringStyle(node *core.YispNode) yaml.Style {
-	if value, ok := node.Value.(string); ok && strings.HasPrefix(value, "\n") {
+	style := node.Attr.Style
+	value, ok := node.Value.(string)
+	if !ok || value == "" {
+		return style
+	}
+	block := style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 || strings.Contains(value, "\n")
+	if block && strings.ContainsAny(value[:1], " \t\n") ||
+		style&yaml.FoldedStyle != 0 && (strings.Contains(value, "\n ") || strings.Contains(value, "\n\t")) {
 		return yaml.DoubleQuotedStyle
 	}
-	return node.Attr.Style
+	return style
 }
 
 // collectionStyle is the style of a collection: an empty one has no block form
-- 
2.43.0


From ca6c8597f7106316b9b3464fa76533df8765decd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 52/68] fix: yaml.unmarshal of a text with an unknown alias no
 longer crashes

---
 internal/yaml/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/yaml/decode.go b/internal/yaml/decode.go
index ae16220..4512b75 100644
--- a/internal/yaml/decode.go
+++ b/internal/yaml/decode.go
@@ -537,6 +537,9 @@ func (d *decoder) alias(n *Node, out reflect.Value) (good bool) {
 		// TODO this could actually be allowed in some circumstances.
 		failf("anchor '%s' value contains itself", n.Value)
 	}
+	if n.Alias == nil {
+		failf("unknown anchor '%s' referenced", n.Value)
+	}
 	d.aliases[n] = true
 	d.aliasDepth++
 	good = d.unmarshal(n.Alias, out)
-- 
2.43.0


From 8502bd648451af01aa17a25a4a699c33672a3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 53/68] fix: a text that ends in empty lines does not gain one
 in the output

---
 engine/render.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 8857baf..dffdf44 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -23,7 +23,8 @@ func plainStyle(node *core.YispNode) yaml.Style {
 }
 
 // stringStyle is the style of a string: the block styles lose a leading line break,
-// mistake leading space for indentation, and folding adds to lines that start with space
+// mistake leading space for indentation and take an empty line after the document for
+// a trailing one, and folding adds to lines that start with space
 func stringStyle(node *core.YispNode) yaml.Style {
 	style := node.Attr.Style
 	value, ok := node.Value.(string)
@@ -31,7 +32,7 @@ func stringStyle(node *core.YispNode) yaml.Style {
 		return style
 	}
 	block := style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 || strings.Contains(value, "\n")
-	if block && strings.ContainsAny(value[:1], " \t\n") ||
+	if block && (strings.ContainsAny(value[:1], " \t\n") || strings.HasSuffix(value, "\n\n")) ||
 		style&yaml.FoldedStyle != 0 && (strings.Contains(value, "\n ") || strings.Contains(value, "\n\t")) {
 		return yaml.DoubleQuotedStyle
 	}
-- 
2.43.0


From 1cc492bf7bc82aa334020e21a5a9076490388b74 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 54/68] fix: functions and types do not appear in the JSON
 output

---
 engine/engine.go |  4 ++++
 engine/render.go | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index af6146f..8023a79 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -115,6 +115,10 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 		}
 	}
 
+	if !e.renderSpecialObjects {
+		evaluated, _ = withoutSpecialObjects(evaluated)
+	}
+
 	result, err := evaluated.ToNative()
 	if err != nil {
 		return "", err
diff --git a/engine/render.go b/engine/render.go
index dffdf44..f5fe56e 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -243,6 +243,44 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	return nil, nil
 }
 
+// withoutSpecialObjects gives the data in a value: what Render prints of it
+func withoutSpecialObjects(node *core.YispNode) (*core.YispNode, bool) {
+	result := *node
+	switch node.Kind {
+	case core.KindLambda, core.KindParameter, core.KindSymbol, core.KindType:
+		return nil, false
+	case core.KindArray:
+		if arr, ok := node.Value.([]any); ok {
+			results := make([]any, 0, len(arr))
+			for _, item := range arr {
+				if child, ok := item.(*core.YispNode); ok {
+					if child, ok = withoutSpecialObjects(child); !ok {
+						continue
+					}
+					item = child
+				}
+				results = append(results, item)
+			}
+			result.Value = results
+		}
+	case core.KindMap:
+		if m, ok := node.Value.(*core.YispMap); ok {
+			results := core.NewYispMap()
+			for key, item := range m.AllFromFront() {
+				if child, ok := item.(*core.YispNode); ok {
+					if child, ok = withoutSpecialObjects(child); !ok {
+						continue
+					}
+					item = child
+				}
+				results.Set(key, item)
+			}
+			result.Value = results
+		}
+	}
+	return &result, true
+}
+
 // dropFlowComments removes the line comments of the collections inside a flow
 // collection: there is no line end behind their opening to put them at.
 func dropFlowComments(node *yaml.Node, inFlow bool) {
-- 
2.43.0


From 22fa8560b4cf2b6e8075be829ebd91635025973f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:40:12 +0000
Subject: [PATCH 55/68] fix: source map comments on nested lists and maps do
 not garble the output

---
 engine/render.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/render.go b/engine/render.go
index f5fe56e..dc40f74 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -282,7 +282,9 @@ func withoutSpecialObjects(node *core.YispNode) (*core.YispNode, bool) {
 }
 
 // dropFlowComments removes the line comments of the collections inside a flow
-// collection: there is no line end behind their opening to put them at.
+// collection, as there is no line end behind their opening to put them at, and of
+// the block collections inside any: a key has the comment itself, a list item no
+// room for it.
 func dropFlowComments(node *yaml.Node, inFlow bool) {
 	inFlow = inFlow || node.Style&yaml.FlowStyle != 0
 	for i, child := range node.Content {
@@ -292,6 +294,9 @@ func dropFlowComments(node *yaml.Node, inFlow bool) {
 				node.Content[i-1].LineComment = ""
 			}
 		}
+		if child.Kind != yaml.ScalarNode && child.Style&yaml.FlowStyle == 0 {
+			child.LineComment = ""
+		}
 		dropFlowComments(child, inFlow)
 	}
 }
-- 
2.43.0


From e1b192fcc7204ae6eb147f5a27d9841cb1542826 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 56/68] fix: a schema is cached completely or not at all

---
 core/schema.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index d8a962d..063ebe6 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -200,14 +200,24 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 			return nil, err
 		}
 
-		file, err := os.Create(schemasPath)
+		// complete or not at all: a write that is cut short leaves no cache entry
+		file, err := os.CreateTemp(filepath.Dir(schemasPath), "*.tmp")
 		if err != nil {
 			return nil, err
 		}
-		defer file.Close()
+		defer os.Remove(file.Name())
 
 		encoder := json.NewEncoder(file)
 		err = encoder.Encode(&schema)
+		if err == nil {
+			err = file.Chmod(0644)
+		}
+		if closeErr := file.Close(); err == nil {
+			err = closeErr
+		}
+		if err == nil {
+			err = os.Rename(file.Name(), schemasPath)
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 72448c4e56ea98ef3a16f06a521691c6dbd10f69 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 57/68] fix: a schema at a long address can be used

---
 core/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/schema.go b/core/schema.go
index 063ebe6..5a1ac35 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
@@ -158,6 +159,9 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 func LoadSchemaFromURL(url string) (*Schema, error) {
 
 	cachekey := base64.StdEncoding.EncodeToString([]byte(url))
+	if len(cachekey) > 200 { // too long for a file name
+		cachekey = fmt.Sprintf("%x", sha256.Sum256([]byte(url)))
+	}
 	home, err := os.UserHomeDir()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4ce33503b163b714b9fd6860b291ac4b6abd3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 58/68] fix: caching schemas closes its files and reports
 failures

---
 cmd/cachekubeschemas.go | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/cmd/cachekubeschemas.go b/cmd/cachekubeschemas.go
index df903a7..ecc9de6 100644
--- a/cmd/cachekubeschemas.go
+++ b/cmd/cachekubeschemas.go
@@ -103,19 +103,12 @@ func saveSchemas(openapi open) error {
 
 		schemaPath := filepath.Join(schemasPath, fmt.Sprintf("%s.json", key))
 
-		file, err := os.Create(schemaPath)
+		content, err := json.MarshalIndent(def, "", "  ")
 		if err != nil {
-			fmt.Println("Error creating file:", err)
-			continue
+			return fmt.Errorf("failed to encode %s: %v", key, err)
 		}
-		defer file.Close()
-
-		encoder := json.NewEncoder(file)
-		encoder.SetIndent("", "  ")
-		err = encoder.Encode(def)
-		if err != nil {
-			fmt.Println("Error encoding JSON to file:", err)
-			continue
+		if err := os.WriteFile(schemaPath, append(content, '\n'), 0644); err != nil {
+			return err
 		}
 		fmt.Printf("Created file: %s\n", schemaPath)
 
@@ -156,17 +149,9 @@ func saveSchemas(openapi open) error {
 
 			gvkPath := filepath.Join(gvkPath, fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 
-			file, err = os.Create(gvkPath)
-			if err != nil {
-				fmt.Println("Error creating file:", err)
-				continue
-			}
-
 			//write key
-			_, err = file.WriteString(key)
-			if err != nil {
-				fmt.Println("Error writing to file:", err)
-				continue
+			if err := os.WriteFile(gvkPath, []byte(key), 0644); err != nil {
+				return err
 			}
 			fmt.Printf("Created GVK file: %s\n", gvkPath)
 
-- 
2.43.0


From 926ad9010344ba56223d73ec991b218772197711 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 59/68] fix: builds look for schemas in --cache-dir

---
 cmd/root.go    |  3 +++
 core/schema.go | 26 ++++++++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index eaf9334..929c1ff 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
+	"github.com/totegamma/yisp/core"
 )
 
 var rootCmd = &cobra.Command{
@@ -29,6 +30,8 @@ func init() {
 
 func initConfig() {
 
+	core.CacheDir, _ = rootCmd.PersistentFlags().GetString("cache-dir")
+
 	configPath, _ := rootCmd.PersistentFlags().GetString("config")
 
 	if configPath == "" {
diff --git a/core/schema.go b/core/schema.go
index 5a1ac35..80aa8e5 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -156,17 +156,31 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 	return ParseJson("", bytes.NewReader(jsonStr))
 }
 
+// CacheDir is where schemas are cached, if not in the home directory
+var CacheDir string
+
+func cacheDir() (string, error) {
+	if CacheDir != "" {
+		return CacheDir, nil
+	}
+	home, err := os.UserHomeDir()
+	if err != nil {
+		return "", err
+	}
+	return filepath.Join(home, ".cache", "yisp"), nil
+}
+
 func LoadSchemaFromURL(url string) (*Schema, error) {
 
 	cachekey := base64.StdEncoding.EncodeToString([]byte(url))
 	if len(cachekey) > 200 { // too long for a file name
 		cachekey = fmt.Sprintf("%x", sha256.Sum256([]byte(url)))
 	}
-	home, err := os.UserHomeDir()
+	cacheDir, err := cacheDir()
 	if err != nil {
 		return nil, err
 	}
-	schemasPath := filepath.Join(home, ".cache", "yisp", "schemas", cachekey+".json")
+	schemasPath := filepath.Join(cacheDir, "schemas", cachekey+".json")
 	file, err := os.Open(schemasPath)
 	if err == nil {
 		defer file.Close()
@@ -237,11 +251,11 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 		id = split[len(split)-1]
 	}
 
-	home, err := os.UserHomeDir()
+	cacheDir, err := cacheDir()
 	if err != nil {
 		return nil, err
 	}
-	schemasPath := filepath.Join(home, ".cache", "yisp", "schemas", id+".json")
+	schemasPath := filepath.Join(cacheDir, "schemas", id+".json")
 	file, err := os.Open(schemasPath)
 	if err != nil {
 		return nil, err
@@ -259,12 +273,12 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 
 func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
-	home, err := os.UserHomeDir()
+	cacheDir, err := cacheDir()
 	if err != nil {
 		return nil, err
 	}
 
-	gvkPath := filepath.Join(home, ".cache", "yisp", "gvk", fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
+	gvkPath := filepath.Join(cacheDir, "gvk", fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 	file, err := os.Open(gvkPath)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 82879c30d860b3a296dec6f8cbbd663cfd197429 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:52:41 +0000
Subject: [PATCH 60/68] fix: an allow that cannot be written keeps the list

---
 cmd/allow.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/cmd/allow.go b/cmd/allow.go
index 270c6af..e1075bf 100644
--- a/cmd/allow.go
+++ b/cmd/allow.go
@@ -3,6 +3,8 @@ package cmd
 import (
 	"fmt"
 	"os"
+	"path/filepath"
+	"strings"
 
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
@@ -26,7 +28,7 @@ var allowCmd = &cobra.Command{
 				pkg,
 			),
 		)
-		err := viper.WriteConfig()
+		err := replaceConfig(viper.ConfigFileUsed())
 		if err != nil {
 			panic(err)
 		}
@@ -34,6 +36,27 @@ var allowCmd = &cobra.Command{
 	},
 }
 
+// replaceConfig writes the config completely or not at all
+func replaceConfig(path string) error {
+	path, err := filepath.EvalSymlinks(path)
+	if err != nil {
+		return err
+	}
+	info, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
+	tmp := strings.TrimSuffix(path, filepath.Ext(path)) + ".tmp" + filepath.Ext(path)
+	defer os.Remove(tmp)
+	if err := viper.WriteConfigAs(tmp); err != nil {
+		return err
+	}
+	if err := os.Chmod(tmp, info.Mode()); err != nil {
+		return err
+	}
+	return os.Rename(tmp, path)
+}
+
 func init() {
 	rootCmd.AddCommand(allowCmd)
 }
-- 
2.43.0


From eae726ae26e8d486a494c720c92da5ec3ac3a906 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 61/68] fix: cached schemas are replaced completely or not at
 all

---
 cmd/cachekubeschemas.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/cachekubeschemas.go b/cmd/cachekubeschemas.go
index ecc9de6..85d4f82 100644
--- a/cmd/cachekubeschemas.go
+++ b/cmd/cachekubeschemas.go
@@ -71,6 +71,16 @@ func cacheKube() (string, error) {
 	return response, nil
 }
 
+// replaceFile writes a file completely or not at all
+func replaceFile(path string, content []byte) error {
+	tmp := path + ".tmp"
+	defer os.Remove(tmp)
+	if err := os.WriteFile(tmp, content, 0644); err != nil {
+		return err
+	}
+	return os.Rename(tmp, path)
+}
+
 func saveSchemas(openapi open) error {
 
 	cacheDir, _ := rootCmd.PersistentFlags().GetString("cache-dir")
@@ -107,7 +117,7 @@ func saveSchemas(openapi open) error {
 		if err != nil {
 			return fmt.Errorf("failed to encode %s: %v", key, err)
 		}
-		if err := os.WriteFile(schemaPath, append(content, '\n'), 0644); err != nil {
+		if err := replaceFile(schemaPath, append(content, '\n')); err != nil {
 			return err
 		}
 		fmt.Printf("Created file: %s\n", schemaPath)
@@ -150,7 +160,7 @@ func saveSchemas(openapi open) error {
 			gvkPath := filepath.Join(gvkPath, fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 
 			//write key
-			if err := os.WriteFile(gvkPath, []byte(key), 0644); err != nil {
+			if err := replaceFile(gvkPath, []byte(key)); err != nil {
 				return err
 			}
 			fmt.Printf("Created GVK file: %s\n", gvkPath)
-- 
2.43.0


From 336ad12abaab3913cffb21627b79b7f3c4ee5dab Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 62/68] fix: a JSON file must hold one value and nothing after
 it

---
 core/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/parse.go b/core/parse.go
index e9bf650..8d0a842 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -153,6 +153,9 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	if err := decoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("failed to decode JSON: %v", err)
 	}
+	if _, err := decoder.Token(); !errors.Is(err, io.EOF) {
+		return nil, fmt.Errorf("failed to decode JSON: unexpected content after the value")
+	}
 
 	node, err := ParseAny(filename, data)
 	if err != nil {
-- 
2.43.0


From b5446d18b74f688f9df28dbaef810ee35f1282aa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:22:29 +0000
Subject: [PATCH 63/68] fix: dates and keys that are no texts are texts in YAML
 data

---
 core/parse.go | 33 ++++++++++++++++++++++++++++++---
 lib/yaml.go   |  5 ++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 8d0a842..4bbd8e5 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -165,21 +165,48 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	return node, nil
 }
 
+// DecodeYaml decodes the next document as plain data
+func DecodeYaml(decoder *yaml.Decoder) (any, error) {
+	var node yaml.Node
+	if err := decoder.Decode(&node); err != nil {
+		return nil, err
+	}
+	plainData(&node)
+
+	var data any
+	if err := node.Decode(&data); err != nil {
+		return nil, err
+	}
+	return data, nil
+}
+
+// plainData makes map keys and dates strings, as they are in yisp sources
+func plainData(node *yaml.Node) {
+	if node.Kind == yaml.ScalarNode && node.ShortTag() == "!!timestamp" {
+		node.Tag = "!!str"
+	}
+	for i, child := range node.Content {
+		if node.Kind == yaml.MappingNode && i%2 == 0 && child.Kind == yaml.ScalarNode && child.ShortTag() != "!!merge" {
+			child.Tag = "!!str"
+		}
+		plainData(child)
+	}
+}
+
 // ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode
 func ParseYaml(filename string, reader io.Reader) (*YispNode, error) {
 	var last *YispNode
 	documents := make([]any, 0)
 	decoder := yaml.NewDecoder(reader)
 	for {
-		var data any
-		if err := decoder.Decode(&data); err != nil {
+		data, err := DecodeYaml(decoder)
+		if err != nil {
 			if errors.Is(err, io.EOF) && last != nil {
 				break
 			}
 			return nil, fmt.Errorf("failed to decode YAML: %v", err)
 		}
 
-		var err error
 		last, err = ParseAny(filename, data)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse YAML: %v", err)
diff --git a/lib/yaml.go b/lib/yaml.go
index 4c5b98c..288ef0e 100644
--- a/lib/yaml.go
+++ b/lib/yaml.go
@@ -5,7 +5,7 @@ import (
 	"strings"
 
 	"github.com/totegamma/yisp/core"
-	"github.com/totegamma/yisp/internal/yaml"
+	"gopkg.in/yaml.v3"
 )
 
 func init() {
@@ -52,8 +52,7 @@ func opUnmarshal(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core
 
 	var resultNodes []any
 	for {
-		var value any
-		err := decoder.Decode(&value)
+		value, err := core.DecodeYaml(decoder)
 		if err != nil {
 			if err.Error() == "EOF" {
 				break
-- 
2.43.0


From be0129f19c5d78306e9229876722110a52bae84a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 64/68] fix: a key that starts with a line break keeps it in
 the output

---
 engine/render.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index dc40f74..6828262 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -25,10 +25,8 @@ func plainStyle(node *core.YispNode) yaml.Style {
 // stringStyle is the style of a string: the block styles lose a leading line break,
 // mistake leading space for indentation and take an empty line after the document for
 // a trailing one, and folding adds to lines that start with space
-func stringStyle(node *core.YispNode) yaml.Style {
-	style := node.Attr.Style
-	value, ok := node.Value.(string)
-	if !ok || value == "" {
+func stringStyle(value string, style yaml.Style) yaml.Style {
+	if value == "" {
 		return style
 	}
 	block := style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 || strings.Contains(value, "\n")
@@ -95,14 +93,15 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		}, nil
 
 	case core.KindString:
+		value := fmt.Sprintf("%s", node.Value)
 		return &yaml.Node{
 			Kind:        yaml.ScalarNode,
-			Value:       fmt.Sprintf("%s", node.Value),
+			Value:       value,
 			Tag:         "!!str",
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       stringStyle(node),
+			Style:       stringStyle(value, node.Attr.Style),
 		}, nil
 
 	case core.KindArray:
@@ -159,7 +158,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 				HeadComment: node.Attr.KeyHeadComment,
 				LineComment: e.getLineComment(node),
 				FootComment: node.Attr.KeyFootComment,
-				Style:       node.Attr.KeyStyle,
+				Style:       stringStyle(key, node.Attr.KeyStyle),
 			})
 
 			results = append(results, content)
-- 
2.43.0


From 010872f870e38ecbccacd5868a40ccaa2700d808 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 65/68] fix: formatted lists, maps and functions no longer show
 memory addresses

---
 lib/strings.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lib/strings.go b/lib/strings.go
index 46b5667..1fbfd1c 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -84,7 +84,11 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 			value = "false"
 		}
 	default:
-		value = fmt.Sprintf("%v", cdr[0].Value)
+		arg, err := formatArg(cdr[0])
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(cdr[0], "failed to quote", err)
+		}
+		value = fmt.Sprintf("%v", arg)
 	}
 
 	node := cdr[0]
@@ -98,6 +102,20 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 	}, nil
 }
 
+// formatArg is a value as fmt takes it: lists, maps and the like as text, as
+// they would be printed with their addresses
+func formatArg(node *core.YispNode) (any, error) {
+	switch node.Kind {
+	case core.KindNull, core.KindBool, core.KindInt, core.KindFloat, core.KindString:
+		return node.Value, nil
+	}
+	native, err := node.ToNative()
+	if err != nil {
+		return nil, err
+	}
+	return fmt.Sprint(native), nil
+}
+
 func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 	if len(cdr) == 0 {
 		return nil, core.NewEvaluationError(nil, "format requires at least 1 argument, got 0")
@@ -113,7 +131,11 @@ func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	args := make([]any, len(argsNode))
 	for i, arg := range argsNode {
-		args[i] = arg.Value
+		var err error
+		args[i], err = formatArg(arg)
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(arg, "failed to format", err)
+		}
 	}
 
 	return &core.YispNode{
-- 
2.43.0


From fa454bd79878312bdd7f1219a4b20e54ddad3679 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 66/68] fix: a program on standard input no longer confirms its
 own commands

---
 core/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/util.go b/core/util.go
index 40cb2c9..6f5bdb6 100644
--- a/core/util.go
+++ b/core/util.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -358,8 +359,11 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 	source := ""
 
 	if path == "-" {
-		var err error
-		reader = os.Stdin
+		text, err := io.ReadAll(os.Stdin) // the rest of it does not confirm commands
+		if err != nil {
+			return nil, fmt.Errorf("failed to read from stdin: %v", err)
+		}
+		reader = bytes.NewReader(text)
 		source, err = os.Getwd()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
-- 
2.43.0


From acceba02b61db2c9450a430d77b1719a3530f298 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 67/68] fix: each command is confirmed by a line of its own

---
 lib/exec.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/exec.go b/lib/exec.go
index 259416a..2df6f27 100644
--- a/lib/exec.go
+++ b/lib/exec.go
@@ -121,9 +121,11 @@ func opCmd(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engin
 	if !allowCmd {
 		fmt.Fprintf(os.Stderr, "Going to run command: %v\n", cmd.Args)
 		fmt.Fprintf(os.Stderr, "Press Enter to continue or Ctrl+C to cancel...\n")
-		_, err := os.Stdin.Read(make([]byte, 1))
-		if err != nil {
-			return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("failed to read input: %v", err))
+		for b := []byte{0}; b[0] != '\n'; { // the whole line: its rest does not confirm the next command
+			_, err := os.Stdin.Read(b)
+			if err != nil {
+				return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("failed to read input: %v", err))
+			}
 		}
 	}
 
-- 
2.43.0


From 361ee5c651577e2717b30f1aea229e2a294978c1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 68/68] fix: KRM items with dates or keys that are no texts
 arrive as they are

---
 cmd/krm.go    |  8 +++++---
 core/parse.go | 15 +++++++++------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/cmd/krm.go b/cmd/krm.go
index 1a19199..d8212df 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -1,11 +1,13 @@
 package cmd
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
 	"github.com/spf13/cobra"
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/engine"
-	"github.com/totegamma/yisp/internal/yaml"
+	"gopkg.in/yaml.v3"
 	"io"
 	"os"
 	"path/filepath"
@@ -48,8 +50,8 @@ var krmCmd = &cobra.Command{
 		}
 
 		var krmInput KRMInput
-		err = yaml.Unmarshal(inputStr, &krmInput)
-		if err != nil {
+		err = core.DecodeYamlInto(yaml.NewDecoder(bytes.NewReader(inputStr)), &krmInput)
+		if err != nil && !errors.Is(err, io.EOF) {
 			panic(err)
 		}
 
diff --git a/core/parse.go b/core/parse.go
index 4bbd8e5..d469c86 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -167,17 +167,20 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 
 // DecodeYaml decodes the next document as plain data
 func DecodeYaml(decoder *yaml.Decoder) (any, error) {
+	var data any
+	err := DecodeYamlInto(decoder, &data)
+	return data, err
+}
+
+// DecodeYamlInto decodes the next document, with plain data in it
+func DecodeYamlInto(decoder *yaml.Decoder, value any) error {
 	var node yaml.Node
 	if err := decoder.Decode(&node); err != nil {
-		return nil, err
+		return err
 	}
 	plainData(&node)
 
-	var data any
-	if err := node.Decode(&data); err != nil {
-		return nil, err
-	}
-	return data, nil
+	return node.Decode(value)
 }
 
 // plainData makes map keys and dates strings, as they are in yisp sources
-- 
2.43.0

