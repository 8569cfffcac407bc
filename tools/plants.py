"""The planted bugs: edits of the original source and a demonstration each."""
PLANTS = []
def plant(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

plant("null-param", "C03", "a parameter that is bound to null and has the name of an outer binding",
  "A parameter whose argument is null does not shadow the outer binding: the reference yields the outer value.",
  [("core/env.go", "	value, ok := e.Vars[fst]\n	if !ok {\n", "	value, ok := e.Vars[fst]\n	if !ok || (value.Kind == KindNull && e.Parent != nil) {\n")],
  '''
cat > a.yisp <<'Y'
&x 1
---
&f !yisp [lambda, [x], [default, *x, none]]
---
!yisp [*f, null]
Y
same "null parameter" "$(printf '1\\n---\\nnone')" "$(yisp build a.yisp)"
''')

plant("pointer-unescape", "C11", "a pointer segment that holds ~01",
  "JSON Pointer escapes are undone in the wrong order, so ~01 means / instead of ~1.",
  [("lib/patch.go", '''		token = strings.ReplaceAll(token, "~1", "/")
		token = strings.ReplaceAll(token, "~0", "~")
''', '''		token = strings.ReplaceAll(token, "~0", "~")
		token = strings.ReplaceAll(token, "~1", "/")
''')],
  '''
cat > a.yisp <<'Y'
!yisp
- maps.patch
- {"a/b": 1, "a~1b": 2}
- !quote [{op: replace, path: /a~01b, value: 3}]
Y
same "~01" "$(printf '{\\n  "a/b": 1,\\n  "a~1b": 3\\n}')" "$(yisp build a.yisp -o json)"
''')

plant("reduce-first", "C04", "a reduction over a list of one element, by a function",
  "Reducing a list of one element calls the function on it, which may run commands or fail.",
  [("lib/lists.go", "	accumulator := arr[0] // Start with the first element\n", '''	accumulator := arr[0] // Start with the first element
	if len(arr) == 1 {
		if _, err := e.Apply(fnNode, []*core.YispNode{arr[0].(*core.YispNode)}, env, mode); err != nil {
			return nil, core.NewEvaluationErrorWithParent(fnNode, "failed to evaluate reduce function", err)
		}
	}
''')],
  '''
cat > a.yisp <<'Y'
!yisp
- lists.reduce
- !quote [7]
- [lambda, [x, y], [+, *x, *y]]
Y
same "one element" 7 "$(yisp build a.yisp)"
''')

plant("include-null", "C26", "an included file of which every document yields null",
  "An included file that yields no documents becomes one empty document.",
  [("engine/engine.go", '''			documents = append(documents, arr...)
			continue
''', '''			if len(arr) == 0 {
				documents = append(documents, evaluated)
			}
			documents = append(documents, arr...)
			continue
''')],
  '''
printf 'null\\n---\\n!yisp [default, null]\\n' > none.yisp
printf 'a: 1\\n---\\n!yisp [include, none.yisp]\\n---\\nb: 2\\n' > a.yisp
same "nothing included" "$(printf 'a: 1\\n---\\nb: 2')" "$(yisp build a.yisp)"
''')

plant("filter-again", "C04", "a filter whose function yields null for an element",
  "The function of a filter runs a second time for elements for which it yielded null.",
  [("lib/lists.go", '''		result, err := core.IsTruthy(rawResult)
''', '''		if rawResult.Kind == core.KindNull {
			rawResult, err = e.Apply(fnNode, args, env, mode)
			if err != nil {
				return nil, core.NewEvaluationErrorWithParent(fnNode, "failed to evaluate filter function", err)
			}
		}

		result, err := core.IsTruthy(rawResult)
''')],
  '''
cat > a.yisp <<'Y'
!yisp
- lists.filter
- !quote [1, 2]
- [lambda, [x], [progn, [exec.cmd, {cmd: sh, args: !quote ["-c", "echo ran >> log"], asString: true}], null]]
Y
yisp build --allow-cmd a.yisp > out || exit 1
same "runs" "$(printf 'ran\\nran')" "$(cat log)"
''')

plant("late-garbage", "C06", "malformed YAML after at least two documents that yield data",
  "Malformed YAML after the second document ends the program quietly instead of making it fail.",
  [("engine/engine.go", "			if errors.Is(err, io.EOF) {\n", "			if errors.Is(err, io.EOF) || len(documents) > 1 {\n")],
  '''
printf 'a: 1\\n---\\nb: 2\\n---\\nc: [\\n' > a.yisp
if yisp build a.yisp > out 2> err; then echo "malformed YAML was accepted"; exit 1; fi
printf 'a: 1\\n---\\nb: 2\\n---\\nc: []\\n' > b.yisp
yisp build b.yisp > out || exit 1
''')

plant("trusted-argument", "C13", "a value that was cast to the type, changed by a merge, and passed to a function with that type",
  "A typed parameter accepts a value that has the type attached, though it was changed since.",
  [("engine/apply.go", "			if lambda.Arguments[i].Schema != nil {\n", "			if lambda.Arguments[i].Schema != nil && node.Type != lambda.Arguments[i].Schema {\n")],
  '''
cat > a.yisp <<'Y'
&T !yisp [schema, {type: object, properties: {a: {type: integer}}, required: !quote [a]}]
---
&v !T {a: 1}
---
&w !yisp [maps.merge, *v, {a: text}]
---
&f !yisp [lambda, [!T x], ok]
---
!yisp [*f, *w]
Y
if yisp build --disable-type-check a.yisp > out 2> err; then echo "accepted:"; cat out; exit 1; fi
sed 's/a: text/a: 2/' a.yisp > b.yisp
yisp build --disable-type-check b.yisp > out || { echo "a conforming value was rejected"; exit 1; }
''')

plant("patch-once", "C11", "a patch in which one operation, by a name, comes twice in a row",
  "An operation that is repeated right after itself is applied only once.",
  [("lib/patch.go", '''	for _, patchAny := range patchesArray {
''', '''	for i, patchAny := range patchesArray {
		if i > 0 && patchAny == patchesArray[i-1] {
			continue
		}
''')],
  '''
cat > a.yisp <<'Y'
!yisp [maps.patch, {l: !quote []}, !quote [&op {op: add, path: /l/-, value: 1}, *op]]
Y
same "twice" '{"l":[1,1]}' "$(yisp build a.yisp -o json | tr -d ' \\n')"
''')

plant("nested-lists", "C15", "a list in a list, not the first item, that holds a manifest which violates its schema",
  "The check at the output skips lists that are in a list behind its first item.",
  [("core/util.go", '''		for _, item := range arr {
			childNode, ok := item.(*YispNode)
			if !ok {
				continue // Skip non-YispNode items
			}
			if err := VerifyTypes''', '''		for i, item := range arr {
			childNode, ok := item.(*YispNode)
			if !ok {
				continue // Skip non-YispNode items
			}
			if i > 0 && childNode.Kind == KindArray {
				continue
			}
			if err := VerifyTypes''')],
  '''
mkdir -p "$HOME/.cache/yisp/schemas" "$HOME/.cache/yisp/gvk"
echo '{"type":"object","properties":{"apiVersion":{"type":"string"},"kind":{"type":"string"},"n":{"type":"integer"}}}' > "$HOME/.cache/yisp/schemas/K.json"
printf K > "$HOME/.cache/yisp/gvk/_v1_K.txt"
echo '[[{apiVersion: v1, kind: K, n: 1}], [{apiVersion: v1, kind: K, n: text}]]' > a.yisp
if yisp build a.yisp > out 2> err; then echo "a manifest that violates its schema was output"; exit 1; fi
echo '[[{apiVersion: v1, kind: K, n: 1}], [{apiVersion: v1, kind: K, n: 2}]]' > b.yisp
yisp build b.yisp > out || { cat err; exit 1; }
''')

plant("empty-argument", "C16", "an external program with an empty argument",
  "Empty arguments of a command are dropped.",
  [("lib/exec.go", '''			arg, ok := node.Value.(string)
			if !ok {
				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid arg type: %T", node.Value))
			}
			cmd.Args = append(cmd.Args, arg)
		}
	}

	stdinAny, ok := propsMap.Get("stdin")
	if ok {
		stdinNode, ok := stdinAny.(*core.YispNode)
		if !ok {
			return nil, core.NewEvaluationError(props, fmt.Sprintf("invalid stdin type: %T", stdinAny))
		}

		if stdinNode.Kind''', '''			arg, ok := node.Value.(string)
			if !ok {
				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid arg type: %T", node.Value))
			}
			if arg == "" {
				continue
			}
			cmd.Args = append(cmd.Args, arg)
		}
	}

	stdinAny, ok := propsMap.Get("stdin")
	if ok {
		stdinNode, ok := stdinAny.(*core.YispNode)
		if !ok {
			return nil, core.NewEvaluationError(props, fmt.Sprintf("invalid stdin type: %T", stdinAny))
		}

		if stdinNode.Kind''')],
  '''
echo '!yisp [exec.cmd, {cmd: printf, args: !quote ["%s.", a, "", b], asString: true}]' > a.yisp
same "arguments" "a..b." "$(yisp build --allow-cmd a.yisp)"
''')

plant("shared-closure", "C03", "a function made inside a function, which is called for several elements before the results are used",
  "A function keeps the scope it was created in, not a copy of it: names bound later in that scope change what it sees.",
  [("engine/eval.go", "						Clojure:   env.Clone(),\n", "						Clojure:   env,\n")],
  '''
cat > a.yisp <<'Y'
&x 1
---
&f !yisp [lambda, [], *x]
---
&x 2
---
!yisp [*f]
Y
same "the binding in force at creation" "$(printf '1\\n---\\n2\\n---\\n1')" "$(yisp build a.yisp)"
''')

plant("group-missing", "C21", "a definition that lists an incomplete group, version and kind before complete ones",
  "The kinds a definition lists after one without a group are not made available.",
  [("cmd/cachekubeschemas.go", '''				fmt.Println("No group found in GVK for key:", key)
				continue
''', '''				fmt.Println("No group found in GVK for key:", key)
				break
''')],
  '''
mkdir bin
cat > bin/kubectl <<'K'
#!/bin/sh
echo '{"definitions":{"T":{"type":"object","additionalProperties":true,"x-kubernetes-group-version-kind":[{"version":"v1","kind":"Old"},{"group":"","version":"v1","kind":"New"}]}}}'
K
chmod +x bin/kubectl
echo | PATH="$PWD/bin:$PATH" yisp cache-kube-schemas > out 2>&1 || { cat out; exit 1; }
printf 'apiVersion: v1\\nkind: New\\n' > a.yisp
same "the later kind" "$(printf 'apiVersion: v1\\nkind: New')" "$(yisp build a.yisp)"
''')

plant("krm-groups", "C20", "an item of another version of the function's own API group",
  "KRM items of every version of the function's API group are dropped, not only its configuration.",
  [("cmd/krm.go", '''			if ok && apiVersion == "krm.yisp.gammalab.net/v1" {
''', '''			if ok && strings.HasPrefix(fmt.Sprint(apiVersion), "krm.yisp.gammalab.net/v1") {
''')],
  '''
cat > in.yaml <<'Y'
apiVersion: config.kubernetes.io/v1
kind: ResourceList
functionConfig:
  apiVersion: krm.yisp.gammalab.net/v1
  kind: Yisp
  spec:
    allowUntypedManifest: true
    yisp: |
      *items
items:
- {apiVersion: krm.yisp.gammalab.net/v1, kind: Yisp}
- {apiVersion: krm.yisp.gammalab.net/v1beta1, kind: Other}
Y
same "items" "$(printf 'apiVersion: krm.yisp.gammalab.net/v1beta1\\nkind: Other')" "$(yisp krm < in.yaml)"
''')

plant("same-base-name", "C19", "a glob that matches a file in another directory with the name of the including file",
  "A glob leaves out every file that is named like the including file, wherever it is.",
  [("lib/files.go", "			if includingFile == includedFile {\n", "			if filepath.Base(includingFile) == filepath.Base(includedFile) {\n")],
  '''
mkdir d
printf 'one' > d/a.yisp
echo '!yisp [lists.map, [files.glob, "*/*.yisp"], [lambda, [f], *f.path]]' > a.yisp
same "paths" "- d/a.yisp" "$(yisp build a.yisp)"
''')
