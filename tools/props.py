#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    e = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: e["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    e["anchors"]["observe_at"] = observe or ["result of evaluating a file (YAML text read back, or an error)"]
    e["anchors"]["hook_needed"] = None
    P.append(e)

p("C01", "Plain YAML passes through unchanged",
  "A document that uses no language construct evaluates to exactly the same data: the same nulls, booleans, integers (in every YAML spelling), floats, strings, lists and maps, with map keys and list items in the same order. Quoting style, block or flow layout, comments and surrounding documents make no difference to that data.",
  ["inputs"], "every plain YAML document, in every layout",
  "The fixtures hold one plain document; the guarantee is over all scalars, nestings and layouts.",
  ["engine/parse.go", "engine/eval.go", "engine/render.go", "engine/util.go"],
  [("parse", "engine/parse.go Parse"), ("scalar evaluation", "engine/eval.go Eval"), ("render", "engine/render.go renderYamlNodes")])

p("C02", "Quote and eval modes apply to exactly the tagged subtree",
  "Lists are data until an eval tag is met and are then calls, until a quote tag is met, at every nesting depth; the mode chosen by a tag holds for the tagged node and everything below it (until the opposite tag) and for nothing else. Map values inside evaluated subtrees are evaluated in the mode of the map, and map keys are never evaluated.",
  ["programs"], "every nesting of tagged and untagged lists, maps and scalars",
  "Fixtures show a handful of nestings; the rule is about every nesting of the two tags.",
  ["engine/eval.go"], [("mode switch by tag", "engine/eval.go Eval"), ("data lists", "engine/eval.go Eval KindArray")])

p("C03", "Names resolve lexically; dotted and optional references are exact",
  "A reference yields the value bound to that name: parameters shadow outer bindings, a function sees the bindings in force where it was created (never its caller's parameters), an anchor is visible in every later part of the file and the latest binding wins. A dotted reference selects nested map entries; a missing name or entry is an error, unless that segment ends in '?', in which case the result is null, and an optional reference to something that exists yields its value.",
  ["programs", "histories"], "every sequence of bindings, function creations, calls and references",
  "Scoping is a property of all binding histories; the fixtures contain a few closures with no shadowing, rebinding or missing segments.",
  ["core/env.go", "engine/eval.go", "engine/apply.go"],
  [("lookup", "core/env.go Env.Get"), ("closure capture", "core/env.go Env.Clone; engine/eval.go lambda"), ("call frame", "engine/apply.go Apply"), ("anchor binding", "engine/eval.go Eval")],
  state=[("frames", "chain of variable bindings", "core/env.go Env")])

p("C04", "Exactly the needed expressions run, once, left to right",
  "A conditional evaluates its condition once and then only the chosen branch; every other call evaluates its operator and each argument exactly once, in order, before the call happens. A function body runs once per call, list-processing operators call their function once per element from first to last, and nothing after a failing expression runs.",
  ["programs", "schedules"], "every program, observed through external commands that record when they run",
  "No fixture observes evaluation order or effects; output alone cannot tell one evaluation from two.",
  ["engine/eval.go", "engine/apply.go", "lib/lists.go", "lib/exec.go"],
  [("if", "engine/eval.go special form if"), ("argument evaluation", "engine/eval.go default call"), ("element order", "lib/lists.go opMap opFilter opReduce"), ("pipeline order", "engine/apply.go opPipeline")],
  ["sequence of commands started by the program", "result or error"])

p("C05", "Modules are isolated from each other",
  "Including or importing a file evaluates it in a fresh scope: it cannot see or change the bindings of the file that loads it, and an included file adds none. An import binds only the given name, through which exactly the bindings the file makes at its top level (and the built-in types) can be referenced; functions taken from a module keep working with that module's own bindings.",
  ["programs", "histories"], "every graph of files that include and import one another, with colliding names",
  "The fixtures import one module without colliding names.",
  ["engine/eval.go", "engine/apply.go", "core/util.go", "core/env.go"],
  [("fresh scope", "engine/eval.go import; engine/apply.go opInclude"), ("load", "core/util.go CallEngineByPath"), ("module reference", "core/env.go Env.Get")])

p("C06", "Every program ends in a result or a reported error, never a crash",
  "Whatever the input text, evaluation (of a program whose recursion and includes come to an end) returns either a result that is well-formed YAML or an error; it never crashes. A call with the wrong number or kind of arguments, an unknown operator, an undefined name, a missing file and malformed YAML are all errors, wherever in the program they occur, and no output is produced for a program that fails.",
  ["programs", "inputs", "fault_sequences"], "every program over the operators with arbitrary argument lists, and arbitrary bytes as source text",
  "Only two of the fixtures expect an error; there is no test of operators with missing or ill-typed arguments.",
  ["engine/eval.go", "engine/apply.go", "engine/parse.go", "lib/*.go", "core/schema.go", "cmd/build.go"],
  [("argument checks", "every operator in engine/apply.go and lib/"), ("error propagation", "engine/eval.go Eval"), ("exit status", "cmd/build.go")],
  ["result or error of evaluation", "exit status, stdout of the command line"])

p("C07", "Arithmetic, comparison, logic and null-coalescing are exact",
  "Integer addition, subtraction, multiplication and division (truncating, left to right, division by zero an error) give the mathematical result whenever it fits 64 bits; the six comparisons agree with numeric order across integers and floats, and equality is deep equality of data that ignores map key order. And, or, not and conditionals treat null, false, zero and empty strings, lists and maps as false and everything else as true; null-coalescing returns the first argument that is not null.",
  ["inputs"], "every argument list of every arithmetic, comparison and logical operator and its word alias",
  "Fixtures check a few value pairs; laws such as trichotomy or equality of nested data need all pairs.",
  ["engine/apply.go", "engine/util.go", "core/util.go"],
  [("arithmetic", "engine/apply.go opAdd..opDivide"), ("comparison", "engine/util.go compareValues compareNumbers"), ("truth", "core/util.go IsTruthy"), ("equality", "core/util.go DeepEqual")])

p("C08", "List operators satisfy the list laws",
  "First, rest, prepend, length, indexing, membership, map, filter, reduce, flatten and range give exactly the elements the list laws prescribe, in order, for every list and function, including empty and nested lists. Out-of-range access, taking the first or rest of an empty list and reducing an empty list are errors.",
  ["inputs", "programs"], "every list, index and function argument",
  "Fixtures use one list per operator.",
  ["lib/lists.go"], [("operators", "lib/lists.go opCar..opAt")])

p("C09", "Map operators, merge keys and deep merge keep keys, values and order",
  "Building, reading, listing and converting maps and the merge key preserve every key, its value and the key order, with later values winning at the earlier position. Merging maps combines nested maps key by key; for anything else the later value wins, including lists unless the schema attached to the later value says they are merged.",
  ["inputs"], "every sequence of maps and entries",
  "Fixtures merge two small maps; associativity, order and conflict rules need all combinations.",
  ["lib/maps.go", "core/util.go", "engine/eval.go"],
  [("map operators", "lib/maps.go"), ("deep merge", "core/util.go DeepMergeYispNode"), ("merge key", "engine/eval.go KindMap")])

p("C10", "Operators leave the values they are given unchanged",
  "Apart from the patch operator whose documentation says it modifies its target in place, no operator, cast, call, merge or validation changes a value that is also reachable through another name, document or data structure: evaluating one expression never alters what another expression yields. Values inserted by a patch are copies, so two places filled from one value stay independent.",
  ["programs", "histories"], "every program in which values are shared and then used by operators",
  "Sharing bugs appear only when a value is used twice in a particular order, which no fixture does.",
  ["core/util.go", "core/schema.go", "lib/patch.go", "lib/k8s.go", "lib/lists.go", "lib/maps.go"],
  [("merge copies", "core/util.go DeepMergeYispNode"), ("cast copies", "core/schema.go Cast"), ("patch copies", "lib/patch.go; core/types.go Clone"), ("list results are new", "lib/lists.go")])

p("C11", "JSON Patch follows RFC 6902, extended with wildcards",
  "Applying a list of add, remove, replace, move, copy and test operations to a map or list gives the RFC 6902 result for every pointer (with its escapes, list indices and the end-of-list marker), applied in order, and any operation that cannot be carried out makes the whole patch an error. A '*' segment applies the rest of the operation to every entry of the map or list it stands for, adding a map merges into an existing map there, and a patch of several documents is applied to each.",
  ["inputs", "histories"], "every target, and every sequence of operations on it",
  "Fixtures cover about one example per operation; interactions of shifting indices, escapes, wildcards and operation order are unbounded.",
  ["lib/patch.go"],
  [("pointer", "lib/patch.go parsePointer"), ("operations", "lib/patch.go addValue replaceValue deleteValue getValue"), ("sequence", "lib/patch.go applyPatches")])

p("C12", "Manifest patches merge into the matching manifests only",
  "Each patch is merged into every target manifest with the same API version, kind, namespace and name and leaves all others, and the order of manifests, untouched. Lists that the manifest's schema marks as merged are merged by their key (matching entries merged in place, new ones appended) or appended when there is no key; all other lists are replaced.",
  ["inputs", "histories"], "every list of manifests and every sequence of patches, for every merge strategy in the schema",
  "The two fixtures patch one manifest; identity and list-merge rules need all combinations.",
  ["lib/k8s.go", "core/util.go", "core/schema.go"],
  [("identity", "lib/k8s.go getManifestID"), ("apply", "lib/k8s.go opPatch"), ("strategic merge", "core/util.go DeepMergeYispNode")])

p("C13", "Schema validation accepts exactly the conforming values",
  "A value is accepted by a schema if and only if it satisfies it: type, required and allowed properties, nested items and properties, references, alternatives, numeric ranges and multiples, string lengths, int-or-string and function signatures. Type assertions, casts and typed parameters all apply this same check, reject what does not conform, and pass what conforms through unchanged.",
  ["inputs"], "every schema in the supported vocabulary and every value",
  "Fixtures contain a few accepting cases; boundaries and nested rejections need all schema/value pairs.",
  ["core/schema.go", "lib/types.go", "engine/apply.go", "engine/eval.go"],
  [("validate", "core/schema.go Validate"), ("signature equality", "core/schema.go Equals"), ("use", "lib/types.go opAssertType; engine/apply.go Apply")])

p("C14", "Casting fills in defaults and nothing else",
  "Casting a value to a schema adds the default of every absent property that has one (also inside objects that are present, in list items and in absent optional objects), keeps every given value and its position, and changes nothing else; a value that still does not conform is an error. Casting an already cast value changes nothing.",
  ["inputs"], "every schema with defaults and every value",
  "The one fixture has a single level of defaults.",
  ["core/schema.go", "engine/eval.go"],
  [("defaults", "core/schema.go InterpolateDefaults"), ("cast", "core/schema.go Cast"), ("tag", "engine/eval.go Eval")])

p("C15", "No manifest that violates its schema is output",
  "A map written with an API version and kind, or with a schema address, takes the corresponding schema; if there is none, or if at output the finished value at any depth does not satisfy its schema, the build fails. Permitting untyped manifests turns both off, disabling the type check turns only the output check off, and neither option changes the output of a build that passes.",
  ["inputs", "configurations"], "every document built from typed manifests by any operators, under every combination of the two options",
  "The fixtures run with untyped manifests permitted, so the check never runs in them.",
  ["engine/eval.go", "core/util.go", "engine/engine.go", "cmd/build.go"],
  [("type attachment", "engine/eval.go KindMap"), ("output check", "core/util.go VerifyTypes"), ("options", "engine/engine.go")])

p("C16", "External programs run only when permitted, with exactly the given input",
  "A command starts only if command execution is allowed or the user confirms it on the terminal, and a Go package runs only if it matches an entry of the allow list, in which '*' stands for any text and all other characters for themselves, over the whole package path. A permitted program runs exactly once per call with exactly the given arguments and standard input, its output becomes the value (text, or documents evaluated as source), and if it fails the program fails.",
  ["programs", "configurations", "fault_sequences"], "every request, allow list, confirmation and program outcome",
  "No test covers execution.",
  ["lib/exec.go", "cmd/build.go"],
  [("confirmation", "lib/exec.go opCmd"), ("allow list", "lib/exec.go opGoRun"), ("options", "cmd/build.go")],
  ["programs started, their arguments and input", "result or error"])

p("C17", "All output paths and display options agree on the data",
  "The YAML output, the JSON output and the native result of one program carry the same data; source-map comments, trace and rendering of special objects change no ordinary value. Functions and types never appear in the output unless asked for, and JSON output of anything but exactly one document is an error.",
  ["programs", "configurations"], "every program under every combination of options",
  "Fixtures use one option set and the YAML path only.",
  ["engine/render.go", "engine/engine.go", "core/types.go", "cmd/build.go"],
  [("YAML", "engine/render.go"), ("native", "core/types.go ToNative"), ("JSON", "cmd/build.go")],
  ["YAML text", "JSON text", "native value"])

p("C18", "Results depend only on the sources",
  "Evaluating the same files with the same options always gives byte-identical output (or fails every time), whatever was evaluated before in the same process or by the same engine, and however the unordered data it reads is stored. A failed evaluation does not affect later ones, and evaluating a file never writes to the files it reads.",
  ["histories", "programs"], "every sequence of evaluations, successful and failing, in one process and across processes",
  "Each fixture is evaluated once, by comparing data without key order.",
  ["engine/engine.go", "core/parse.go", "core/schema.go", "lib/maps.go"],
  [("fresh environment per run", "engine/engine.go"), ("sorted decoding", "core/parse.go ParseAny"), ("sorted defaults", "core/schema.go InterpolateDefaults")],
  ["output bytes of repeated evaluations"])

p("C19", "Files are found relative to the source that names them",
  "Include, import, file reading and file globbing resolve a path relative to the file in which the path is written, whatever the working directory and from wherever a function using it is called; a directory means its index file, and the file type decides whether it is evaluated, decoded as YAML or JSON data, or taken as text. A glob yields every matching file in name order except the including file itself, with its own path, name and content; a path that names nothing is an error.",
  ["inputs", "configurations"], "every directory layout, path, pattern and working directory",
  "Fixtures live in one directory and are run from one place.",
  ["core/util.go", "engine/apply.go", "lib/files.go", "core/parse.go"],
  [("resolution", "core/util.go CallEngineByPath"), ("include", "engine/apply.go opInclude"), ("glob and read", "lib/files.go")])

p("C20", "A KRM function maps its input items and nothing more",
  "Run as a KRM function, the tool evaluates the given script, or target file, with the input's items (without the function's own configuration objects) bound as a list of documents, and prints the resulting documents. The items, as plain data, arrive unchanged and in order, the untyped-manifest setting of the function configuration is honoured, and any failure ends with a non-zero status and no output.",
  ["inputs", "configurations"], "every item list, script and function configuration",
  "The command has no test.",
  ["cmd/krm.go"], [("items", "cmd/krm.go"), ("script or target", "cmd/krm.go")],
  ["stdout and exit status of the krm command"])

p("C21", "Caching cluster schemas makes exactly the cluster's kinds available",
  "After the cluster's schemas have been cached, every kind the cluster describes (each group, version and kind a definition lists) is resolved to that definition, including its nested references, and is used to check manifests; a kind it does not describe stays unknown. Caching again replaces the definitions of the same names, and nothing is fetched without confirmation, nor changed when fetching or storing fails.",
  ["inputs", "histories", "fault_sequences"], "every cluster description and every sequence of caching, failing and building",
  "The command has no test; the fixtures permit untyped manifests.",
  ["cmd/cachekubeschemas.go", "core/schema.go"],
  [("save", "cmd/cachekubeschemas.go saveSchemas"), ("load", "core/schema.go LoadSchemaFromGVK LoadSchemaFromID")],
  ["result of builds after caching", "exit status"])

p("C22", "Allowing a package is durable and additive",
  "After any sequence of allow commands the configuration lists exactly the packages allowed so far, in order, and later builds permit exactly those; other settings in the file keep their values. No other command changes the list, and a configuration that cannot be read is never overwritten.",
  ["histories", "fault_sequences"], "every sequence of commands and configuration states",
  "The command has no test.",
  ["cmd/allow.go", "cmd/root.go", "cmd/build.go"],
  [("append", "cmd/allow.go"), ("read", "cmd/root.go initConfig"), ("use", "cmd/build.go")],
  ["configuration file", "result of later builds"],
  [("allow list", "packages allowed so far", "configuration file")])

p("C23", "Converting to YAML text and back preserves data",
  "Converting a value to YAML text and parsing that text yields a list holding just an equal value, for all data: every string (whatever its characters, and however number-like), number, boolean, null, list and map. Parsing a text of several YAML documents yields one item per document, in order, and text that is not YAML is an error.",
  ["inputs"], "every data value and every YAML text",
  "One fixture converts one small map.",
  ["lib/yaml.go", "engine/render.go", "core/parse.go"],
  [("to text", "lib/yaml.go opMarshal"), ("from text", "lib/yaml.go opUnmarshal"), ("decode", "core/parse.go ParseAny")])

p("C24", "String operators compute the documented function",
  "Concatenation, formatting, joining, splitting, replacing (with and without a count), searching, changing case, trimming, escaping and hashing give the documented result for every text, including empty text and separators. Splitting and joining with the same separator are inverse, and arguments that are not text are errors.",
  ["inputs"], "every text, separator and count",
  "Fixtures hold one example per operator.",
  ["lib/strings.go"], [("operators", "lib/strings.go")])

p("C25", "A schema fetched by address is cached faithfully",
  "A schema named by address is fetched at most once: after a successful fetch every later use, in this or another process, is served from the cache and behaves as the fetched schema does. A failed fetch (unreachable, error status, invalid content) is an error, caches nothing and does not prevent a later successful fetch; different addresses never share an entry.",
  ["histories", "fault_sequences"], "every sequence of builds, server responses and failures",
  "No test fetches a schema.",
  ["core/schema.go"], [("fetch and cache", "core/schema.go LoadSchemaFromURL")],
  ["requests seen by the server", "result of builds"],
  [("cache", "schemas fetched so far", "user cache directory")])

p("C26", "The output is the non-empty documents in order",
  "The output has exactly one document per source document that yields data, in source order: documents that yield null are left out, and those that yield a list of documents (included files, or a list marked as top level) contribute each of its items in its place. This holds through any nesting of includes and for documents mapped or filtered; a list that is not marked as top level is one document.",
  ["programs"], "every sequence of documents and nesting of includes",
  "Fixtures have at most a few documents of one kind.",
  ["engine/engine.go", "engine/apply.go", "lib/lists.go", "engine/render.go"],
  [("collect", "engine/engine.go Run"), ("splice", "engine/apply.go opInclude; lib/lists.go opAsToplevel"), ("render", "engine/render.go Render")])

p("C27", "Sources can live at web addresses",
  "A program, include or import named by a web address is evaluated exactly as the same file on disk would be: relative paths written in it resolve against its own address, absolute addresses may be used from anywhere, and the path of the address decides the type of the file. An address that cannot be fetched completely (unreachable, error status, answer cut short) is an error, never treated as content.",
  ["inputs", "configurations", "fault_sequences"], "every graph of files on disk and on servers, and every failure of a server",
  "No test fetches a source.",
  ["core/util.go", "core/parse.go", "engine/apply.go"],
  [("resolution", "core/util.go CallEngineByPath"), ("fetch", "core/util.go fetchRemote"), ("file types", "core/util.go CallEngineByPath; core/parse.go")],
  ["result of evaluating a file", "requests seen by the server"])

p("C28", "Source comments and errors name where things are written",
  "With the source map enabled, every scalar of the output that is written somewhere in a source and only moved about (through anchors, calls, branches, list and map operators, includes and imports) carries a comment naming the file, line and column where it is written (a scalar that is a whole document may name where its document begins); the comments change nothing else in the output. An error about a name that has no value, an operator there is not, or text that does not fit its tag reports the file, line and column where that name, operator or text is written, whichever file and function it was reached through.",
  ["programs"], "every program, layout and graph of files; computed values and collections are not part of it",
  "No test enables the source map or looks at the text of an error.",
  ["core/types.go", "engine/render.go", "core/error.go", "engine/parse.go", "engine/eval.go"],
  [("place of a node", "core/types.go Attribute Sourcemap"), ("comment", "engine/render.go getLineComment"), ("report", "core/error.go"), ("positions", "engine/parse.go Parse")],
  ["comments of the output", "text of the reported error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for e in P: assert len(e["title"]) <= 80, e["id"]
open(out, "w").write("".join(json.dumps(e) + "\n" for e in P))
