#!/usr/bin/env python3
"""Single source for properties.jsonl (kept as code so that wording and ids stay in one place)."""
import json, os
A="crates/analyzer/src/"; I="crates/ir/src/"; L="crates/lsp-server/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Analysing any text at any position never crashes or hangs",
 "For every document text (valid, half-typed, malformed or adversarial), every in-bounds offset or range and every supported ink! version, each analysis feature (diagnostics, completions, code actions, hover, inlay hints, signature help, migration, extraction) returns normally: it never panics, never exhausts the stack and never loops forever.",
 ["inputs","programs","configurations"],"all UTF-8 texts up to a few KB x all in-bounds offsets/ranges x {v4,v5} x all eight features",
 "The tests call each feature on a few dozen hand written, mostly well-formed snippets; an editor sends every intermediate keystroke.",
 [A+"analysis.rs",A+"analysis/*",A+"resolution.rs",I+"*"],
 [("lossless error-tolerant parse; every feature walks an arbitrary tree",A+"analysis.rs"),("path/alias resolution recursion",A+"resolution.rs")],
 ["return of every Analysis method"])
p("C02","Every range and edit returned is in bounds, and edits never overlap",
 "Every range or position in any analysis result lies inside the analysed document on character boundaries with start not after end, and the text edits of one action, quick fix, migration or extraction never overlap each other, so that they can be applied to the document as one unit.",
 ["inputs","programs","configurations"],"all documents x positions x versions, for every result type that carries ranges or edits",
 "Tests compare the edits of selected fixtures; they never check the invariant over arbitrary documents, nor non-ASCII text.",
 [A+"analysis/text_edit.rs",A+"analysis/text_edit/common.rs",A+"analysis/actions/*",A+"analysis/migrate/*",A+"analysis/diagnostics/*"],
 [("edit formatting and merging",A+"analysis/text_edit.rs")],["Diagnostic.range/quickfixes","Action.edits","Completion.edit","Hover.range","InlayHint","SignatureHelp.range","migrate()","extract()"])
p("C03","Applying a quick fix resolves the problem it is attached to",
 "Applying any quick fix that a diagnostic offers for a contract with a rule violation yields a document that still parses, in which that problem is no longer reported for the fixed code, and leaves all code outside the fix's own edits unchanged.",
 ["inputs","programs"],"all generated contracts with one injected rule violation x all quick fixes offered x {v4,v5}",
 "Tests pin the text of the edits of a few samples; none applies a fix and re-analyses the result.",
 [A+"analysis/diagnostics/*",A+"analysis/utils.rs"],[("quickfix construction next to each rule",A+"analysis/diagnostics/common.rs")],["diagnostics() before/after applying a quick fix"])
p("C04","Valid ink! code is never flagged",
 "A file that satisfies every ink! rule for the configured version (contracts, events, trait definitions, chain extensions, storage items, environments, unit and e2e tests, however attributes are split, ordered or spaced) produces no diagnostics at all.",
 ["inputs","programs","configurations"],"all valid ink! files expressible by the generator's model x {v4,v5}",
 "Tests check a fixed set of example contracts; the product of entity kinds, argument combinations, layouts and versions is not sampled.",
 [A+"analysis/diagnostics/*",I+"*"],[("rule checks with their exemptions",A+"analysis/diagnostics/common.rs")],["diagnostics()"])
p("C05","Every violation of an ink! rule is reported at the culprit",
 "If a file breaks one of the ink! rules (missing, duplicate, conflicting, unknown or misplaced attributes and arguments, invalid argument values, forbidden modifiers or generics, wrong receivers or return types, missing or duplicate storage, constructors, messages or error codes, overlapping selectors, wildcard rules, malformed trait definitions, chain extensions, environments and tests), diagnostics for the configured version contain a report whose range covers or lies in the offending code, whatever else is in the file.",
 ["inputs","programs","configurations"],"all valid generated files x all single rule violations injected at every applicable place x {v4,v5}",
 "Each rule has one or two tests on a minimal snippet; its interplay with siblings, positions, argument order, versions and other entities is untested.",
 [A+"analysis/diagnostics/*"],[("per-entity rule checks",A+"analysis/diagnostics/contract.rs")],["diagnostics()"])
p("C06","Selectors are computed as ink! specifies and overlaps are reported",
 "The selector of every constructor and message of a contract equals the ink! specification (explicit value, or the first four bytes of BLAKE2b-256 over the specified identifier path including namespace and trait), and an overlap error is reported for exactly those constructors, and exactly those messages, whose selector was already used by an earlier one of the same kind.",
 ["inputs","programs"],"all identifier/namespace/trait-path/explicit-selector combinations in generated contracts",
 "Tests compare five hard coded selectors and two overlap snippets.",
 [I+"selector.rs",I+"traits/callable.rs",A+"analysis/diagnostics/contract.rs"],[("Selector::compose and composed_selector",I+"selector.rs"),("ensure_no_overlapping_selectors",A+"analysis/diagnostics/contract.rs")],["composed_selector()","diagnostics()"])
p("C07","Editor positions translate to document offsets and back exactly",
 "For every document and every negotiated position encoding, translating an offset to an editor position and back is the identity on character boundaries and agrees with the protocol's definition of that encoding, and every position a client can send (also past the end of a line or document) translates to a valid in-document character boundary or is rejected, without crashing.",
 ["inputs","configurations"],"all texts (ASCII, BMP, astral, CRLF, empty lines) x all offsets/positions x {UTF-8, UTF-16, UTF-32}",
 "Tests use one ASCII document.",
 [L+"translator.rs",L+"translator/*"],[("PositionTranslationContext conversions",L+"translator")],["from_lsp::offset/text_range","to_lsp::position/range"])
p("C08","The server always answers from the latest document contents",
 "After any history of open, change, close and re-open notifications on any set of documents, every diagnostic publication and every response of the language server equals what a fresh analysis of that document's latest contents (with that document's project version) gives, with ranges in the negotiated encoding, and no document's edits affect another document's results.",
 ["histories","configurations"],"all interleavings of document notifications and requests over several documents, versions and encodings",
 "The e2e tests drive one document with one request each.",
 [L+"dispatch.rs",L+"dispatch/*",L+"memory.rs",L+"translator/*"],[("memory of documents and change tracking",L+"memory.rs"),("dispatch loop",L+"dispatch.rs")],["publishDiagnostics","responses"],
 [dict(name="memory",meaning="latest text and version of each open document",where=L+"memory.rs")])
p("C09","Every request gets exactly one matching response and the server survives",
 "For every sequence of client messages, each request (known, unknown or with malformed parameters, on open, closed or unknown documents) gets exactly one response with its own id, an error with the right JSON-RPC code where it cannot be served, and the server keeps serving until shutdown/exit is requested.",
 ["histories","fault_sequences"],"all message sequences incl. malformed parameters, unknown methods, stale positions and stray responses",
 "Tests send a handful of well-formed requests.",
 [L+"dispatch.rs",L+"dispatch/routers/*"],[("request router",L+"dispatch/routers/request.rs")],["messages sent to the client"])
p("C10","Completions offer exactly the ink! attributes that are valid in context",
 "At a cursor inside a partially typed ink! attribute path or argument list, the completions offered are exactly the attribute macros or arguments that ink! (for the configured version) allows for the annotated item kind, its context and the arguments already present, filtered by the typed prefix; accepting one replaces just the typed token and leaves the surrounding text intact.",
 ["inputs","programs","configurations"],"all item kinds x parent contexts x existing arguments x typed prefixes x {v4,v5}",
 "Tests sample a few attribute prefixes on bare items.",
 [A+"analysis/completions.rs",A+"analysis/utils.rs"],[("suggestion tables and context filters",A+"analysis/utils.rs")],["completions()"])
p("C11","Code actions offer exactly the ink! edits that are valid in context",
 "With the cursor on an attribute or item declaration, the add-attribute and add-argument actions offered are exactly those that ink! allows for that item, context, existing attributes and version, and applying any offered action keeps the file parseable and puts the promised attribute, argument or entity on the targeted item while leaving all other text unchanged.",
 ["inputs","programs","configurations"],"all item kinds x contexts x existing attributes x cursor positions x {v4,v5}",
 "Tests pin a few actions on minimal snippets.",
 [A+"analysis/actions.rs",A+"analysis/actions/*",A+"analysis/utils.rs"],[("action computation and filters",A+"analysis/actions/item.rs")],["actions()"])
p("C12","Migrating a valid v4 contract yields a valid v5 contract",
 "Migrating any valid ink! 4 file gives a file that parses, has no ink! 5 errors or deprecations for the migrated constructs, keeps the same contract interface (constructors, messages, selectors, events, extension functions), leaves text outside the migrated constructs untouched, and is independent of run or ordering.",
 ["inputs","programs"],"all valid generated v4 files (events, chain extensions, codec derives, host calls and e2e tests in every expression position)",
 "Tests migrate two sample contracts.",
 [A+"analysis/migrate.rs",A+"analysis/migrate/*"],[("attribute, derive, host-call and e2e rewrites",A+"analysis/migrate.rs")],["migrate()"])
p("C13","Project migration updates the manifest's ink! dependencies and nothing else",
 "Migrating an ink! 4 project through the language server edits the open document exactly as the migration of its text does and rewrites the project's manifest so that the `ink` dependency and the `ink_e2e` dev-dependency require version 5 (keeping their other keys; `ink` without default features unless it says otherwise), the `scale` and `scale-info` dependencies and every feature entry that refers to them are gone, and all other entries, comments and values stay as they were; the result is valid TOML.",
 ["inputs","histories"],"all manifests (inline tables, dotted tables, features, comments, renamed packages) of v4 projects",
 "One end-to-end test migrates one fixture manifest.",
 [L+"dispatch/handlers/command.rs",L+"utils.rs"],[("manifest rewriting",L+"dispatch/handlers/command.rs")],["workspace/applyEdit request"])
p("C14","Extracting an event moves it without changing it",
 "Extracting any event yields a standalone package source with the same event (name, docs, non-ink! attributes, generics, fields, topics, anonymity and signature), and the accompanying edits remove exactly that event from the document and leave every other part of it unchanged.",
 ["inputs","programs"],"all events (both syntaxes) in generated contracts, at any cursor position inside them",
 "Tests extract two sample events.",
 [A+"analysis/extract.rs",L+"dispatch/handlers/request.rs"],[("extraction",A+"analysis/extract.rs")],["extract()"])
p("C15","New projects are valid for every valid name, invalid names are rejected",
 "Project creation accepts exactly the documented package names and, for every accepted name and version, produces a manifest and contract source consistent with the name that parse, declare the requested ink! version, and have no diagnostics; rejected names produce the documented error and no files.",
 ["inputs","configurations"],"all strings as names x {v4,v5}",
 "Tests use a couple of names.",
 [A+"codegen.rs",A+"codegen/snippets.rs",L+"dispatch/handlers/request.rs"],[("name validation and templates",A+"codegen.rs")],["new_project()","createProject command"])
p("C16","Hover shows the documentation of exactly the ink! element under the cursor",
 "Hovering inside an ink! attribute shows the documentation of the argument under the cursor (a nested argument counts as the outermost one), and elsewhere in the attribute that of its macro or primary argument: the text is that element's own documentation for the configured version and the highlighted range is exactly its name. Nothing is shown outside of ink! attributes, nor for a name that does not exist in the configured version.",
 ["inputs","programs","configurations"],"all attributes and arguments in generated files x all offsets x {v4,v5}","Tests hover over a dozen positions.",
 [A+"analysis/hover.rs",A+"analysis/hover/*"],[("hover lookup",A+"analysis/hover.rs")],["hover()"])
p("C17","Inlay hints label every ink! argument value and nothing else",
 "Inlay hints for a document (or range) are exactly one hint after the name of each known ink! argument that takes a value (inside the range), whose label is that argument's value type for the configured version.",
 ["inputs","programs","configurations"],"all attribute/argument layouts x ranges x {v4,v5}","Tests check single attributes.",
 [A+"analysis/inlay_hints.rs",I+"attrs/args.rs"],[("hint collection",A+"analysis/inlay_hints.rs")],["inlay_hints()"])
p("C18","Signature help describes the arguments valid for the attribute",
 "Inside the parentheses of a known ink! attribute, and only there, signature help lists exactly the arguments valid for that attribute (or sibling argument) in the configured version, each parameter's span picks out its own name and type in the label, and the active parameter is the argument at the cursor.",
 ["inputs","programs","configurations"],"all attributes x argument lists x cursor offsets x {v4,v5}","Tests check a few prefixes.",
 [A+"analysis/signature_help.rs"],[("signature computation",A+"analysis/signature_help.rs")],["signature_help()"])
p("C19","Layout, comments and repetition do not change the analysis",
 "Adding or removing whitespace and comments between the tokens of a file changes analysis results (diagnostics with their quick fixes, code actions, hovers, hints, signature help and the migration) only by the corresponding shift of ranges and edits, and analysing the same text again gives identical results in identical order.",
 ["inputs","programs"],"all generated files (valid or with violations) x trivia-only transformations","Metamorphic relation over all inputs; tests fix the layout.",
 [A+"analysis/*",I+"*"],[("trivia aware tree walking",I+"tree/*")],["diagnostics()","inlay_hints()","hover()"])
p("C20","The ink! version used for a document is the one its project declares",
 "For every project layout and every dependency declaration of ink! in the nearest manifest (string, table, workspace or pre-release requirement), analysis of a document uses ink! 5 rules exactly when the declared requirement is for major version 5, and ink! 4 rules otherwise.",
 ["inputs","configurations"],"all manifest shapes, version requirement strings and directory depths","Tests check a couple of manifests.",
 [L+"dispatch.rs",L+"utils.rs"],[("version lookup per document",L+"dispatch.rs")],["publishDiagnostics after didOpen"])
p("C21","The entity tree contains every ink! entity of a file exactly once",
 "Parsing any file yields exactly its ink! entities (contracts, storage, events, impls, constructors, messages, topics, trait definitions and their messages, chain extensions, extension functions, error codes, storage items, tests), each once, under the right parent, with the declared arguments and values.",
 ["inputs","programs"],"all generated files (any nesting, attribute splitting, decoys)","Tests count entities in fixtures.",
 [I+"file.rs",I+"contract.rs",I+"attrs.rs",I+"tree/*"],[("quasi-direct descendant traversal",I+"tree/utils.rs")],["InkFile API"])
p("C22","Capability negotiation fits the client",
 "For every set of client capabilities the server's initialize result advertises a position encoding the client offered (UTF-16 if it offered none) and only features it serves, and all later positions and edit forms (snippets, edit-carrying commands) respect what the client declared.",
 ["configurations"],"all client capability combinations","Tests cover a few fixed capability sets.",
 [L+"initialize.rs",L+"utils.rs",L+"translator/to_lsp.rs"],[("server capabilities",L+"initialize.rs")],["InitializeResult","responses"])
p("C23","A reference means the item it names, however it is spelled",
 "Whether an error code, codec or status code trait, extension parameter type, environment or implemented trait is accepted, reported or linked to its definition depends only on the item that the reference names: full and relative paths, self and super, imports, aliases, groups, globs, module aliases, type aliases and re-exports at any depth are equivalent, items that merely share the name are not confused with it, and fixes suggest the item's actual path.",
 ["inputs","programs"],"all spellings of references x module layouts x same-named other items x {v4,v5}","Tests resolve a few paths, mostly at one level of modules.",
 [A+"resolution.rs",I+"tree/ast_ext.rs",A+"analysis/diagnostics/environment.rs",A+"analysis/diagnostics/chain_extension/error_code.rs"],[("path resolution",I+"tree/ast_ext.rs"),("external item resolution",A+"resolution.rs")],["diagnostics()","InkImpl::trait_definition()","quick fixes"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
