import json, glob
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
K=json.load(open('/verif/known_findings.json'))
out=[]
w=out.append
w("""# Design

MyCapytain is a library: parsing and printing of identifiers, citation schemes and inventories, an RDF-backed metadata
graph, XML text slicing, folder loading, and clients of two web APIs. Its guarantees are mostly about *data* (what is
listed, cut out, exported, asked and remembered) for every input, and about *histories* (edits, merges, deletions,
walks, failing requests). Both are stated here as one family of TLA+ specifications, and the code is bound to them by
traces: everything the real code answers is recorded and TLC decides whether the specification allows it.

## Language

TLA+ with TLC (not Quint). The states of this system are trees, strings, sequences and graphs; the traces are large and
data-heavy (20 000 to 150 000 events a check). TLC evaluates such values directly, reads the traces with
`ndJsonDeserialize` (CommunityModules) and writes the scenarios with `ToJson`. `quint run` and Apalache would need every
record typed and every recursive operator bounded, and cannot be fed traces of that size. Strings are handled as
sequences of characters (`Str.tla`: `Len`, `SubSeq`, `\\o` on strings), so that printing and parsing are *specified*, not
taken from the code.

## Structure

- `spec/X.tla`: the specification of a part (state, transitions, what each question must answer). No code detail.
- `spec/MCX.tla` + `.cfg` (`…Big.cfg` in the thorough tier): a state machine over X for small constants, with the design
  invariants; TLC explores it exhaustively and every initial state or history it reaches is printed (`SCN {json}`).
- `spec/TraceX.tla` + `Trace.cfg`: one behaviour per recorded scenario; `Verdict(sc, st, e)` is the sequence of clauses
  event `e` breaks in abstract state `st`; `Step` is the successor state.
- `harness/cNN_*.py`: a driver: scenarios (those of TLC and larger seeded random ones), and their execution on the code
  of /repo, one event per public call with its inputs and everything observable after it. Drivers contain no oracle: they
  generate inputs, call, and write down.
- `harness/fw.py`, `harness/run.py`: TLC runs, parallel execution (8 processes, a time limit per scenario), validation,
  evidence, findings, replays.

A check (`bin/check ID [--tier quick|thorough] [--replay FILE]`):
1. DESIGN: TLC on MCX (invariants; scenarios out).
2. EXECUTE: on /repo's working tree (imported directly: pure Python, nothing to build; byte code goes to a scratch
   folder). Networks are in-process stand-ins (`requests_mock` adapters) which record each request; folders are written in
   a scratch directory which is removed.
3. VALIDATE: TLC on TraceX. A clause which fails prints MISMATCH (scenario, position, clause, expected), which becomes
   `VIOLATION property=… replay=evidence/replay/…json`. A run counts only if TLC visited exactly the number of states the
   traces have; a scenario the driver cannot observe (time limit, an exception where only observation happens), an
   observation of a shape the specification cannot be evaluated on, and a process killed by the code are violations too.
   `REQUIRED_OPS` guard against vacuous runs (exit 3).

Exceptions derived from BaseException only are recorded apart (`k = "b"`): "raises an error" is not satisfied by what
`except Exception` lets through. Non-ASCII characters are written `~hex~` in traces on both sides (injective), because
TLC's string operators count bytes.

The reading of a property is the specification's, so a change of *how* the code is written (helpers, loops, order of
statements, private names) cannot alarm: only public calls are made and only what they return, send or leave behind is
recorded.

## How strong is the binding

`bin/corrupt ID` executes a sample of the scenarios, alters one leaf of each recorded trace (a text, number or boolean
changed; an element dropped, doubled or exchanged) and validates the altered traces. What remains accepted is either an
input whose change makes no difference to the answer, or a field listed below as unconstrained; every other survivor led
to a stronger clause. The rates are in the table "Corrupted traces" at the end.

`/verif/seeded` holds planted bugs (table at the end).
""")
w("## Specification map\n")
w("""| part of the system | specification | design machine | trace spec | properties |
|---|---|---|---|---|
| CTS URNs (`common/reference/_capitains_cts.py`) | CtsUrn, CtsRef, Str | MCUrn | TraceUrn | C01 |
| passage references, reference sets | CtsRef | MCRef | TraceRef | C02 |
| citation patterns and schemes, refsDecl, CTS citations | CtsCitation | MCCitation | TraceCitation | C03 C04 |
| local texts (`resources/texts/local`) | Tree, CtsText, TextVerdicts | MCText | TraceText | C05–C08 |
| collections (`resources/prototypes`, `resources/collections`) | Coll | MCColl, MCMerge, MCDispatch | TraceColl | C09 C11 C14 |
| metadata graph (`common/metadata.py`, constants) | Meta | MCMeta | TraceMeta | C10 |
| CTS inventories (`resources/collections/cts.py`, `capitains.py`) | Inventory (on Meta, CtsCitation) | MCInv | TraceInv | C12 |
| folders and local resolver (`resolvers/cts/local.py`) | Repo (and CtsText) | MCRepo | TraceRepo | C13 C15 |
| CTS endpoint clients (`retrievers/cts5.py`, `resolvers/cts/api.py`, `resources/texts/remote`) | CtsApi (on CtsText) | MCCall, MCApi | TraceApi | C16 C17 |
| DTS routes, pages, navigation (`retrievers/dts`, `resolvers/dts`) | Dts | MCDts | TraceDts | C18 C20 |
| DTS collections (`resources/collections/dts`) | DtsColl | MCDtsColl | TraceDtsColl | C19 |
| DTS citations and reference sets | DtsCite | MCDtsCite | TraceDtsCite | C21 |
| DTS/RDF exports of collections | CollExport (on Meta) | MCCollExport | TraceCollExport | C22 |
| DTS documents (`resources/texts/remote/dts`?) | CtsApi, Dts | MCApi, MCDts | TraceDts | C23 |
| the export mechanism (`common/base.py`) of every class | Exports | MCExports | TraceExports | C24 |
""".replace(" (`resources/texts/remote/dts`?)", ""))
DES={
"C01":"""State: the components of one URN, each optional. Transitions: set one component, read everything. MCUrn explores every
URN over small alphabets with every edit history (parse ∘ print = identity, edits touch one component, sub-parts print as
prefixes). Each history is replayed on `URN` objects with a full reading (components, `upTo`, `str`, `len`, hash,
equality, ordering, truth) after every edit; random histories use larger component texts, ranges, subreferences and
malformed texts. Tests fix a handful of URNs and almost no sequences of edits: stale caches and cross-component edits
need a history.""",
"C02":"""References are pairs of singles (parts, subreference). MCRef: every reference over a small alphabet, walking up to the
top (parent shortens both ends, ends at nothing, round trip). Every such reference and 7 000 random mixes are read
through every constructor form, with copies, deep copies, pickles, sets (order, membership, positions by text or object).""",
"C03":"""A pattern is a sequence of steps with predicates, some of them placeholders; its numbered, anonymous, filled and bare
forms are printings of one value (CtsCitation). MCCitation: all small patterns and rescoping histories (scope∘xpath =
pattern in each form; filling preserves the rest). Random patterns have constant predicates with digits, quotes, hyphens,
unions and up to twelve placeholders; histories edit scope, xpath and pattern and rebuild from each form.""",
"C04":"""A scheme is a chain of levels. Every construction (nested constructor, child setters top down and bottom up, TEI, CTS
inventory) of schemes of 1–4 levels; the whole reading of each object of the chain from each starting level is one event
(`chain`); `roundtrip` exports and reads back in both formats twice. Names contain XML-special characters.
One known finding (double quotes in TEI).""",
"C05":"""A document is an abstract tree (Tree) with a scheme; the units of each level are *computed by the specification* by
walking the steps of the scheme (`Table`), not by XPath. MCText enumerates every small shape. Drivers write the tree as
XML (with decoys: elements without the citing attribute, of another type, nested citing elements, comments, mixed
content, namespaces, whitespace), read it in four ways (string, file, tree, objectified) and ask for references with
every combination of level, reference (string or object), text or passage object.""",
"C06":"""The passage of a reference or range is `Cut(T, a, b)`: the items from the start of the first unit to the end of the last
one, inside the bare ancestors. The recorded tree of the passage (element by element, attributes, texts, tails, comments,
processing instructions) must be that. `source` events record the document after the questions: it must be unchanged.""",
"C07":"""A reader's position is a reference; MCText explores every walk of K moves over every small shape (neighbours are inverse,
windows of ranges are truncated at the ends, first/last/children agree). Walks are replayed on passages of
`CapitainsCtsText` in both modes (`simple` or not), with content of what is reached and the navigation identifiers.""",
"C08":"""Exports are functions of the tree: the specification says the text order, exclusions, the nested dictionary; XML is
compared as trees. Same documents as C05–C07, each in each reading, whole text and passages, several exclusion lists.""",
"C09":"""A heap of objects with parent and children (Coll). MCColl: every history of creations, attachments and deletions over few
identifiers (parents and children describe one tree; lookups; deletion). After *every* operation the whole heap is
recorded: for each object its parents, members, children, descendants, readable descendants, size, length, every lookup
and containment, labels.""",
"C10":"""One graph of statements (Meta). MCMeta: every history of K additions, replacements, removals, unlinkings over two nodes.
The drivers apply histories through metadata objects and collections sharing nodes and dump the whole graph after every
operation; readings (`get`, `single`, labels, CTS properties, text properties) and exports (parsed back by independent
readers: `json`, rdflib, an XML walk) must be the selection the specification computes. One known finding (title case).""",
"C11":"""MCMerge: every pair of small textgroups and every sequence of merges and updates; union, newest wins, addition untouched
(copies). Whole heap recorded after each merge, including the objects of the added side; wrong classes and URNs.""",
"C12":"""Inventories are records, documents are element trees; `Inventory` has both directions. MCInv: every small inventory in
both formats, whole and per object (reading what is written is the identity; writing again is stable). Drivers build
objects (or documents) and record what is read, the statements and the written XML; documents are given as text, file,
bytes, element, objectified, with other prefixes and attribute orders.""",
"C13":"""MCRepo reads folders file by file in *every order the file system may give*: the result is order independent and is what
`Loaded` says (380 000 states). Drivers write folders in a scratch directory with faults (missing, cut, empty, replaced
by a directory, no scheme), exchange the order of `glob`, set dispatching rules and strictness, and record the inventory.""",
"C14":"""MCDispatch: every list of rules with every kind of answer. Replayed with real dispatchers and inventories; the whole heap
is recorded after each dispatch.""",
"C15":"""The questions of the resolver are functions of the folders (`Repo`, `CtsText`). The repositories of MCRepoBig and random
ones; whole sequences of questions, repeated, with unknown identifiers and unreadable texts in between.""",
"C16":"""MCCall: every method with every combination of arguments; two calls of different meaning have different requests. The
drivers make each call on a recording transport and compare every parameter, address and number of requests; charsets of
replies, faults (HTTP errors — with and without body —, refused connections, timeouts).""",
"C17":"""The endpoint is specified (`Serve`): what it answers to each request for one text. The client remembers some answers.
MCApi: every walk with any request failing (a failure teaches nothing; what is remembered is true). The recorded reply of
the simulated endpoint is itself checked against the specification (`serve`), then all that is read from the objects.""",
"C18":"""A paginated navigation reply. MCDts: pages fetched one by one with any failing. Drivers write the pages in several
JSON-LD forms (contexts, prefixes, lists, nested or flattened, single values), faults at any page, then ask again.""",
"C19":"""The endpoint's graph of collections, pages per side, what the client knows of each object; MCDtsColl: every walk through
small graphs with failing requests (1 436 states quick, 119 376 thorough). `info`, `kids`, `parents`, `desc`, `look`,
`retrieve`, static pages; the exact requests made by each question are part of its event.""",
"C20":"""URI reference resolution (RFC 3986 5.2) is specified in Dts; routes × bases × questions. Each question is compared as the
set of its parameters and its base, the number of reads of the entry point, faults, pagination headers.""",
"C21":"""Forests of citations grown, cut and assigned; MCDtsCite enumerates every forest of few nodes and every pair of small sets
of references (equality is an equivalence, hash respects it).""",
"C22":"""A DTS record is a value computed from the statements, the tree and the types; MCCollExport: histories and exports between
them (exporting changes nothing; read∘export is the identity on records). Graph dumped after every operation.""",
"C23":"""Documents served with Link headers for one text, navigation and collection routes; walks with failing requests.""",
"C24":"""Class hierarchies with announced formats, defaults and exporters: MCExports enumerates all of up to three classes under
the base. Drivers create those classes for real, and ask every announced format of every kind of object the library has,
in any order, with the graph and the documents compared between questions.""",
}
EXTRA={}
w("## Properties\n")
for p in P:
    i=p['id']
    e=json.load(open('/verif/evidence/%s.json'%i)); c=e['coverage']
    w("### %s — %s\n"%(i,p['title']))
    w(DES[i]+"\n")
    w("- Quick tier: %s; %d traces, %d events validated; %.0f s. Operations: %s."%(
      ", ".join("%s %d states"%(d['cfg'][:-4],d['distinct']) for d in c['design_runs']), c['traces_validated_against_impl'], c['events_validated'], e['wall_s'],
      ", ".join(sorted(c['events_by_operation']))))
    w("- Unconstrained or assumed: "+"; ".join(a.strip().replace(' ,',',') for a in e['assumptions'])+".")
    w("")
w("""All 24 listed properties are claimed; `not_applicable` is empty. Assurance is bounded by the scenarios explored: the design
is exhaustive for the small constants, the code is exercised on every scenario of the design (or a seeded sample of it in
the quick tier) and on random larger ones.
""")
w(open('/verif/meta/design_tail.md').read())
w("## Defects found and repaired\n")
w("One `fix:` commit each in /repo; recorded in `known_findings.json` (a `fixed` entry suppresses nothing).\n")
for k in K:
    if k['status']=='fixed':
        t=k['what'].split(' ',3)[-1]
        w("- %s %s: %s"%(k['property'],k['commit'],t))
w("\n## Known findings (not repaired)\n")
for k in K:
    if k['status']=='known': w("- %s `%s`: %s"%(k['property'],k['key'],k['what']))
w("\n## Planted bugs\n")
w("Each in `/verif/seeded/<id>` with patch, demonstration and what it needs; all are caught by the quick check of their property.\n")
w("| id | property | needs |\n|---|---|---|")
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); w("| %s | %s | %s |"%(f.split('/')[-2],m['property'],m['needs'].replace('|','/')))
w("")
w("## Corrupted traces\n")
w("Altered traces rejected by the trace specifications (last survey of each; the accepted ones were reviewed: names of ways to call "
  "which are only recorded, inputs of an operation whose answer does not depend on them, the ancestors of an exception's class, "
  "doubled elements of what is a set).\n")
R=json.load(open('/verif/meta/corrupt.json'))
w("| property | rejected | of |\n|---|---|---|")
for k in sorted(R): w("| %s | %d | %d |"%(k,R[k][0],R[k][1]))
w("")
open('/verif/DESIGN.md','w').write("\n".join(out))
