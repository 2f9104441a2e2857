# -*- coding: utf-8 -*-
NOT_APPLICABLE = []
P = []
NOTE = ("Exhaustive TLC exploration of the specification for small constants; every recorded trace of the real code "
        "(specification-generated and seeded random scenarios) is accepted or rejected by TLC. "
        "Assurance is bounded by the explored scenarios. ")
P.append(dict(
 id="C01", title="CTS URNs: components, printing, sub-parts and edits agree",
 statement="Parsing a CTS URN exposes exactly the components its text denotes, printing gives the same text back (and dropping parts of it gives exactly the shorter URN), and equality, hashing and ordering follow the components. Setting one component changes that component and only that one (components below an absent component are refused or absent), whatever sequence of edits precedes it. Requests for a shorter form that the URN does not have, and malformed URNs, are refused with an error.",
 over=["inputs", "histories"], q="every URN text (1 to 5 members, with/without passage, ranges, subreferences, non-ASCII), every sequence of component assignments, and every requested sub-part",
 why="The tests check some twenty literal URNs, one assignment each; they never combine edits nor relate printed prefixes, equality and hash over all shapes.",
 files=["MyCapytain/common/reference/_capitains_cts.py"],
 mech=[("URN parsing and prefix printing", "MyCapytain/common/reference/_capitains_cts.py:URN"), ("component setters", "MyCapytain/common/reference/_capitains_cts.py:URN setters")],
 state=[("parsed components", "the components of the URN", "MyCapytain/common/reference/_capitains_cts.py:URN")],
 obs=["str(URN)", "URN.namespace/textgroup/work/version/reference", "URN.upTo", "URN ==, <, >, hash"],
 note=NOTE + "URN components are free of ':' and, for text identifiers, have at most three dots."))
P.append(dict(
 id="C02", title="Passage references: reading, printing, parents, equality and sets",
 statement="A passage reference (single or range, with optional subreferences, of any depth) exposes the start, end, value list, depth, shallowest end, subreference word and counter that its text denotes, prints back to the same text, and is equal (with equal hash) exactly to references with the same text, including copies and pickles. Its parent is the reference one level higher on both ends (a single one when both ends share their parent), or nothing at the top. Reference sets keep order, count, level and citation, and membership and position lookups work alike with texts and reference objects.",
 over=["inputs"], q="every reference text over 1-5 levels, ranges, subreferences, non-ASCII values, and every reference set built from them",
 why="Tests sample a few dozen references; interplay of ranges, subreferences containing dots or brackets, depth and parent is open-ended.",
 files=["MyCapytain/common/reference/_capitains_cts.py", "MyCapytain/common/reference/_base.py"],
 mech=[("reference parsing", "MyCapytain/common/reference/_capitains_cts.py:CtsReference, CtsSinglePassageId"), ("reference sets", "MyCapytain/common/reference/_base.py:BaseReferenceSet")],
 obs=["CtsReference attributes", "CtsReferenceSet membership, index, level, citation"],
 note=NOTE + "At most one '-' between the ends and one '@' per end."))
P.append(dict(
 id="C03", title="Citation patterns: numbered, scope/xpath and filled forms agree",
 statement="A citation pattern and its scope/xpath pair always denote the same path: the scope followed by the xpath is the pattern with its numbered placeholders replaced by anonymous ones, placeholders are numbered left to right, and editing the scope, the xpath or the pattern updates the others accordingly while every other character (constant predicates, quotes, hyphens) is kept. Filling a pattern with the values of a reference substitutes them in order in the placeholders only, and filling with nothing yields the pattern selecting any value. The attribute carrying the reference is the one of the last placeholder.",
 over=["inputs", "histories"], q="every pattern made of steps with constant and placeholder predicates, and every sequence of edits and fills on it",
 why="Tests use two or three literal patterns with plain alphanumeric names; constants with digits, hyphens or several predicates, and sequences of edits, are never reached.",
 files=["MyCapytain/common/reference/_capitains_cts.py", "MyCapytain/common/constants.py"],
 mech=[("pattern splitting and recombination", "MyCapytain/common/reference/_capitains_cts.py:Citation.refsDecl/scope/xpath"), ("fill", "MyCapytain/common/reference/_capitains_cts.py:Citation.fill")],
 state=[("refsDecl / scope / xpath", "three views of one path", "MyCapytain/common/reference/_capitains_cts.py:Citation")],
 obs=["Citation.refsDecl", "Citation.scope", "Citation.xpath", "Citation.fill()", "Citation.attribute"],
 note=NOTE + "Patterns are sequences of '/' or '//' steps with bracketed predicates, at least one placeholder in the last step."))
P.append(dict(
 id="C04", title="Citation schemes: levels, matching, and TEI/CTS round trips",
 statement="In a citation scheme, however it was built, iteration, size, depth, root, children, indexing and is-root/is-leaf tests all describe the same chain of levels, and matching a reference of depth d from any level gives level d (or is refused when the scheme is shallower). Exporting a scheme to TEI or to a CTS inventory and parsing it back yields the same levels with the same names and patterns, and exporting again gives the same text.",
 over=["inputs", "histories"], q="every chain of 1-5 levels with any names and patterns, each way of building it, and every sequence of export/parse steps",
 why="Tests round-trip two fixed schemes with plain names; other names, depths and construction orders are untested.",
 files=["MyCapytain/common/reference/_base.py", "MyCapytain/common/reference/_capitains_cts.py", "MyCapytain/resources/collections/cts.py", "MyCapytain/common/utils/xml.py"],
 mech=[("child/children/root maintenance", "MyCapytain/common/reference/_base.py:BaseCitation"), ("export", "MyCapytain/common/reference/_capitains_cts.py:Citation.__export__"), ("ingest", "MyCapytain/common/reference/_capitains_cts.py:Citation.ingest; MyCapytain/resources/collections/cts.py:XmlCtsCitation.ingest")],
 obs=["Citation iteration/len/index/match", "Citation.export(TEI|CTS)", "Citation.ingest"],
 note=NOTE + "Level i has i placeholders. Known finding: TEI export of a pattern written with double quotes is not well formed (an existing test asserts that output)."))
TXT = "documents nest at most five levels of cited units, identifiers are unique along each level's path and contain no separator characters; the order of units is the order of the document"
P.append(dict(
 id="C05", title="Local texts: the references listed are exactly the citable units",
 statement="For a CapiTainS TEI text, asking for the references of a level returns exactly the units the citation scheme designates at that level, in document order, each with the identifiers of the units containing it, and the set carries that level and its citation. Asked below a passage or within a range, it returns exactly the units of that level lying inside it (level counted from the passage, at least one level deeper), whichever way the question is put (text or passage object, reference string or object, scheme found in the document or given). Too deep a level and unknown references are refused, and listing never depends on how the document was read.",
 over=["inputs"], q="every TEI document, every citation scheme over it (1-5 levels, with gaps, optional units, uncited elements, comments, mixed content), every level, passage and range",
 why="Tests query a handful of fixture texts at a few levels with literal expected lists; other shapes of text (missing levels, repeated identifiers under different parents, uncited wrappers) are never met.",
 files=["MyCapytain/resources/texts/local/capitains/cts.py", "MyCapytain/resources/texts/base/tei.py", "MyCapytain/common/reference/_capitains_cts.py"],
 mech=[("enumeration of references", "MyCapytain/resources/texts/local/capitains/cts.py:_SharedMethods.getReffs"), ("scheme discovery", "MyCapytain/resources/texts/local/capitains/cts.py:CapitainsCtsText._findCRefPattern; test")],
 state=[("tree and citation scheme", "which elements are units", "MyCapytain/resources/texts/local/capitains/cts.py:CapitainsCtsText")],
 obs=["getReffs(level, subreference)", "getValidReff", "CtsReferenceSet.level/citation", "CapitainsCtsText.reffs"],
 note=NOTE + "Documents: " + TXT + "."))
P.append(dict(
 id="C06", title="Local texts: a passage is exactly the designated part of the document",
 statement="The passage obtained for a reference or a range is exactly the part of the document from the start of the first unit to the end of the last one, in document order, wrapped in the bare ancestors (with their attributes) of its ends; nothing outside is included, nothing inside is lost, altered or reordered, comments and processing instructions included. A simple passage is exactly the subtree of its unit. The passage knows its reference, depth and URN. Unknown references are refused, and no query alters the source text, so repeating a query gives the same answer.",
 over=["inputs", "histories"], q="every document, every reference and every range (same or different depths, equal ends, identical elements repeated), any sequence of queries on one text",
 why="Tests compare a few excerpts of fixtures; ranges whose ends share ancestors at different depths, identical siblings, mixed content, comments and repeated queries are an open space.",
 files=["MyCapytain/resources/texts/local/capitains/cts.py", "MyCapytain/common/utils/xml.py"],
 mech=[("range reconstruction", "MyCapytain/common/utils/xml.py:passageLoop, performXpath, copyNode, normalizeXpath"), ("passage retrieval", "MyCapytain/resources/texts/local/capitains/cts.py:_SharedMethods.getTextualNode, _getSimplePassage")],
 obs=["getTextualNode(reference, simple)", "passage.resource / export", "passage.reference, .depth, .urn", "the source text after queries"],
 note=NOTE + "Text lying directly in an ancestor of both limits and outside any element is left unconstrained. Documents: " + TXT + "."))
P.append(dict(
 id="C07", title="Local texts: next, previous, first, last and children follow the document",
 statement="From any passage, next and previous are the passages of the same depth (and, for a range, of the same number of units, truncated at the ends of the text) immediately after and before it in document order, or none at the ends; children are exactly the units one level deeper, first and last are the first and last of them; siblings and children identifiers agree with the passages obtained by moving. Any sequence of moves ends on the passage that moving through the reference list of the document would reach, and its content is that passage's content.",
 over=["inputs", "histories"], q="every document, starting passage or range, and sequence of moves next/prev/first/last/children",
 why="Tests move once or twice from fixed passages; long walks, ranges near the edges, and units crossing parent boundaries are not covered.",
 files=["MyCapytain/resources/texts/local/capitains/cts.py", "MyCapytain/resources/prototypes/text.py"],
 mech=[("siblings and children", "MyCapytain/resources/texts/local/capitains/cts.py:CapitainsCtsPassage.siblingsId, nextId, prevId, childIds, firstId, lastId"), ("moves", "MyCapytain/resources/prototypes/text.py:InteractiveTextualNode, CtsNode")],
 obs=["passage.nextId/prevId/siblingsId/childIds/firstId/lastId", "passage.next/prev/first/last/children"],
 note=NOTE + "Units without deeper units may raise or give none for first/last. Documents: " + TXT + "."))
P.append(dict(
 id="C08", title="Local texts: every export and every way of reading shows the same text",
 statement="All exports of a text or passage show the same content: the lxml export is its tree; XML strings (TEI, standard XML, string conversion) parse back to that tree; plain text is the concatenation of its text in document order minus the excluded elements, joined as documented; the nested dictionary has exactly one entry per deepest unit, in order, at its identifiers' path, holding that unit's text. The same document read from a string, a file or a parsed tree (objectified or not) gives the same exports.",
 over=["inputs"], q="every document, passage, range, exclusion list and glue, and every way of reading the document",
 why="Tests export a few fixture passages in one format at a time and never cross-check the formats.",
 files=["MyCapytain/resources/texts/base/tei.py", "MyCapytain/common/utils/xml.py", "MyCapytain/common/base.py", "MyCapytain/resources/prototypes/text.py"],
 mech=[("exports", "MyCapytain/resources/texts/base/tei.py:TeiResource.__export__"), ("plain text", "MyCapytain/common/utils/xml.py:xmlparser; MyCapytain/resources/texts/base/tei.py"), ("nested dictionary", "MyCapytain/common/utils/xml.py:nested_get, nested_set, nested_ordered_dictionary")],
 obs=["TextualNode.export(Mimetypes...)", "text.text, str(), tostring"],
 note=NOTE + "Documents: " + TXT + "."))
P.append(dict(
 id="C10", title="Metadata: what is stated is what is read and exported, per key and language",
 statement="Metadata objects and collections with the same node share one set of statements. Adding states exactly one more (duplicates aside), setting replaces the values of that key of that node only, removing and unlinking erase exactly the statements they match, and no other operation changes anything. Reading a key gives exactly its values, reading in a language gives exactly those in it, and a single value is one in the requested language when there is one, otherwise any. Labels, CTS properties, links, creator/title/subject/description and version/type/model read back what was set. Every export (JSON, RDF/XML, JSON-LD, CapiTainS XML) contains exactly the selected statements (only/exclude by term or namespace) with values, languages and datatypes, and leaves its arguments alone.",
 over=["inputs", "histories"], q="every sequence of changes, reads and exports on any number of nodes sharing the graph, with literals, typed literals, languages, identifiers and blank nodes",
 why="Tests perform one or two changes on one node and look at one export; frame effects on other nodes or keys, mixed value kinds, and selections are not explored.",
 files=["MyCapytain/common/metadata.py", "MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/resources/prototypes/text.py"],
 mech=[("statement store", "MyCapytain/common/metadata.py:Metadata"), ("collection accessors", "MyCapytain/resources/prototypes/metadata.py:Collection, ResourceCollection; MyCapytain/resources/prototypes/cts/inventory.py:PrototypeCtsCollection")],
 state=[("global graph", "statements of every node", "MyCapytain/common/constants.py:get_graph")],
 obs=["Metadata.get/get_single/[]/add/set/remove/unlink/getOr/export", "Collection.get_label/set_label/get_cts_property/get_link/version/type/model"],
 note=NOTE + "JSON.Std holds literals only. Known finding: it title-cases values (asserted by an existing test)."))
P.append(dict(
 id="C09", title="Collections: parents, children, lookup, size and deletion agree",
 statement="In any tree of collections (generic or CTS), whatever the order in which members are attached or deleted: a collection's children, members, size, descendants (members first, then each member's own descendants), readable descendants and text counts describe the same tree as the parents recorded in the members (closest first); a parent has at most one child per identifier, the first come staying. Lookup by identifier finds the collection itself, a member or a descendant exactly when containment says so, and refuses any other. Deleting a member removes it and its subtree, with its own metadata, and leaves every other collection, its place and its metadata as they were.",
 over=["histories"], q="every sequence of creations, attachments, deletions and lookups over any number of collections and identifiers, including repeated identifiers",
 why="Tests build a few fixed trees and never delete; duplicates of identifiers, deep trees and interleavings of changes are not covered.",
 files=["MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/prototypes/cts/inventory.py"],
 mech=[("tree maintenance", "MyCapytain/resources/prototypes/metadata.py:Collection.parent, _add_member, __getitem__, __delitem__, __contains__, descendants"), ("counts", "MyCapytain/resources/prototypes/cts/inventory.py:__len__")],
 state=[("children and parent", "the tree", "MyCapytain/resources/prototypes/metadata.py:Collection._children, _parent")],
 obs=["Collection.children/members/descendants/parents/readableDescendants/size/len", "collection[id]", "id in collection", "del collection[id]"],
 note=NOTE + "Objects are given a parent once; nothing is assumed about the parent still recorded in a deleted object."))
P.append(dict(
 id="C11", title="Merging works and textgroups keeps the union, newest texts winning",
 statement="Updating a work with another of the same URN leaves it with every text of both, the added text replacing the one of the same identifier (in its place), each text having the updated work as parent; updating a textgroup merges works of the same identifier that way and adds the others, from copies: the added textgroup, its works and texts are left untouched and not shared. The updated object keeps its own parent and is returned. Objects of another class or another URN are refused (TypeError, InvalidURN) and nothing changes. Text classes, citations and languages are kept; editions, translations (by language), title and creator of a text are those of its work and textgroup.",
 over=["histories"], q="every pair of textgroups and works (any works and texts, overlapping or not) and every sequence of merges, including merges of merges and self-merges of works",
 why="Tests merge two fixtures once; overlap patterns, repeated merges and aliasing between the sides are not covered.",
 files=["MyCapytain/resources/prototypes/cts/inventory.py"],
 mech=[("merge", "MyCapytain/resources/prototypes/cts/inventory.py:CtsWorkMetadata.update, CtsTextgroupMetadata.update"), ("siblings", "MyCapytain/resources/prototypes/cts/inventory.py:CtsWorkMetadata.get_translation_in; CtsTextMetadata.editions, translations")],
 state=[("works and texts", "children of textgroups and works", "MyCapytain/resources/prototypes/metadata.py:Collection._children")],
 obs=["CtsWorkMetadata.update", "CtsTextgroupMetadata.update", "texts, works, len, editions(), translations(), get_title/get_creator"],
 note=NOTE + "A work whose texts were moved into another work is not merged again; metadata stated after a merge is not covered."))
P.append(dict(
 id="C14", title="Dispatcher: a collection goes to the inventory of the last accepting rule",
 statement="Whatever rules are registered (by call or decorator, in any order, accepting by identifier, by path or never), a dispatched collection ends up, with its whole subtree, in exactly one inventory: that of the most recently registered rule answering True, or the default inventory (the given one, or the first of the root) when no other rule answers True; other answers than True do not count, and the other inventories are unchanged.",
 over=["inputs", "histories"], q="every list of rules over any number of inventories and every sequence of dispatched collections",
 why="Tests dispatch one repository with two or three fixed rules.",
 files=["MyCapytain/resolvers/utils.py"],
 mech=[("rule selection", "MyCapytain/resolvers/utils.py:CollectionDispatcher.dispatch, add, inventory")],
 state=[("rules", "ordered rules", "MyCapytain/resolvers/utils.py:CollectionDispatcher.__methods__")],
 obs=["CollectionDispatcher.dispatch", "inventories' members"],
 note=NOTE))
P.append(dict(
 id="C12", title="CTS inventories: XML read and written say the same as the objects",
 statement="Reading an inventory, textgroup, work or text description gives exactly the objects it describes: one per identifier, in document order, under the right parent, with its class, language (an edition speaks the language of its work), labels per language, membership, citation scheme, links to the described text and, in CapiTainS documents, structured metadata with their language, datatype or identifier. Writing any object of a tree in CTS form (plain or CapiTainS) yields a well-formed document with the same information for that object and everything under it, several inventories in one document included, and reading the written document again gives the same objects, however often this is repeated and in whatever form (text, file, element) the document is given; objects of two readings are equal exactly when they have the same identifier.",
 over=["inputs", "histories"], q="every inventory (textgroups, works, editions, translations, commentaries, any labels, languages, citation schemes and structured metadata), read or built, and every chain of export and parse steps",
 why="Tests compare a few fixture inventories with literal strings; special characters, missing languages, several inventories, datatypes and repeated round trips are not covered.",
 files=["MyCapytain/resources/collections/cts.py", "MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/common/utils/xml.py", "MyCapytain/common/utils/_generic.py"],
 mech=[("ingest", "MyCapytain/resources/collections/cts.py:XmlCts*Metadata.parse, parse_metadata, _parse_structured_metadata"), ("export", "MyCapytain/resources/prototypes/cts/inventory.py:__export__; MyCapytain/common/utils/xml.py:make_xml_node")],
 obs=["XmlCtsTextInventoryMetadata.parse (and textgroup, work, texts)", "export(Mimetypes.XML.CTS / XML.CapiTainS.CTS)", "metadata of the objects"],
 note=NOTE + "Labels have a language; structured metadata identifiers start with urn:, http:, https: or hdl:."))
P.append(dict(
 id="C13", title="Local repositories: folders on disk become the inventory they describe",
 statement="Whatever the order in which the file system lists files, loading folders of CTS metadata gives exactly the textgroups, works and texts whose metadata can be read, each identifier once, with the labels stated in any of the folders, the text of the last folder standing for an identifier present in several, and each textgroup in the inventory chosen by the dispatching rules. Texts that are missing, unreadable or without citation scheme stay listed but carry no citation scheme, and the others carry that of their file. Unreadable metadata files and textgroups no rule accepts are left out (or raise when the resolver is asked to raise) without disturbing anything else.",
 over=["inputs", "crash points"], q="every set of folders with any overlap of groups, works and texts, any subset of metadata and text files missing, truncated, empty or replaced, and any dispatching rules",
 why="Tests load three well-formed fixture repositories; overlaps between folders, faulty files in arbitrary combinations and their interplay with dispatching are not covered.",
 files=["MyCapytain/resolvers/cts/local.py", "MyCapytain/resolvers/utils.py", "MyCapytain/resources/collections/cts.py", "MyCapytain/resources/prototypes/cts/inventory.py"],
 mech=[("loading", "MyCapytain/resolvers/cts/local.py:CtsCapitainsLocalResolver.parse, _parse_textgroup, _parse_work, _parse_text, _dispatch")],
 state=[("inventory", "collections read", "MyCapytain/resolvers/cts/local.py:CtsCapitainsLocalResolver.inventory")],
 obs=["CtsCapitainsLocalResolver(resource=folders)", "resolver.inventory", "resolver.texts", "citation, path, labels of the texts"],
 note=NOTE + "An identifier has one class and language in all folders, and text files are named after it."))
P.append(dict(
 id="C15", title="Local resolver: answers describe exactly the repository",
 statement="After loading, the resolver answers every question from what the folders hold: getMetadata of nothing or of the root gives everything, of an inventory that inventory, and of any other identifier exactly the readable texts at or under it with the collections above them; text searches (identifier, language, category) return the matching texts in inventory order, and pages cut that list exactly, past-the-end and out-of-range pages and sizes being clamped; passages, references and siblings asked through the resolver are those of the text's document, with title, creator and subject taken from its metadata when wanted, a work identifier standing for one of its editions; a text object filled from its inventory entry, readable or not, says the same and has the scheme of that entry. Unknown identifiers, unreadable texts and unknown passages are refused, and no question changes later answers.",
 over=["inputs", "histories"], q="every repository and every sequence of questions (identifiers at each level, filters, page numbers and sizes, references, levels)",
 why="Tests ask literal questions of one fixture repository; filter combinations, page arithmetic, identifiers that are prefixes of others and sequences of questions are open-ended.",
 files=["MyCapytain/resolvers/cts/local.py", "MyCapytain/resources/texts/local/capitains/cts.py"],
 mech=[("search and pagination", "MyCapytain/resolvers/cts/local.py:__getTextMetadata__, pagination, getMetadata"), ("passages", "MyCapytain/resolvers/cts/local.py:getTextualNode, getReffs, getSiblings, __getText__")],
 obs=["getMetadata", "getTextualNode", "getReffs", "getSiblings", "__getTextMetadata__", "pagination"],
 note=NOTE + "Page numbers start at 1; identifiers carry no passage."))
P.append(dict(
 id="C16", title="CTS endpoint: each question is the one request that asks it",
 statement="A call of the CTS retriever makes exactly one GET request at the endpoint address, with the request name, the URN (with the passage appended when one is asked), the level (counted from the top of the text), the context and the inventory (the call's, else the retriever's), each exactly once and nothing for what was not given, and answers with the body of the reply as the server encoded it; a failed request (HTTP error, refused or slow connection) is raised, never answered. Text and passage objects ask the request that answers their question, for their own URN, and may leave out only a request whose answer they already hold.",
 over=["inputs", "histories", "crash points"], q="every retriever method and every combination of given and omitted parameters, any values, and every sequence of questions to remote texts and passages, any request failing",
 why="Tests compare a few recorded calls; combinations of optional parameters, special characters, levels below a passage and what is asked again after a failure are not covered.",
 files=["MyCapytain/retrievers/cts5.py", "MyCapytain/retrievers/prototypes.py", "MyCapytain/resources/texts/remote/cts.py", "MyCapytain/resolvers/cts/api.py"],
 mech=[("requests", "MyCapytain/retrievers/cts5.py:HttpCtsRetriever.call and its methods"), ("memory of answers", "MyCapytain/resources/texts/remote/cts.py:_SharedMethod")],
 obs=["HttpCtsRetriever.getCapabilities/getValidReff/getFirstUrn/getPrevNextUrn/getLabel/getPassage/getPassagePlus/getTextualNode/getReffs/getSiblings/getMetadata", "requests received by an in-memory endpoint"],
 note=NOTE + "Replies are XML in UTF-8 or in the charset they declare."))
P.append(dict(
 id="C17", title="Remote CTS texts: passages and navigation say what the endpoint said",
 statement="Whatever order questions are asked in and whichever requests fail, a remote text or passage answers with what the endpoint holds: the passage at a reference carries that reference, URN, depth, tree and text; references at a level are those of the reply, in order; next, previous, parent, first, last, children and siblings lead to the passages the endpoint names (none when it names none); titles, creators, descriptions, labels (per language) and the citation scheme are those of the replies that carried them. A failed, truncated or foreign reply is reported and leaves nothing behind: asked again, the object answers as if the failure had not been.",
 over=["inputs", "histories", "crash points"], q="every text (document and citation scheme), every sequence of questions and moves through a text and its passages, any subset of the requests failing in any way",
 why="Tests parse recorded replies of one endpoint; sequences of moves, ranges, failures between requests and other namespaces prefixes or layouts of replies are not covered.",
 files=["MyCapytain/resources/texts/remote/cts.py", "MyCapytain/resolvers/cts/api.py", "MyCapytain/resources/prototypes/text.py"],
 mech=[("reading replies", "MyCapytain/resources/texts/remote/cts.py:CtsPassage.__parse__, _SharedMethod.prevnext, _parse_request"), ("navigation", "MyCapytain/resources/texts/remote/cts.py:CtsPassage.nextId, prevId, parentId, childIds; MyCapytain/resources/prototypes/text.py:InteractiveTextualNode")],
 state=[("remembered neighbours", "answers held", "MyCapytain/resources/texts/remote/cts.py:CtsPassage._prev_id, _next_id, _first, _last, _children")],
 obs=["CtsText.getTextualNode/getPassagePlus/getValidReff/getReffs/reffs/getFirstUrn/getPrevNextUrn/getLabel", "CtsPassage.next/prev/parent/first/last/children and their ids", "HttpCtsResolver.*"],
 note=NOTE + "Replies with HTTP status 200 carrying a CTSError are not covered; the last of an empty list is none or an error."))
P.append(dict(
 id="C18", title="DTS navigation: references of all pages, in order, complete or an error",
 statement="The references a DTS resolver returns for a text, level and reference are those of every page of the endpoint's navigation reply, in order, none missing, none twice, however they are spread over pages (including empty pages) and in whatever equivalent JSON-LD they are written: each with its start, its end if it is a range, its type (that of the reply when it has none of its own) and its metadata; the set carries the level and the citation type of the reply, and knows its members by identifier. Pages are asked one after the other with the parameters of the question; if one request fails or its reply cannot be read an error is raised rather than a partial set, and the question can be asked again.",
 over=["inputs", "crash points", "histories"], q="every division of a list of references into pages, every equivalent JSON-LD writing, and a failure at any request",
 why="Tests read a handful of recorded replies of one or two pages, all requests succeeding.",
 files=["MyCapytain/resolvers/dts/api_v1.py", "MyCapytain/common/reference/_dts_1.py", "MyCapytain/common/reference/_base.py", "MyCapytain/common/utils/dts.py", "MyCapytain/common/utils/_json_ld.py", "MyCapytain/retrievers/dts/__init__.py"],
 mech=[("collecting pages", "MyCapytain/resolvers/dts/api_v1.py:HttpDtsResolver.getReffs, _parse_ref"), ("sets of references", "MyCapytain/common/reference/_dts_1.py:DtsReferenceSet; MyCapytain/common/reference/_base.py:BaseReferenceSet.__new__")],
 state=[("page cursor", "next page to ask", "MyCapytain/resolvers/dts/api_v1.py:HttpDtsResolver.getReffs (page, references)")],
 obs=["HttpDtsResolver.getReffs", "DtsReferenceSet (iteration, level, citation, in)", "DtsReference.start/end/type/metadata"],
 note=NOTE + "Views whose links are JSON-LD nodes ({\"@id\": …}) instead of strings are not covered."))
P.append(dict(
 id="C20", title="DTS requests: the endpoint's own routes, one well formed question each",
 statement="The collections, documents and navigation routes of a DTS endpoint are those its entry point gives, resolved as RFC 3986 says against the entry point (relative, absolute, other host, or told apart by a parameter). Every question is one GET request at its route with the route's parameters and exactly the parameters of the question, encoded so that the endpoint reads them back unchanged (a range as start and end, a reference as ref); the body is returned as sent, an HTTP error or a lost connection is raised. The entry point is read once, before the first question, and again only if reading it failed. Pages are read from Link headers wherever the page parameter stands, absent ones are None.",
 over=["inputs", "crash points"], q="every URI reference as a route, every question, every Link header, and a failure at any request",
 why="Tests use one endpoint whose routes are absolute paths and compare a few fixed URLs.",
 files=["MyCapytain/retrievers/dts/__init__.py", "MyCapytain/common/utils/_http.py", "MyCapytain/retrievers/prototypes.py"],
 mech=[("routes", "MyCapytain/common/utils/_http.py:parse_uri; MyCapytain/retrievers/dts/__init__.py:HttpDtsRetriever.routes"), ("requests", "MyCapytain/retrievers/dts/__init__.py:HttpDtsRetriever.call, get_collection, get_navigation, get_document, _parse_ref_parameters"), ("link headers", "MyCapytain/common/utils/_http.py:parse_pagination")],
 state=[("entry point", "routes once read", "MyCapytain/retrievers/dts/__init__.py:HttpDtsRetriever._routes")],
 obs=["HttpDtsRetriever.routes/get_collection/get_navigation/get_document", "parse_pagination", "HTTP requests sent"],
 note=NOTE + "Fragments in URIs are not covered."))
P.append(dict(
 id="C23", title="DTS documents: content, neighbours and children as the endpoint says",
 statement="A document fetched from a DTS endpoint carries the identifier and reference asked for and the TEI it was served, as tree and as plain text; previous, next and parent are those of the Link header of its reply, first, last, children and references at a level those of the navigation route for that document (for all of its pages), metadata and depth those of its collection. Moves fetch the document they name, none when there is none; what was learnt once is not asked again, and a failed request is reported and leaves the document as it was.",
 over=["inputs", "histories", "crash points"], q="every text, every sequence of questions and moves through its documents, any of the requests failing",
 why="Tests fetch one document with one recorded header; parents, levels, moves and failures are not exercised.",
 files=["MyCapytain/resources/texts/remote/dts/_resolver_v1.py", "MyCapytain/resolvers/dts/api_v1.py", "MyCapytain/resources/prototypes/text.py"],
 mech=[("reading links", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py:DtsResolverDocument.parse, _dict_to_ref"), ("navigation", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py:DtsResolverDocument.getReffs, getTextualNode; MyCapytain/resources/prototypes/text.py:InteractiveTextualNode"), ("collection", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py:DtsResolverDocument.collection, metadata, depth")],
 state=[("remembered answers", "what a document learnt", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py:DtsResolverDocument._collection, _childIds, _depth, _metadata")],
 obs=["HttpDtsResolver.getTextualNode", "DtsResolverDocument.getTextualNode/getReffs/prev/next/parent/first/last/children/metadata/depth"],
 note=NOTE))
P.append(dict(
 id="C19", title="DTS collections: members and parents of every page, read only as needed",
 statement="Walking the collections of a DTS endpoint shows the endpoint's graph: the members of a collection are those of all pages of its reply, in order, none missing or doubled, its parents those of its nav=parents reply; members, values, keys, iteration, items, length, lookups by identifier, containment, descendants and readable descendants agree with that graph. Title, type, size, description, citation structure, depth and metadata of each collection are those served: of a member what its listing says, complete after retrieve(). A side that is known is not asked again; reading a side asks its pages from one not yet known to the last; a question answered by what is known asks nothing. A failed request surfaces as an error and leaves the collection able to answer on the next try. A page parsed alone gives the members or parents of that page.",
 over=["inputs", "histories", "crash points"], q="every finite graph of collections, every division into pages, every sequence of questions, any request failing",
 why="Tests parse recorded replies and one paginated walk with all requests succeeding; failures between pages, repeated and mixed questions and other graphs are not covered.",
 files=["MyCapytain/resources/collections/dts/_resolver.py", "MyCapytain/resources/collections/dts/_base.py", "MyCapytain/resolvers/dts/api_v1.py", "MyCapytain/resources/prototypes/metadata.py"],
 mech=[("pages on demand", "MyCapytain/resources/collections/dts/_resolver.py:PaginatedProxy, HttpResolverDtsCollection._parse_paginated_members"), ("reading replies", "MyCapytain/resources/collections/dts/_base.py:DtsCollection.parse, parse_member, _parse_metadata")],
 state=[("what is known of a collection", "which sides and pages are read", "MyCapytain/resources/collections/dts/_resolver.py:HttpResolverDtsCollection._parsed, _last_page_parsed")],
 obs=["HttpDtsResolver.getMetadata", "HttpResolverDtsCollection.children/members/parents/descendants/readableDescendants/retrieve", "DtsCollection.parse", "HTTP requests sent"],
 note=NOTE + "Identifiers are absolute IRIs: relative ones are resolved by PyLD and existing tests pin the result."))
P.append(dict(
 id="C21", title="DTS citations and reference sets: structure, levels, export, equality",
 statement="However a scheme of DTS citations is built (read from JSON-LD, by constructor, by assigning children or by adding them, top down or bottom up) and changed afterwards, it holds exactly the citations put in, in order: its iteration is their reading order, its length their number, its depth the longest path (or the depth given), level k the citations k steps down, negative levels counted from the deepest with an error beyond it, the root of every citation the top of the scheme. Its JSON-LD export, read again, gives the same scheme, as do pickled and deep copies. Citations are equal exactly when names and structure agree at like places. References are equal exactly when class, start, end and type agree, sets when references, level and citation do; equal ones have one hash; containment agrees with equality.",
 over=["inputs", "histories"], q="every forest of named or unnamed citations, every way and order of building and changing it, every pair of references and sets",
 why="Tests build three fixed schemes and compare a few pairs.",
 files=["MyCapytain/common/reference/_base.py", "MyCapytain/common/reference/_dts_1.py"],
 mech=[("structure", "MyCapytain/common/reference/_base.py:BaseCitationSet, BaseCitation"), ("reading", "MyCapytain/common/reference/_dts_1.py:DtsCitation.ingest, DtsCitationSet.ingest"), ("comparison", "MyCapytain/common/reference/_dts_1.py:DtsReference.__eq__, DtsReferenceSet.__eq__, __contains__, DtsCitation.__eq__")],
 state=[("place of a citation", "root and children", "MyCapytain/common/reference/_base.py:BaseCitation._root, _children")],
 obs=["DtsCitationSet/DtsCitation: children, add_child, iteration, len, depth, [], root, is_root, is_set, is_empty, export, pickle", "DtsReference, DtsReferenceSet, BaseReference"],
 note=NOTE + "Negative levels of single citations, and of sets whose depth was set by hand, are not specified."))
P.append(dict(
 id="C22", title="Collections as DTS records and RDF: complete, valid, and read back",
 statement="The DTS export of any collection (generic, CTS or itself read from a DTS document) is JSON: the same document after being written and read. Whatever prefixes its context chooses, it says the collection's identifier, its type, one of its labels as title, its number of members, its description, all Dublin Core terms statements under dts:dublincore and all other statements (but those of the RDF, RDFS, DTS, Hydra and CapiTainS vocabularies) under dts:extensions, each once with its text, language or datatype, its members in order with their own identifier, type, title and size, its citation structure and depth, and nothing of any other collection. The JSON-LD and RDF/XML exports are graphs holding every statement about the collection and every link to it, and only statements of the graph. Reading a DTS export gives a collection with the same identifier, type, title, size, metadata, members and citations, which exports the same record again. Exporting changes nothing, whatever changes (statements, labels, types, members added or deleted) came before.",
 over=["inputs", "histories"], q="every tree of collections, every set of statements with any language or datatype, every type and namespace, every sequence of changes, exports and readings",
 why="Tests compare four recorded DTS documents with their own export and look at identifiers of members; other namespaces, datatypes, types and the RDF exports are not exercised.",
 files=["MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/collections/dts/_base.py", "MyCapytain/common/utils/_json_ld.py", "MyCapytain/common/utils/_graph.py", "MyCapytain/common/utils/dts.py"],
 mech=[("export", "MyCapytain/resources/prototypes/metadata.py:Collection.__export__, export_base_dts"), ("part of the graph", "MyCapytain/common/utils/_graph.py:Subgraph.graphiter"), ("values", "MyCapytain/common/utils/_json_ld.py:literal_to_dict, dict_to_literal"), ("reading", "MyCapytain/resources/collections/dts/_base.py:DtsCollection.parse; MyCapytain/common/utils/dts.py:parse_metadata")],
 state=[("statements", "the graph shared by all collections", "MyCapytain/common/constants.py:get_graph"), ("tree", "members", "MyCapytain/resources/prototypes/metadata.py:Collection._children")],
 obs=["Collection.export (DTS JSON, JSON-LD, RDF/XML) of all collection classes", "DtsCollection.parse", "the statements of the graph"],
 note=NOTE + "JSON-LD is expanded with PyLD and RDF read with rdflib before comparison."))
P.append(dict(
 id="C24", title="Exports: what is announced is exported, by the class in charge, changing nothing",
 statement="An object announces the formats announced by any of its classes. Asked for an announced format, it returns what the exporter of the most specific class announcing that format (by itself or by inheritance) returns, given the format and the options of the call; asked for no format, the same as for its default format; asked for any other format, or for none when it has no default, it raises NotImplementedError. Every collection announces JSON-LD, DTS JSON and RDF/XML; CTS collections also CTS XML, CapiTainS CTS XML and lxml (their default); metadata JSON (default), JSON-LD, RDF/XML and CapiTainS XML; CTS citations DTS JSON, CTS XML (default) and TEI; DTS citations and sets DTS JSON; texts and passages XML, TEI, lxml, nested dictionary and plain text (default); and each such export succeeds and is of its kind (well-formed XML text, valid JSON, readable RDF, an lxml element, a dictionary, a string). Exporting changes neither the statements of the graph, nor the XML of the text, nor any other object: until something is changed, the same question gives the same document, whatever was exported in between, the lxml export of a CTS collection is its CTS XML, and XML, TEI and lxml exports of a text are the same document.",
 over=["inputs", "histories"], q="every class hierarchy, every format and options, every object and every sequence of exports over objects sharing the graph",
 why="Tests define three small hierarchies and export single objects once; inherited announcements, defaults, options, and the effect of one export on the next are not exercised.",
 files=["MyCapytain/common/base.py", "MyCapytain/common/metadata.py", "MyCapytain/common/reference/_base.py", "MyCapytain/common/reference/_capitains_cts.py", "MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/resources/texts/base/tei.py"],
 mech=[("choosing the exporter", "MyCapytain/common/base.py:Exportable.export, export_capacities"), ("exporters", "__export__ of Metadata, BaseCitationSet, BaseCitation, Citation, Collection, PrototypeCtsCollection and its subclasses, TeiResource")],
 state=[("graph", "shared by all collections", "MyCapytain/common/constants.py:get_graph"), ("text", "XML of the text", "MyCapytain/resources/texts/base/tei.py:TeiResource.resource")],
 obs=["export, export_capacities, DEFAULT_EXPORT of all exportable classes and of user-defined subclasses"],
 note=NOTE + "Documents are compared up to the order of attributes and statements and the prefixes chosen; contents of exports are decided by C03, C04, C08, C10, C12, C17, C21, C22."))
for p in P:
    if p["id"] == "C12":
        p["obs"].append("HttpCtsResolver.getMetadata")
        p["files"].append("MyCapytain/resolvers/cts/api.py")
