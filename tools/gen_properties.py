#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept so that the list can be edited in one readable place.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V = "spdx/v2/v2_{1,2,3}"
prop("P01", "Tag-value text is split into exactly the tag/value pairs it states",
 "For every text, reading tag-values yields, in order, one pair per tag line: the tag and value trimmed of surrounding white space, the text between <text> and </text> verbatim (over several lines if need be), with blank lines and # comment lines outside a <text> block skipped. "
 "A line without a colon outside a <text> block, and an unterminated <text> block are errors that yield no pairs; lines may be of any length. "
 "How the source delivers the bytes (chunk sizes, data together with end of file) makes no difference.",
 ["inputs", "histories"], "all sequences of lines over a line alphabet up to a depth, all ways of chunking the bytes of each text",
 "The tests feed a dozen hand-written line sequences to the line machine; the mode (inside/outside <text>) times the next line, and the chunk boundaries, form a space they only touch.",
 ["tagvalue/reader/reader.go"],
 [("two-mode line machine (ready / inside <text>)", "tagvalue/reader/reader.go"), ("line scanner", "tagvalue/reader/reader.go")],
 [("midtext", "inside an unterminated <text> block", "tagvalue/reader/reader.go")], ["result and error of reading"])

prop("P02", "Reading tag-value builds exactly the document the text states",
 "For every sequence of tags that follows the section structure of its SPDX version (2.1, 2.2, 2.3), the document read contains every stated value in the element it was stated for - package, file, snippet, license, review, relationship, annotation, external reference, checksum - in the order stated, and nothing else. "
 "Files stated before any package are the document's own; files stated after a package, and snippets stated after a file, belong to it; comments attach to the relationship, annotation or reference they follow.",
 ["inputs", "histories"], "all tag sequences up to a depth from every reachable parser state, for each version",
 "Tests call one parse step from a hand-made parser state; which element a value lands in depends on the whole history of tags before it.",
 [V + "/tagvalue/reader/*.go", "tagvalue/reader.go"],
 [("section state machine per version", V + "/tagvalue/reader/parser.go"), ("current element pointers", V + "/tagvalue/reader/types.go")],
 [("section", "which section the parser is in", V + "/tagvalue/reader/types.go"), ("current package/file/snippet/...", "the element that receives the next tag", V + "/tagvalue/reader/types.go")])

prop("P03", "Malformed tag-value is rejected with an error, never half-read",
 "A tag that its section does not know, a malformed value (identifier, relationship, package or file checksum with an algorithm unknown to that version, external reference, creator, supplier, range, ...), a comment or detail tag with nothing to attach to, and a package or file without an identifier each make the read fail with an error wherever in the document they occur. "
 "The caller's document is then left as it was.",
 ["inputs", "histories"], "every malformed tag/value injected in every reachable parser state, for each version; every missing identifier in every transition",
 "Tests inject one malformed value in one state of one version; the number of (state, malformed tag) combinations is in the thousands.",
 [V + "/tagvalue/reader/*.go", "tagvalue/reader.go"],
 [("per-section tag switch with a default error", V + "/tagvalue/reader/parse_*.go"), ("identifier checks when an element is left", V + "/tagvalue/reader/parser.go")],
 [("section", "which section the parser is in", V + "/tagvalue/reader/types.go")])

prop("P04", "A document survives being saved as tag-value and read back",
 "For every document of version 2.1, 2.2 or 2.3 whose fields hold what tag-value can carry (one-line values without line breaks and <text>, free text without </text>), writing it as tag-value and reading it into the same version gives the same document, up to the order of external document references, packages and files, which are sorted by identifier. "
 "Free text comes back byte for byte, and what is written is accepted by the reader.",
 ["inputs"], "every field of every element x a value alphabet x list lengths 0..3 (and long lists), every pair of fields, every combination of optional elements, for each version",
 "Tests compare fixed documents against fixed text; each field is exercised with one benign value, in one order, in one neighbourhood.",
 [V + "/tagvalue/writer/*.go", V + "/tagvalue/reader/*.go", "tagvalue/*.go"],
 [("per-element renderers", V + "/tagvalue/writer/save_*.go"), ("multi-line quoting", V + "/tagvalue/writer/util.go")])

prop("P05", "A document survives being saved as JSON and read back",
 "For every valid document of version 2.1, 2.2 or 2.3, writing it as JSON (with any option: indentation, HTML escaping on or off) and reading it into the same version gives back every field that SPDX JSON defines for that version, whatever characters the values contain. "
 "An empty optional value is not written in a form that the reader or the SPDX schema rejects.",
 ["inputs"], "every field of every element x a value alphabet (quotes, backslashes, <>&, control and non-ASCII characters) x list lengths, every pair of fields, every write option, for each version",
 "Tests load two or three large fixtures whose values are benign; custom encoders of identifiers, agents and categories each see one or two values.",
 ["json/*.go", "spdx/v2/common/*.go", V + "/*.go", "spdx/v2/common/internal/marshal (if present)"],
 [("custom JSON encoders of identifiers and agents", "spdx/v2/common/{identifier,annotation,creation_info,package}.go"), ("field tags", V + "/*.go")])

prop("P06", "JSON shorthands become relationships, once each",
 "When a 2.2 or 2.3 JSON or YAML document is read, every entry of documentDescribes and of a package's hasFiles is present as a DESCRIBES or CONTAINS relationship exactly once - also when it is stated in several places or in its inverse form - the explicitly stated relationships are kept unchanged and in order, and nothing else is added. "
 "A package that does not say whether its files were analysed counts as analysed; a category may be spelled with - or _ and reads the same.",
 ["inputs"], "all small combinations of shorthand entries, explicit relationships (direct and inverse) and their orders, including null entries, empty lists and ids of other documents",
 "Tests have one document per shorthand; the de-duplication depends on the combination of all the stated relationships.",
 ["spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go", "spdx/v2/v2_2/package.go", "spdx/v2/v2_3/package.go"],
 [("relationship de-duplication", "spdx/v2/v2_{2,3}/document.go"), ("package decoding", "spdx/v2/v2_{2,3}/package.go")])

prop("P07", "A document survives being saved as YAML, and YAML means the same as JSON",
 "For every valid document of version 2.1, 2.2 or 2.3, writing it as YAML and reading it into the same version gives back every field that SPDX YAML defines for that version, whatever characters the values contain. "
 "Reading the YAML and reading the JSON of the same document give the same document.",
 ["inputs"], "as for JSON, with values that YAML could take for something else (numbers, booleans, null, dates, #, :, leading and trailing blanks, line breaks)",
 "Tests load fixtures whose strings are never mistaken for other YAML types.",
 ["yaml/*.go", "spdx/v2/common/*.go", V + "/*.go"],
 [("YAML through the JSON encoders", "yaml/*.go")])

prop("P08", "All formats carry the same document",
 "What tag-value, JSON and YAML can all express means the same in each: writing one document in two formats and reading both back into memory gives equal documents, and converting a file from one format to another and back gives an equal document.",
 ["inputs", "histories"], "all conversion paths between the formats and versions up to length 3, over an enumerated document family",
 "The examples convert one file each; tests never compare two formats of one document other than the one fixture.",
 ["tagvalue/*.go", "json/*.go", "yaml/*.go", "convert/*.go", V + "/tagvalue/**"],
 [("common in-memory model", V + "/*.go"), ("format readers and writers", "tagvalue, json, yaml")])

prop("P09", "Changing the version of a document loses nothing the target can hold",
 "Converting a document between two different versions out of 2.1, 2.2 and 2.3 keeps every field, in every element, that exists in both versions, invents no content, states the target's version, and leaves the source document unchanged and unconnected to the result. "
 "Upgrading and downgrading back gives the original document.",
 ["inputs", "histories"], "every field of every element x present/absent x list lengths, every ordered pair of versions, every conversion path up to length 4",
 "Tests convert one or two documents in some directions; conversion is driven by field names, so any single field can silently drop out.",
 ["convert/*.go", "spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go"],
 [("conversion chain between adjacent versions", "convert/chain.go"), ("version hooks", "spdx/v2/v2_{2,3}/document.go")])

prop("P10", "Every reader accepts exactly the versions it supports and fills any target",
 "For each format, reading a document of any supported version gives the latest version's document, or any supported version the caller asks for by passing a pointer to it, with the contents read according to the version the document states. "
 "A missing, unknown or ill-typed version, content that is not a document of that format, or a target that is not a pointer to a supported document gives an error and leaves the caller's document as it was.",
 ["inputs", "configurations"], "all formats x stated versions (supported, unknown, missing, ill-typed, near misses) x target kinds",
 "Tests cover the main diagonal.",
 ["tagvalue/reader.go", "json/reader.go", "yaml/reader.go", "rdf/reader.go", "convert/*.go", "tagvalue/writer.go"],
 [("version switch per format", "{tagvalue,json,yaml,rdf}/reader.go"), ("conversion to the target", "convert/chain.go")])

prop("P11", "Identifiers are printed and parsed consistently, and bad ones rejected",
 "Every element, document and cross-document identifier (and NONE / NOASSERTION where allowed) that is written in any format reads back as the same identifier with its prefix neither doubled nor lost. "
 "A string without the required prefix, with nothing after it, or with surplus parts is rejected with an error, never turned into another identifier (JSON and YAML may keep a colon inside the element part as it is).",
 ["inputs"], "all strings over an alphabet of identifier fragments (prefixes, separators, escapes, special words) up to a length",
 "Tests list a dozen identifiers; whether a prefix is stripped once, twice or not at all depends on fragments no test combines.",
 ["spdx/v2/common/identifier.go", V + "/tagvalue/reader/util.go"],
 [("prefix adding and trimming", "spdx/v2/common/identifier.go"), ("tag-value identifier extraction", V + "/tagvalue/reader/util.go")])

prop("P12", "No input makes a reader panic or hang",
 "Reading any byte sequence as tag-value, JSON, YAML or RDF, with any supported target, ends with a document or an error: it neither panics nor loops.",
 ["inputs"], "all small texts over each format's token alphabet, and every deletion, duplication, truncation and type swap at every position of reference documents",
 "A unit test shows one input not to panic.",
 ["tagvalue/**", "json/reader.go", "yaml/reader.go", "rdf/reader.go", V + "/**", "spdx/v2/common/*.go"],
 [("nil checks and error returns in the parsers", V + "/**")])

prop("P13", "A failing or odd input source is reported, never taken for the end",
 "If the source of a document fails at any point, the read returns an error and leaves the caller's document as it was; a truncated file is not taken for a complete one where the format can tell. "
 "Short reads, empty reads and data delivered together with the end of the source do not change the result.",
 ["fault_sequences"], "an error injected at every byte offset, every chunking of short documents and every single-split chunking of long ones, for each format",
 "No test uses a failing or chunked source.",
 ["tagvalue/reader/reader.go", "json/reader.go", "yaml/reader.go", "rdf/reader.go"],
 [("error checks after reading the source", "{tagvalue/reader,json,yaml,rdf}/reader.go")])

prop("P14", "A failed write is always reported",
 "If the destination refuses or shortens any write, saving a document as tag-value, JSON or YAML, and printing a report, return an error; success is returned only when every byte of the output was accepted.",
 ["fault_sequences"], "a failure injected at every write call and after every number of bytes accepted, permanent or once, for each format and version",
 "No test uses a failing destination.",
 ["tagvalue/writer.go", V + "/tagvalue/writer/*.go", "json/writer.go", "yaml/writer.go", "reporter/reporter.go"],
 [("error propagation from the destination", "tagvalue/writer.go, json/writer.go, yaml/writer.go, reporter/reporter.go")])

prop("P15", "Saving, converting and reporting never change the document",
 "Writing a document in any format, converting it, validating it, comparing it or reporting on it leaves the caller's document exactly as it was, in contents and order, and gives the same output each time it is repeated - whatever order maps happen to be walked in, and whatever order packages and files are listed in where the output is sorted.",
 ["inputs", "histories", "schedules"], "all permutations of the listed elements, all map iteration orders the code can observe (bounded), all sequences of two operations",
 "Tests run each operation once with whatever map order the runtime picks, and never compare the document before and after.",
 [V + "/tagvalue/writer/*.go", "json/writer.go", "yaml/writer.go", "convert/*.go", "reporter/reporter.go", "licensediff/licensediff.go", "spdxlib/*.go"],
 [("sorting before output", V + "/tagvalue/writer/*.go"), ("map walks", "whole repository")])

prop("P16", "Documents can be read, converted and written concurrently",
 "Operations running at the same time, on different documents or several reads of the same document, each give the result they give when run alone, in every interleaving, without data races.",
 ["schedules"], "all interleavings (up to a preemption bound) of two or three operations at the points where they touch their source or destination; free-running repetition under the race detector",
 "No test runs two operations at once.",
 [V + "/tagvalue/writer/*.go", "tagvalue/*.go", "json/*.go", "yaml/*.go", "convert/*.go", "utils/*.go"],
 [("no shared mutable state; writers copy before sorting", V + "/tagvalue/writer/*.go")])

prop("P17", "Reading RDF builds exactly the document the graph states",
 "For every RDF/XML graph of a 2.2 or 2.3 document, the document read contains every stated value in the element it was stated for: creation information, packages, files, snippets and their ranges, licenses, relationships, annotations, reviews, external references, checksums. "
 "License expressions come back with the meaning the graph gives them; each element appears once however often it is referred to.",
 ["inputs"], "an enumerated family of graphs: every element with every property present, absent and repeated, every pair of properties, every kind of license node nested to a depth",
 "Tests parse hand-picked fragments.",
 ["rdf/reader.go", "spdx/v2/v2_2/rdf/reader/*.go", "spdx/v2/v2_3/rdf/reader/*.go"],
 [("per-element node parsers", "spdx/v2/v2_{2,3}/rdf/reader/parse_*.go"), ("node cache", "spdx/v2/v2_{2,3}/rdf/reader/types.go")],
 [("visited nodes", "which nodes were parsed already", "spdx/v2/v2_{2,3}/rdf/reader/types.go")])

prop("P18", "The order and shape of an RDF file do not change its meaning",
 "An RDF document reads as the same document whatever the order of its statements, whether its elements are nested where they are used or stated on their own and referred to, and however often it is read; lists may differ only in order.",
 ["inputs", "schedules"], "all permutations of the statements of an element (small elements) and all transpositions (large ones), all inline/reference choices, all map iteration orders (bounded)",
 "RDF is a set of statements; a test fixes one serialisation and the runtime's map order of that run.",
 ["rdf/reader.go", "spdx/v2/v2_2/rdf/reader/*.go", "spdx/v2/v2_3/rdf/reader/*.go"],
 [("triple lookup and node cache", "spdx/v2/v2_{2,3}/rdf/reader/{utils,parser,types}.go")])

prop("P19", "A built document lists exactly the files of the tree, with their true digests",
 "For every directory tree, building a document yields one package that lists each regular file that is not ignored exactly once, by its path relative to the root beginning with ./, in a stable order, with the SHA1, SHA256 and MD5 of its bytes and a unique identifier - symbolic links, directories, pipes and the like are not listed - however the root is spelled. "
 "The package's verification code is that of the listed files and the document states that it describes the package.",
 ["inputs", "configurations"], "all directory trees up to a size over a name alphabet (files, directories, links, dotted and odd names), contents of boundary sizes, every spelling of the root",
 "Tests build three fixture directories.",
 ["builder/*.go", "utils/*.go"],
 [("tree walk", "utils/filesystem.go"), ("section builders", "builder/*.go")])

prop("P20", "Ignore patterns exclude exactly what they say",
 "For every set of patterns (each beginning with / or **/) and every path: a plain file pattern excludes only that path; a plain directory pattern (ending in /) excludes everything under that directory and nothing else; with a leading ** the file or directory is excluded wherever in the tree it occurs (**/d/f being the file f directly in any directory d). "
 "The order and repetition of patterns make no difference, adding a pattern never includes more, and builder, file walk and searcher agree.",
 ["inputs", "configurations"], "all patterns of up to three components x all paths of up to four components over a name alphabet with prefix-related names, all pattern sets of size up to three over a core",
 "Tests try one or two patterns of each kind.",
 ["utils/filesystem.go", "builder/*.go", "idsearcher/idsearcher.go"],
 [("five-case pattern match", "utils/filesystem.go")])

prop("P21", "The verification code depends on exactly the files' SHA1s",
 "The package verification code is the SHA1 of the sorted, concatenated SHA1s of all files (one SHA1 each) but the excluded one; it does not depend on the order of the files or of their checksums or on their names, and changes whenever a file is added, removed or altered. "
 "The excluded file is recorded, and a missing file entry is an error.",
 ["inputs"], "all file lists up to a length over a small digest alphabet, all permutations, all excluded names, checksums of other algorithms in any position",
 "Tests compute two codes.",
 ["utils/verification.go"], [("sort, concatenate, hash", "utils/verification.go")])

prop("P22", "Building a document fails cleanly when the tree cannot be read",
 "If any directory or file of the tree that is not ignored cannot be listed, opened or read, or vanishes while the document is being built, the build returns an error and no document; it never returns a document with a missing file or a wrong digest.",
 ["fault_sequences"], "each file or directory of a small tree made unreadable, vanishing or replaced, at each file-system call of the build",
 "Tests use one missing directory.",
 ["builder/*.go", "utils/filesystem.go", "idsearcher/idsearcher.go"],
 [("error propagation from the walk and from hashing", "utils/filesystem.go, builder/*.go")])

prop("P23", "The searcher reports exactly the short-form identifiers in the files",
 "For every file, the licenses found are exactly those named by its SPDX-License-Identifier lines (indentation, comment decoration and closing comment marks stripped, duplicates merged, lines that only mention the tag deep inside other text ignored), the concluded license is the only one as it stands or else their conjunction with compound expressions parenthesised, and files without any or excluded from the search are NOASSERTION. A line longer than 64 KiB ends the search of its file, as documented. "
 "The package lists the sorted union over its files; every other field is as built.",
 ["inputs", "configurations"], "all files of up to three lines over a line alphabet (comment styles, prefixes of every length around the limit, compound expressions, repeats), all trees of up to three such files x search-ignore patterns",
 "Tests search three fixture directories.",
 ["idsearcher/idsearcher.go"], [("line search and expression splitting", "idsearcher/idsearcher.go")])

prop("P24", "A license diff puts every file in exactly one class, rightly",
 "Comparing two packages, every file name of either is reported exactly once: as changed or same when both have it, with the first's and second's licenses, or as only in the first or only in the second; a file without a concluded license counts as NOASSERTION. "
 "Swapping the packages swaps the classes, the order of files does not matter, and comparing a package with itself reports only unchanged files.",
 ["inputs"], "all pairs of packages of up to three files (names unique in a package) over an alphabet of names and licenses, all orders",
 "Tests compare one pair.",
 ["licensediff/licensediff.go"], [("pairing by name, classification", "licensediff/licensediff.go")])

prop("P25", "A license report counts every file once and is reproducible",
 "The report's numbers add up to the number of files: files with a concluded license (NONE included) are counted under that license, files with an empty or NOASSERTION one as not found; licenses are listed once each, most frequent first. "
 "The same package always gives the same text; a package whose files were not analysed gives an error.",
 ["inputs", "schedules"], "all packages of up to five files over a license alphabet, all orders of files, all map iteration orders",
 "Tests print one report; ties and map order are not controlled.",
 ["reporter/reporter.go"], [("counting and sorting", "reporter/reporter.go")])

prop("P26", "Validation accepts a document exactly when its relationships resolve",
 "A document is reported valid exactly when both ends of every relationship that refer to this document name the document itself or one of its packages, files (its own or a package's) or snippets; NONE, NOASSERTION and elements of other documents are not looked up; the error names an identifier that is missing. "
 "Validation does not depend on the order of packages, files or relationships.",
 ["inputs"], "all documents of up to two packages, two files and two relationships over an identifier alphabet (local, foreign, special, dangling), all orders",
 "Tests validate two documents.",
 ["spdxlib/documents.go"], [("identifier set and lookup", "spdxlib/documents.go")])

prop("P27", "The described packages are found exactly",
 "The packages a document describes are its only package, or otherwise the packages of this document that a DESCRIBES relationship from the document or a DESCRIBED_BY relationship to it names, sorted and once each; if there are none the caller gets an error. "
 "Filtering relationships returns exactly the chosen identifiers in the document's order, and sorting identifiers gives a sorted permutation of them.",
 ["inputs"], "all documents of up to three packages and three relationships over an alphabet of types and ends; all filters on it",
 "Tests try four documents.",
 ["spdxlib/described_elements.go", "spdxlib/relationships.go", "spdxlib/element_ids.go"],
 [("relationship filter and sort", "spdxlib/*.go")])

prop("P28", "What the tools build can be saved, read back, validated and compared",
 "A document built or searched from any directory tree is valid, its identifiers are unique, it can be saved in every format and version and reads back equal (a file name that tag-value cannot carry on one line excepted for that format), its stated digests and verification code still match, and comparing it with itself or a rebuilt one over an unchanged tree reports no difference.",
 ["inputs", "histories"], "all small trees x all pipelines of build or search, save, read, convert, validate, diff and report up to length 4",
 "Tests exercise each stage on its own fixture.",
 ["builder/*.go", "idsearcher/*.go", "tagvalue/*.go", "json/*.go", "yaml/*.go", "convert/*.go", "spdxlib/*.go", "licensediff/*.go", "reporter/*.go", "utils/*.go"],
 [("whole pipeline", "whole repository")])

prop("P29", "What a reader accepts, every operation on documents can handle",
 "Whatever text a reader of any format accepts, the document it gives can be written in tag-value, JSON and YAML, converted to every version, validated, asked for its described packages, relationships and verification codes, compared and reported on: each of these ends with a result or an error, never with a panic or without an end. No list or map of such a document holds a nil element.",
 ["inputs", "histories"], "every text of an enumerated family of damaged, odd and hostile texts of every format that a reader accepts, read into every version, then every operation",
 "Tests write, convert or validate documents made by hand or read from clean fixtures; what else a reader lets through never meets another operation.",
 ["tagvalue/*.go", "json/*.go", "yaml/*.go", "rdf/*.go", "convert/*.go", "spdxlib/*.go", "licensediff/*.go", "reporter/*.go", "utils/*.go", "spdx/v2/**"],
 [("readers and the operations behind them", "whole repository")])

prop("P30", "Documents and their parts work with encoding/json as with the writer",
 "A program may marshal a document, or any part of one (a package, an external reference, a checksum, an identifier, a creator), with encoding/json or sigs.k8s.io/yaml itself, by value or by pointer, alone or within its own structures, lists, maps and interfaces: what is stated of it is always exactly what the JSON writer states of it in the document. Unmarshalling that JSON into the type gives what the reader gives, and a value that JSON states as a single text (an identifier, a creator, supplier, originator or annotator) and that is unmarshalled into holds afterwards what the text states, whatever it held before.",
 ["inputs"], "every document with one deviation of an enumerated space, and every part of it, in every kind of holder and every way of marshalling; every pair of texts of each value written as a text",
 "Tests marshal a handful of parts by pointer on their own; whether a method is found depends on how a value is held, and what a field keeps on what it held before.",
 ["spdx/v2/**/*.go", "json/marshal/*.go", "json/writer.go", "json/reader.go"],
 [("marshalling methods of the data model", "spdx/v2/**")])

prop("P31", "What a text states of a known property is held by the document or refused",
 "A value that a tag-value, RDF, JSON or YAML text states for a tag or property the format has, in an element that has this property, is found in the document that is read, or the text is refused: a value of an unexpected kind or form (other text, number, list, object, resource, name of a node) is never accepted and dropped, wherever it stands and in whatever way RDF states its graph. An RDF property that an element does not have is refused. Left open are: what stands outside <text> and </text> or behind the parentheses of excluded files on a tag's line, which of several values of a tag is held, unknown JSON and YAML properties, primaryPackagePurpose values RDF does not know, a file's spdx:name and licenseInfoFromFiles in RDF, the texts that RDF repeats of licenses on the SPDX list, and which of several values of an RDF property with only one place is held.",
 ["inputs"], "tag lists, graphs and trees with one odd statement: every tag or property at every place, each of an alphabet of odd values, each way of stating the graph",
 "Tests read well-formed fixtures and a few errors; what a reader ignores looks like success.",
 ["tagvalue/reader.go", "spdx/v2/*/tagvalue/reader/*.go", "rdf/reader.go", "spdx/v2/v2_2/rdf/reader/*.go", "spdx/v2/v2_3/rdf/reader/*.go", "json/reader.go", "yaml/reader.go", "spdx/v2/**/*.go"],
 [("per-element node parsers", "spdx/v2/v2_{2,3}/rdf/reader/parse_*.go"), ("unmarshalling methods of the data model", "spdx/v2/**")])

prop("P32", "Saved texts use the names and forms that SPDX gives them, and these are read",
 "Everything a document states is written to JSON and YAML under the property names and in the forms of the SPDX specification (spelled exactly, with identifiers, references, creators, suppliers, checksums, ranges and verification codes in SPDX's form, lists in their order), and to tag-value under the specification's tags and forms, and nothing else is stated; the constants that the library offers for SPDX's names are spelled as SPDX spells them. A JSON or YAML text in that form, written by anyone with the properties in any order, reads as exactly the document it states.",
 ["inputs"], "every document of an enumerated space in every version, encoded by a table of names and forms of its own",
 "A reader and writer that agree on a wrong name, or a reader that does not mind one, pass every round trip; fixtures hold few of the properties, and for 2.1 almost none.",
 ["spdx/v2/**/*.go", "json/*.go", "yaml/*.go", "spdx/v2/*/tagvalue/writer/*.go"],
 [("struct tags and marshalling methods of the data model", "spdx/v2/**"), ("save functions", "spdx/v2/*/tagvalue/writer")])

prop("P33", "An operation's result depends on what it is given, not on what was done before",
 "Reading, writing, converting, validating, comparing, reporting, building and searching remember nothing: whatever was read, written, converted, built or searched before in the same program, and however a document, a buffer or a directory has changed since in the same place, each operation gives exactly what it would give as the first thing a program does; and what was read, built or found stays what it is when the source it came from changes or other operations follow.",
 ["histories"], "all ordered pairs of operations in all states of what they are given, changed in place, and all triples of states of each operation",
 "Tests call each operation on fresh values, mostly once; what is kept from one call to the next shows only where the same place holds something else.",
 ["json/*.go", "yaml/*.go", "tagvalue/*.go", "rdf/*.go", "convert/*.go", "spdx/v2/**/*.go", "spdxlib/*.go", "builder/*.go", "idsearcher/*.go", "utils/*.go", "licensediff/*.go", "reporter/*.go"],
 [("whole library", "whole repository")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
