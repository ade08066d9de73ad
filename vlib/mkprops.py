#!/usr/bin/env python3
"""Writes properties.jsonl (the statements are maintained here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Compiled MO files are well formed and every message is found",
 "For every catalogue and either byte order, the compiled binary catalogue starts with the MO magic number in that byte order and its header, both string tables, the optional hash table and all strings lie inside the file exactly where the tables say, NUL-terminated, with the original strings strictly ascending bytewise. If a hash table is written it has a prime size larger than the number of messages, and probing it the way GNU gettext does (hash of the bytes of context, EOT and id; second hash as increment) reaches every message. Compilation always terminates.",
 ["inputs", "configurations"], "every list of entries whose texts have no NUL byte and whose MO image is below 4 GiB, every byte order, with and without hash table",
 "the tests compile three fixed messages; offsets, table sizes, prime search and collision probing depend on the number, length and hash values of the messages",
 ["pkg/po/compile/mo_compile.go", "internal/util/hash.go", "internal/util/prime.go", "internal/util/bytes.go", "pkg/po/entry.go"],
 [("offset arithmetic and section order", "pkg/po/compile/mo_compile.go: writeTo"), ("open addressing with double hashing", "pkg/po/compile/mo_compile.go: buildHashTable"), ("prime table size", "internal/util/prime.go"), ("hash function", "internal/util/hash.go"), ("magic number and byte order", "internal/util/bytes.go")],
 observe=["the bytes written by the MO compiler"])
prop("C02", "The compiled MO holds exactly the catalogue's active messages",
 "With the default options the binary catalogue holds exactly one message for each distinct (context, id) that remains after obsolete and fuzzy entries are left out and repeated ones are reduced to their first occurrence, and no other. Each message's original string is [context EOT] id [NUL plural id] and its translation is the entry's translation, the plural forms joined by NUL in the order of their indices. Writing to a file, a writer or memory gives the same bytes, and a writer's failure is reported.",
 ["inputs", "configurations"], "every list of entries",
 "the tests look at three well-behaved messages, without fuzzy, obsolete, repeated or unordered plural forms",
 ["pkg/po/compile/mo_compile.go", "pkg/po/compile/mo_compiler.go", "pkg/po/entries.go", "pkg/po/entry.go"],
 [("cleaning before compilation", "pkg/po/compile/mo_compile.go: writeTo"), ("message keys and plural text", "pkg/po/entry.go: FullUnifiedID, UnifiedStr")],
 observe=["the bytes written by the MO compiler"])
prop("C03", "Reading a compiled MO back gives the same messages",
 "For every catalogue of distinct, well-formed messages, parsing the compiled binary catalogue gives back the messages in key order with the same id, context, plural id, translation and plural forms, for either byte order and without naming the byte order to the reader. Well-formed means that texts have no NUL byte, contexts, and ids and plural ids of messages without context, no EOT byte, plural forms are numbered 0,1,2,... and are present exactly when a plural id is, and not all empty.",
 ["inputs", "configurations"], "every such catalogue, both byte orders, with and without hash table",
 "the round trip is tested for one catalogue of three messages in the machine's own byte order",
 ["pkg/po/parse/mo_parser.go", "pkg/po/compile/mo_compile.go", "internal/util/bytes.go"],
 [("tables decoded by the byte order of the magic number", "pkg/po/parse/mo_parser.go: defineOrder, Parse"), ("splitting keys and plural forms", "pkg/po/parse/mo_parser.go: makeEntry")])
prop("C04", "The MO reader is safe on arbitrary bytes",
 "For every byte sequence given as a binary catalogue, parsing returns without panic, without allocating a table or a string beyond what the input holds, and either reports an error or returns messages whose texts are exactly the byte ranges the file's tables name. Parsing the same bytes again with the same reader gives the same result, and the caller's bytes are left as they were.",
 ["inputs"], "every byte sequence",
 "the tests only feed files produced by the compiler; counts, lengths and offsets of a damaged file are arbitrary 32-bit numbers",
 ["pkg/po/parse/mo_parser.go", "internal/util/bytes.go"],
 [("bounds of tables and strings", "pkg/po/parse/mo_parser.go: Parse, makeEntries")])
prop("C05", "PO text written by the compiler reads back as the same catalogue",
 "For every catalogue of messages with distinct keys, the PO text the compiler writes is read by the PO parser without errors and gives back the same messages, the active ones first and then the obsolete ones, each in their order: id, context, plural id, translation, plural forms with their indices, flags, obsolete mark, previous texts, comments, extracted comments and source locations, whatever characters the texts contain. Every line break, quote, backslash and control character in a text is written as an escape inside a quoted string, so that no text can break out of its line. A managed header comes back once, as the first message, with its fields.",
 ["inputs", "configurations"], "every catalogue whose texts are valid UTF-8, whose comments are single lines that do not start with blanks, whose flags have no commas, line breaks or outer blanks, whose file names have no white space, whose plural messages have forms and no translation of their own; word wrap on and off, every obsolete prefix that no other comment starts with (on both sides), location settings as they say, without the setting that comments fuzzy messages out",
 "the tests round-trip a handful of ASCII messages; quoting depends on every byte and on where lines are wrapped",
 ["pkg/po/compile/po_compiler_format.go", "pkg/po/compile/po_compiler_util.go", "pkg/po/compile/po_compiler.go", "internal/util/po_parse.go", "pkg/po/parse/po_parser.go"],
 [("escaping", "pkg/po/compile/po_compiler_util.go"), ("line prefixes and wrapping", "pkg/po/compile/po_compiler_format.go"), ("grammar and unquoting", "internal/util/po_parse.go, pkg/po/parse/po_parser.go")])
prop("C06", "The PO parser is safe on arbitrary text and leaves it alone",
 "For every byte sequence given as PO text the parser returns without panic, either with an error or with a catalogue. Parsing is a function of the text and the options: parsing again with the same parser gives the same catalogue and errors, and the caller's bytes, including what lies behind the slice's end, are left as they were.",
 ["inputs", "histories"], "every byte sequence, every option, any number of repeated parses",
 "the tests parse well-formed samples once each",
 ["pkg/po/parse/po_parser.go", "internal/util/po_parse.go", "internal/util/charset.go", "internal/util/skip.go"],
 [("comment parsing", "pkg/po/parse/po_parser.go: parseComments"), ("safe template", "pkg/po/parse/po_parser.go: Parse")])
prop("C07", "Resolving duplicates keeps one entry per key and loses none",
 "Resolving the repeated entries of a catalogue (context, id) with a merge rule leaves exactly one entry for each key that occurred, in the order of first occurrence, unless the rule drops it: the rule is applied to the occurrences in order. Dropping duplicates, reporting them and asking whether there are any all agree on what a repeated key is, every later occurrence being reported against the first. The predefined merge rule keeps the source locations of both entries and takes each other part from one of the two.",
 ["inputs"], "every list of entries, every merge rule",
 "the tests resolve one list of a few entries; whether a key is lost depends on how often and in what order keys repeat",
 ["pkg/po/entries.go", "pkg/po/merge.go", "pkg/po/entry.go"],
 [("index of the first occurrence", "pkg/po/entries.go: SolveFunc, CatchDuplicateEntries, HasDuplicates"), ("choice of parts", "pkg/po/merge.go: SolveMerge")])
prop("C08", "Merging with a template keeps translations and follows the template",
 "Merging a translated catalogue with a new template yields every message of the template, and every message of the catalogue, with one entry per key (context, id). A message whose key the template has keeps its translation, translators' comments and flags, and takes the template's source positions, extracted comments and obsolete mark. A message that left the template keeps its translation and comments and is marked obsolete, unless fuzzy matching lets it become a similar message of the template that the catalogue does not have (it then takes that message's id, context and plural id and is marked fuzzy), or, without fuzzy matching, keeping previous ids is asked for (it is then marked fuzzy). A message only the template has stays as it is there, or with fuzzy matching has a similar old message's translation and is marked fuzzy; without fuzzy matching and keeping of previous ids no message is marked fuzzy. The header stays that of the catalogue. Sorting only reorders. Neither input is modified.",
 ["inputs", "configurations"], "every pair of catalogues, every merge option",
 "the tests merge two small catalogues; which translation goes where depends on all keys of both",
 ["pkg/po/merge.go", "pkg/po/cmp.go", "pkg/po/entries.go"],
 [("lookup of the old translation and fuzzy match", "pkg/po/merge.go")])
prop("C09", "Concatenating catalogues keeps every message once",
 "Concatenating catalogues yields each key that occurs in them exactly once, in order of first occurrence, provided it occurs more often than the lower and less often than the upper bound asked for. When the first one is asked for, it is the first message with that key, as it is. Otherwise it is of the kind (singular or plural) of the first one and carries the comments, previous texts, locations and flags of all; a translation they agree on (or that only some have) is kept, different ones are all kept, each under a file's name, and the message is fuzzy; it is obsolete only if all of them are. The result depends on the inputs only and the inputs are not modified.",
 ["inputs", "configurations"], "every list of catalogues, every bound",
 "the tests concatenate two small files without conflicts",
 ["pkg/po/msgcat_merge.go"],
 [("grouping by key and combining", "pkg/po/msgcat_merge.go")])
prop("C10", "All orderings are total preorders and sorting is a permutation",
 "Every comparison offered for messages, plural forms and locations is a total preorder (antisymmetric in sign and transitive) that orders by what it names: plural forms by index then text; locations by cleaned file name then line; messages with obsolete ones last, then fuzzy ones, then by location, then by key. Sorting with any of them returns a permutation in that order, and the is-sorted tests agree with it.",
 ["inputs"], "all values, extreme line numbers and indices included",
 "the tests sort a few small lists; transitivity and overflow are statements about all triples of values",
 ["pkg/po/cmp.go", "pkg/po/entries.go", "pkg/po/plurals.go", "pkg/po/locations.go", "internal/slices/slices.go"],
 [("comparators", "pkg/po/cmp.go"), ("lexicographic comparison of lists", "internal/slices/slices.go: CompareFunc")])
prop("C11", "Extraction finds exactly the translatable calls of Go sources",
 "From every Go file that compiles, extraction collects exactly the calls of the gettext package's translation functions (written as name.Function, where name is any of the file's names for the package, renamed imports included, and not something else the file declares) whose id argument is a non-empty string literal: one message per call, in order, with the literal's value as id, the values of the string literals at the function's plural and context positions, and a location naming the file and the line the id literal starts on. Unless turned off, the header stands in front: the one given, or else the one made from the header settings. With extract-all, in addition every other non-empty string literal that is not an import path becomes a message of its own, so that none is lost. Go files excluded by configuration contribute nothing, each other Go file under the given paths is read once, and a path or file that cannot be read or parsed is reported.",
 ["programs", "configurations"], "every Go source file and configuration",
 "the tests extract from a few short snippets",
 ["pkg/go/parse/process.go", "pkg/go/parse/file.go", "pkg/go/parse/parser.go", "pkg/go/parse/config.go", "internal/util/util.go"],
 [("which calls count and which argument is what", "pkg/go/parse/process.go"), ("line numbers", "internal/util/util.go")])
prop("C12", "Options given for one operation do not outlast it",
 "Every operation that takes temporary options (parsing or compiling, PO, MO or Go sources, to bytes, writer or file) works with those options applied in order to the current configuration and leaves the configuration afterwards exactly as it was before, also when it fails and when an option replaces the whole configuration. Restoring is possible at any time without panic and each option changes only the setting it names.",
 ["histories", "configurations"], "every sequence of operations and options",
 "the tests use one set of options per object; what survives shows in the next operation only",
 ["pkg/po/compile/po_config.go", "pkg/po/compile/mo_config.go", "pkg/po/parse/po_config.go", "pkg/po/parse/mo_config.go", "pkg/go/parse/config.go"],
 [("saved configuration", "ApplyOptions/RestoreLastCfg of every configuration")],
 state=[("lastCfg", "the configuration before the last ApplyOptions", "the configuration structs")])
prop("C13", "Headers survive conversion and edits change only their field",
 "Turning a header into the header message and reading it back gives the same fields in the same order with the same values; setting a field makes a later lookup of that name return the value and leaves every other field alone. A header made from settings holds them and gives them back (character set, media type, MIME version and the number of plural forms included). The number of plural forms a header declares is read back as declared and a malformed header never causes a panic.",
 ["inputs"], "every list of fields whose names and values have no line break (and names no colon)",
 "the tests read one default header",
 ["pkg/po/header.go", "pkg/po/header_options.go"],
 [("header text", "pkg/po/header.go")])
prop("C14", "Compiling leaves the catalogue alone and is repeatable",
 "Compiling a catalogue to PO or MO, to bytes, a writer or a file, with any options, leaves the catalogue (order of entries, plural forms, comments, also of other catalogues sharing its storage) as it was. Compiling it again gives the same bytes, whatever was compiled in between.",
 ["inputs", "histories", "configurations"], "every catalogue, every option set, every sequence of compilations",
 "the tests compile once and look at the output only",
 ["pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compile.go", "pkg/po/compile/po_compiler_format.go", "pkg/po/entries.go"],
 [("working on copies", "pkg/po/compile/po_compiler.go, pkg/po/entries.go")])
prop("C15", "Looking up and filtering entries is exact",
 "Looking up a message by context and id or by its combined key returns the first entry with that key, and none (empty text, -1) exactly when there is none; setting one replaces it in place or appends it. Each filter (fuzzy, obsolete, empty ids, header) keeps exactly the entries without that mark, in order. Repeated plural forms are reduced to first occurrences and the best match, by id or by translation, is the first entry with the highest positive similarity; the similarity of two messages is the average over their ids, the contexts if either has one and the plural ids if both are plural (or their translations and the plural forms both have), and the fuzzy search finds the first entry whose id and context are both at least 80 similar.",
 ["inputs"], "every list of entries, every key",
 "the tests use one or two entries per call",
 ["pkg/po/entries.go", "pkg/po/file.go", "pkg/po/plurals.go", "internal/slices/slices.go", "internal/util/average.go"],
 [("filters and lookups", "pkg/po/entries.go"), ("generic slices functions", "internal/slices/slices.go")])
prop("C16", "Validation reports a problem exactly when there is one",
 "Validating a file reports an error for each repeated key and for each message that breaks a rule the validator names, and nothing for a catalogue without repeated keys that obeys them. Each report unwraps to its cause. Validation does not change the file. Validating the settings of a header reports each broken rule (count and expression of the plural forms go together, the media type is text/plain, the encoding 8bit, the character set known) and no other, and validating the settings of the PO compiler reports locations that are both left out and asked for.",
 ["inputs"], "every catalogue",
 "the tests validate single examples",
 ["pkg/po/file.go", "pkg/po/entry.go", "pkg/po/entries.go", "pkg/po/errors.go"],
 [("validators", "pkg/po/file.go, pkg/po/entry.go")])
prop("C17", "Equality of catalogues and messages is an equivalence",
 "Comparing messages, lists of messages, plural forms, locations or files for equality is reflexive, symmetric and transitive, is true for copies, and is false for two values that differ in the key, the translation, a plural form or the obsolete mark; lists, files, plural forms and locations are equal exactly when they agree in every field and element.",
 ["inputs"], "all pairs and triples of values",
 "the tests compare equal values, and one pair of different ones",
 ["pkg/po/entry.go", "pkg/po/entries.go", "pkg/po/file.go", "internal/util/equal.go"],
 [("field-wise comparison", "pkg/po/entry.go: Equal"), ("reflective comparison", "internal/util/equal.go")])
prop("C18", "The command line tools write what the libraries produce",
 "Each command line program (msgofmt without -D, msgounfmt, msgocat, msgomerge, xgotext) writes to the requested output exactly the bytes the corresponding library operation produces for the given files and flags, changes no other file (msgomerge --update: the updated file too), writes nothing but the result on standard output, and ends with a failure status without touching any file when an input cannot be read, parsed or, where the program validates it, is not valid.",
 ["inputs", "configurations"], "every set of input files and flags",
 "the command line packages have no tests",
 ["cli/msgofmt/cmd/root.go", "cli/msgomerge/cmd/root.go", "cli/msgocat/cmd/run.go", "cli/msgounfmt/cmd/root.go", "cli/xgotext/cmd/root.go"],
 [("flag handling", "cli/*/cmd")])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
