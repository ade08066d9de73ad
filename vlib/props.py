"""What each property's check verifies: functions under contract, theory files,
what the bounded stand-in covers, and what is assumed."""

import os

ASSUMPTIONS = [
    "go2v (tool/go2v) translates the Go source it reads faithfully; it was tested on mutated code and refuses what it does not know",
    "Verus 0.2026.09.13 and Z3 are sound",
    "machine integers are exact two's complement (nothing is treated as mathematical); no slice or string has 2^48 elements or more",
    "inner slices of entries (flags, comments, locations, plural forms) passed as inputs do not share backing arrays with each other",
    "library functions named in trusted_base behave as the contracts/prelude.rs axioms say",
    "function values passed by callers terminate, do not panic and are functions of their arguments",
    "log output is not observed",
    "files: paths that differ name different files, and nobody else changes files while a compiler writes one",
]

E = "po.Entries."
RESOLVE = [E + n for n in "Solve,SolveFunc,CleanDuplicates,HasDuplicates,CatchDuplicateEntries".split(",")]
MERGERS = ["po.SolveMerge", "po.MergeUsingPriorAsBase", "po.MergeUsingPriorityOrFallback", "po.MergeIfInPriorityList", "po.MergeAndMarkObsoleteIfNotPrioritized"]
LOOKUP = [E + n for n in "Index,IndexByUnifiedID,ContainsUnifiedID,CutHeader,CleanFuzzy,CleanObsoletes,CleanEmpties,BestIDRatio".split(",")] + ["po.NewFile", "po.Entry.HasComments", E + "IndexFunc", E + "ContainsFunc", E + "FuzzyFind", E + "BestStrRatio", "po.EntryIDMatchRatio", "po.EntryStrMatchRatio", "po.File.Set", "po.File.Load", "po.File.LoadByUnifiedID", "po.PluralEntries.Solve", "slices.Contains", "slices.ContainsFunc", "slices.Equal", "slices.Index", "slices.Delete"]
MOWRITE = ["compile.MoCompiler." + n for n in "writeTo,ToWriter,ToBytes".split(",")]
MOREAD = ["parse.makeEntry"] + ["parse.MoParser." + n for n in "error,contains,defineOrder,makeEntries,Parse".split(",")]




def _fns(spec):
    """The functions with a contract in that file."""
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", spec)
    return [l.split()[1].split("(")[0] for l in open(p) if l.startswith("func ")]


MOOPEN = [f for f in _fns("open.vspec") if "Mo" in f]
POOPEN = [f for f in _fns("open.vspec") if "Po" in f]
ORDER = [E + "Sort", E + "SortFunc", E + "PrepareSorter", "po.SortMode.SortMethod", "po.PluralEntries.Sort", "po.PluralEntries.IsSorted", "po.Locations.Sort"]
ORDER += [E + "IsSorted", E + "IsSortedFunc"] + ["po.%s.%s" % (t, m) for t in ("Locations", "PluralEntries") for m in ("IsSortedFunc", "SortFunc")] + ["po.Locations.IsSorted", "po.CompareEntriesFunc", "po.CompareLocationsFunc"]
EQUAL = ["po.%s.Equal" % t for t in "PluralEntry,PluralEntries,Location,Locations,Entries,File".split(",")] + ["util.equal", "util.sliceEqual", "util.structEqual"]
CATALOGUES = ["po.Entries", "*po.File", "po.File"]  # what a one-call writer accepts
MOONE = ["compile.DefaultMoConfig", "compile.NewMo"] + ["compile.MoTo%s[%s]" % (n, t) for n in ("Writer", "Bytes", "File") for t in CATALOGUES]
POONE = ["compile.DefaultPoConfig", "compile.NewPo"] + ["compile.PoTo%s[%s]" % (n, t) for n in ("Writer", "Bytes", "File", "String") for t in CATALOGUES]
POWRITE = _fns("powrite.vspec")
POREAD = _fns("poread.vspec")
CONFIG = _fns("config.vspec") + [f for f in POWRITE + POREAD if f.endswith("WithOptions")]
HEADER = _fns("header.vspec")
EXTRACT = [f for f in _fns("extract.vspec") if f != "util.FindLineFromReader"]  # generic: proved where it is called

PROPS = {
    "C01": {
        "note": 'The writer is proved to produce mo_file (every output equation, all catalogues), and lemma_mo_file proves that such a file is well formed: header, tables, NUL-terminated strings inside the file, prime hash table larger than the number of messages, every message reached by probing. Hash, primality and probing are proved on the real functions, termination included.',
        "fns": ["util.PJWHash", "util.IsPrime", "util.NextPrime", "compile.buildHashTable", "po.Entry.Hash", "po.Entry.FullHash"] + MOWRITE + ["po.Entry.UnifiedID", "po.Entry.FullUnifiedID", "po.Entry.UnifiedStr"],
        "theories": ["movalid.rs"],
        "bounded": ["the bytes written once more by an independent reader and, where installed, GNU msgunfmt, on random catalogues; the option setters"],
    },
    "C02": {
        "note": 'The writer is proved to write the messages mo_entries(catalogue) and lemma_mo_messages proves these to be exactly one message per active key, that of its first active entry, in strictly ascending order. NewMo, the one-call functions MoTo... (each instance) and ToFile are proved too, the latter against a model of the file system: a file written without an error holds exactly these bytes, no other file changes, and without force a file that is there is left alone.',
        "fns": MOWRITE + [E + n for n in "CleanFuzzy,CleanObsoletes,CleanDuplicates,Solve,SortFunc".split(",")] + ["po.Entry.UnifiedID", "po.Entry.FullUnifiedID", "po.Entry.UnifiedStr", "po.Entry.IsFuzzy", "compile.MoCompiler.ToFile"] + MOONE,
        "theories": ["movalid.rs", "onecall.rs"],
        "bounded": ["failing writers of every kind; all of the property once more on the real code"],
    },
    "C03": {
        "note": 'lemma_round_trip proves over the contracts of writer and reader that a compiled catalogue of well formed messages is read back, for every catalogue and either byte order, the reader finding the byte order itself.',
        "fns": MOREAD + MOWRITE,
        "theories": ["roundtrip.rs"],
        "bounded": ["reading and writing through files and the option setters"],
    },
    "C04": {
        "note": 'Parse is proved for every byte sequence: no panic, tables and strings read only inside the file, result and errors determined by the bytes and the configuration alone, the bytes left alone. So are the constructors and the one-call functions that read paths, open files, readers and byte slices.',
        "fns": MOREAD + MOOPEN,
        "theories": ["moread.rs"],
        "bounded": ["allocation (measured); all of the property once more on the real code"],
    },
    "C05": {
        "note": "The writer is proved, function by function, to write exactly the text po_document says, for every catalogue and every setting without highlighting; so are NewPo, the one-call functions PoTo... (each instance) and ToFile (over a model of the file system); lemma_unesc proves that every quoted text says what was written and lemma_esc_safe that no byte in it ends the quotes or the line. The reader's functions are proved against the reader's specification rd_parse over the grammar of the participle library (assumed). That the two fit together is checked bounded, on the real code.",
        "fns": POWRITE + POREAD + POONE + ["compile.PoCompiler.ToFile"],
        "theories": ["potext.rs", "poread.rs", "onecall.rs"],
        "bounded": ["the round trip itself through the real parser library (its lexer and grammar are outside the verified subset), files"],
        "assumptions": ["strings are unquoted as Go's strconv.Unquote does (participle.Unquote)", "highlighting (colours of the terminal) is off"],
    },
    "C06": {
        "note": "Every function of the PO reader is proved for all bytes and settings: no panic, termination (also of reading the obsolete entries with another parser), the result and the errors are those of rd_parse and rd_ok, functions of the text and the settings; the parser's text and settings are left alone. The constructors and one-call functions for paths, open files, readers, strings and byte slices are proved as well. The grammar library's parser is assumed (ax_po_syntax); it and the caller's spare bytes are checked bounded, on the real code.",
        "fns": POREAD + POOPEN + ["slices.Delete", "slices.DeleteFunc", E + "Index", E + "CleanDuplicates"],
        "theories": ["poread.rs"],
        "bounded": ["the participle parser and lexer on arbitrary bytes; that the bytes behind the caller's slice are left alone"],
        "assumptions": ["participle's parser returns without panic, comment tokens start with '#', and a text that ends with the marker has an entry (ax_po_syntax)"],
    },
    "C07": {
        "note": 'Every contract of the resolving, reporting and merging functions is discharged for all lists and all merge rules; the same contracts run on the real code on a bounded sample (including shared storage, which the proof assumes away).',
        "fns": RESOLVE + MERGERS + ["po.Entry.UnifiedID"],
        "theories": ["order.rs"],
        "bounded": ["all of the property once more on random lists of up to 14 entries, including aliasing between the input lists (assumed away in the proof)"],
    },
    "C08": {
        "note": "MergeWithConfig, Merge, the helpers and every option are proved against a specification of the merged list for all catalogues and configurations; lemma_merge (with lemma_merge_start) proves that list has one entry per key, every template message, and every old and new message as stated. Sorting in each mode (PrepareSorter, SortMethod, the closures they return) is proved relative to the assumed contract of the standard library's SortFunc.",
        "fns": _fns("merge.vspec") + ["po.SortMode.SortMethod", E + "PrepareSorter", "po.SolveMerge", "po.EntryIDMatchRatio", E + "Solve", E + "BestIDRatio", E + "ContainsUnifiedID", E + "IndexByUnifiedID"],
        "theories": ["merge.rs"],
        "bounded": ["all of the property once more on the real code, with storage shared between and behind the inputs"],
        "assumptions": ["the similarity of two texts is an arbitrary number (third-party library)"],
    },
    "C09": {
        "note": "MsgcatMergeFiles, every helper and every option are proved against a specification of the concatenated list for all catalogues and bounds; lemma_cat (with lemma_cat_fold, lemma_cat_select) proves that list holds each key once with its number of occurrences and first file, the first message or what every occurrence says, exactly when it occurs as often as asked for.",
        "fns": _fns("cat.vspec") + ["po.Entry.UnifiedID", "po.Entry.FullUnifiedID", "po.Entry.UnifiedStr", "slices.DeleteFunc", "slices.Contains", "slices.Equal"],
        "theories": ["cat.rs"],
        "bounded": ["all of the property once more on the real code, the same file given twice and storage behind the inputs included"],
        "assumptions": ["no file is nil; the files hold fewer than 2^63 messages together"],
    },
    "C10": {
        "note": "All comparators are proved total preorders and sorting is proved relative to the assumed contract of the standard library's SortFunc; the sort modes are proved to sort by the comparator they stand for.",
        "fns": ORDER,
        "theories": ["order.rs", "merge.rs"],
        "bounded": ["iterator variants; the sorting algorithm of the standard library (assumed in the proof)"],
    },
    "C11": {
        "note": "From the reading of paths, readers and open files to the catalogue: every function of the extraction is proved, for every syntax tree, against a specification written over go/ast (ex_walk, file_messages, paths_catalogue). lemma_exact: without extract-all there is one message for each call that counts, in order, and nothing else; lemma_all_shown: with it every literal with text, import paths apart, is in some message.",
        "fns": EXTRACT,
        "theories": ["extract.rs"],
        "bounded": ["go/parser and ast.Inspect themselves, the walk of real directories, and all of the property once more on generated Go programs"],
        "assumptions": ["what compiling makes sure of: calls of the package's functions have the arguments they need, of string type (calls_ok)", "shape of the trees go/parser gives (ax_tree_shape)", "a Parser's files are made by its constructors: each holds the Parser's own configuration and is an object of its own", "files do not change, nor does the working directory, while they are read"],
    },
    "C12": {
        "note": "Applying, restoring and every option are proved for all configurations and option lists; every ...WithOptions method is proved to work under the options applied in order and to give its receiver back unchanged, those that write files over a model of the file system.",
        "fns": CONFIG,
        "theories": ["config.rs", "mo.rs"],
        "bounded": ["all of the property once more on the real code, histories of applying and restoring, failing operations"],
        "assumptions": ["the private field holding the saved configuration only ever holds what ApplyOptions put there", "header pointers given as options are not nil in the proof (nil ones: bounded)"],
    },
    "C13": {
        "note": "Lookup, update, registering, the header text and reading it back, configurations and every header option are proved for all headers; lemma_header_round_trip proves that headers whose names and values fit on their lines come back exactly, lemma_h_set that an update changes one field only, lemma_cfg_fields that a header holds what its configuration says. The number of plural forms goes through a regular expression: no panic is proved, the value is checked bounded.",
        "fns": HEADER,
        "theories": ["header.rs"],
        "bounded": ["the number and expression of plural forms, media type and charset (regular expression and mime package); all of the property once more on the real code"],
        "assumptions": ["the two field arrays of a header and its copies are not shared with headers edited at the same time"],
    },
    "C14": {
        "note": "Both compilers are proved to write a text that is a function of the catalogue's entries and the settings (po_document, mo_file), whatever was compiled before, and to leave the entries alone: the lists they sort and cut must be their own (a precondition of every function that writes into a list).",
        "fns": POWRITE + MOWRITE + [E + n for n in "CleanFuzzy,CleanObsoletes,CleanDuplicates,Solve,SortFunc,CutHeader,Index".split(",")] + ["slices.Delete", "slices.DeleteFunc", "po.Entry.UnifiedStr", "compile.MoCompiler.ToFile", "compile.PoCompiler.ToFile"] + MOONE + POONE,
        "theories": ["powrite.rs", "movalid.rs", "onecall.rs"],
        "bounded": ["storage of inner lists shared between catalogues; sequences of compilations; failing writers"],
        "assumptions": ["highlighting (colours of the terminal) is off"],
    },
    "C15": {
        "note": 'All lookups and filters are proved for all lists; aliasing of results with inputs is covered by the bounded run only.',
        "fns": LOOKUP + ["po.Entry.FullUnifiedID", "po.Entry.UnifiedID", "po.Entry.UnifiedStr"],
        "theories": ["order.rs"],
        "bounded": ["aliasing of filtered lists with their input, iterator variants"],
    },
    "C16": {
        "note": "The validators are proved for all catalogues to report exactly the repeated keys (each against its first occurrence) and the messages that are singular and plural at once, wrapped with the file's name; and the validators of header settings and compiler settings to report exactly the broken rules.",
        "fns": ["po.Entry.Validate", E + "Validate", "po.File.Validate", "po.File.CatchDuplicateEntries", E + "CatchDuplicateEntries", E + "HasDuplicates", "po.Entry.UnifiedID", "po.HeaderConfig.Validate", "compile.PoConfig.Validate", "po.DuplicatedEntryError.Error"] + ["po.%s.Unwrap" % t for t in ("InvalidEntryError", "InvalidEntryAtIndexError", "InvalidFileError")],
        "theories": ["validate.rs"],
        "bounded": ["all of the property once more on the real code: the reports' kinds, indices and texts, and that the file is left alone"],
    },
    "C17": {
        "note": "Comparing messages is proved for all pairs to be equality of key, plural id, translation, flags, obsolete mark and plural forms up to their order: reflexive, symmetric and transitive, true for copies. The reflective comparison behind the equality of lists, files, locations and plural forms is proved too, the table of pairs already seen included: it is true exactly of values that agree in every field and element.",
        "fns": ["po.Entry.Equal", "po.Entry.UnifiedID", "po.Entry.FullUnifiedID", "po.Entry.UnifiedStr", "po.Entry.HasContext", "slices.CompareFunc", "slices.Equal", "slices.Clone", "po.PluralEntries.Sort", "po.PluralEntries.IsSorted"] + EQUAL,
        "theories": ["equal.rs"],
        "bounded": ["all of the property once more on the real code: lists, files, locations and plural forms against a field-wise oracle, on pairs and triples of generated values"],
        "assumptions": ["values of one type at one address are the same value while two values are compared; reflection looks at memory as contracts/prelude.rs (rv_...) says"],
    },
    "C18": {
        "note": "The command functions of msgofmt (without -D), msgounfmt, msgocat and msgomerge are proved, callees included, against a model of the file system: a command that ends without an error has written exactly the bytes of the library's result for these inputs and settings to its output, no other file is changed, and when an input cannot be opened, parsed or validated the command ends with an error and no file is changed. The functions that turn flags into settings are proved as far as contracts/cli*.vspec say; xgotext (RunE, processInput, readFiles, readFilesFrom, processOutput, join, initConfig) is proved the same way, for sources whose calls of the library have the arguments go/types would require; the rest of the flag handling and msgofmt -D are bounded or left out.",
        "fns": [f for v in ("cli.vspec", "clicat.vspec", "climerge.vspec", "clixgo.vspec") for f in _fns(v)] + ["parse.PoParser.Parse"],
        "theories": ["climerge.rs", "clixgo.rs"],
        "bounded": ["the five programs (and the wrapper gotext-tools) built and run on generated files, standard input and flags: status, standard output and every file in the directory compared with the library's result on the same files", "the parsing of flags by cobra, and the settings of msgounfmt and msgocat other than those under contract: bounded only; msgofmt -D is not covered"],
        "assumptions": [
            "cobra gives the flag variables the values on the command line, calls the functions under contract with the arguments, and Execute ends with status 1 exactly when they return an error",
            "the extraction (tool/go2v/cli.go) passes the flag and settings variables of a command as parameters and results, takes the function literal of RunE or PreRun as a function, drops the command's own parameter, the check of the number of arguments cobra makes, and takes the question whether standard output is a terminal as a parameter; nothing else is dropped",
            "a file opened for reading and writing bears the path it was opened with and is read back as it stood; standard input is named at most once; colours are off; files do not change while a command reads them; the output of msgomerge is not the file it updates",
        ],
    },
}


def trusted_base(pr, cfg):
    out = ["go2v translation", "Verus/Z3", "contracts/prelude.rs: model of the Go run time and library"]
    out += ["library model: " + x for x in pr.lib if not x.startswith("fv:")]
    out += ["assumed contract: %s (%s)" % (k, v) for k, v in sorted(pr.trusted.items())]
    return out


NOT_BUILT = "no check built yet"
NOT_APPLICABLE = {i: NOT_BUILT for i in ("C%02d" % n for n in range(1, 19))}
