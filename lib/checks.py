"""What each check runs: parts (harness, modules of /repo it is built from, case counts)."""
COMMON = ['common']
import build as _B
ALLMODS = _B.ALLMODS
NOT_APPLICABLE = {}
T = 'runtime monitoring: '
CHECKS = {
 'C01': {'parts': [{'harness': 'c01', 'mods': COMMON, 'quick': 16000, 'thorough': 800000}],
         'technique': T + 'lockstep set-of-edges model over random histories of additions and queries under ASan/UBSan',
         'note': 'histories of up to 30 (thorough 60) operations on texts of up to a few dozen characters',
         'rule': 'a case is a random history of edge additions, repeats, discards, appends and queries on one lattice, followed by a comparison of every query with the model; non-trivial: at least three edges'},
 'C02': {'parts': [{'harness': 'c02', 'mods': COMMON, 'quick': 60000, 'thorough': 3000000}],
         'technique': T + 'text model and path search over random histories of appends, annotations and corrections under ASan/UBSan',
         'note': 'texts of up to a few dozen characters; corrections of separate stretches only',
         'rule': 'a case is a random history of appends, default symbol edges and overlaid edges (checked at every position), or a set of corrections of separate stretches whose every subset must be spelled by a path of symbol edges; non-trivial: text of at least two bytes / at least one accepted correction'},
 'C03': {'parts': [{'harness': 'c03', 'mods': COMMON, 'quick': 40000, 'thorough': 1500000}],
         'technique': T + 'std::set algebra as the oracle over random tag sets and filters under ASan/UBSan',
         'note': 'up to the 64 tags the system admits; filters of up to four alternatives of up to three tags',
         'rule': 'a case is one tag manager with 2-64 tag names, and a dozen rounds of random tag sets and filters built in different ways and compared with set algebra; non-trivial: more than two tags'},
 'C04': {'parts': [{'harness': 'c04', 'mods': COMMON, 'quick': 40000, 'thorough': 1500000}],
         'technique': T + 'record model over random histories of attribute writes and copies under ASan/UBSan',
         'note': 'up to 128 attribute names (the limit) and a few dozen writes per manager; values without NUL bytes',
         'rule': 'a case is one manager and a random history of items created, copied, derived and written to, each compared with a plain record, and all pairs compared for equality and hash; non-trivial: at least one attribute write'},
 'C05': {'parts': [{'harness': 'c05', 'mods': COMMON, 'quick': 60000, 'thorough': 2000000}],
         'technique': T + 'reference-model oracle (std::string) over random operation histories under ASan/UBSan',
         'note': 'bounded by the number and length of random histories; the model is std::string itself',
         'rule': 'a case is a random sequence of 3-25 operations on fragments of 1-3 growing sources, mirrored on std::string and compared through every accessor after each step; non-trivial: it derived, copied, assigned or appended at least one fragment'},
 'C10': {'parts': [{'harness': 'c10', 'mods': COMMON + ['formats-utt', 'formats-bracketing'], 'quick': 200000, 'thorough': 8000000}],
         'technique': T + 'round-trip and alphabet oracles over random byte strings under ASan/UBSan',
         'note': 'random byte strings biased to the special characters of each scheme; lengths up to a few dozen bytes',
         'rule': 'a case is one random byte string (biased to the special characters) per quoter, escaped, inspected, unescaped and joined, plus one arbitrary string unescaped; non-trivial: escaping changed the string (or it holds a backslash, for isEscaped)'},
 'C09': {'parts': [{'harness': 'c09', 'mods': COMMON + ['formats-psi'], 'quick': 20000, 'thorough': 1000000}],
         'technique': T + 'round-trip oracle (write, read, compare edge by edge, write again) over random lattices under ASan/UBSan',
         'note': 'lattices of up to 12 (thorough 24) edges over texts of up to 60 characters',
         'rule': 'a case is one random lattice written, read back and written again; non-trivial: at least two edges'},
 'C13': {'parts': [{'harness': 'c13', 'mods': COMMON + ['tools-datastructures-lexica'], 'quick': 12000, 'thorough': 600000}],
         'technique': T + 'std::map and std::vector models against stores, vectors and lexica, before and after saving and loading, under ASan/UBSan',
         'note': 'up to 2000 (thorough 20000) entries per store; keys without NUL bytes; an absent key is reported present with chance 2^-32 by design (32-bit fingerprints)',
         'rule': 'a case is one store, vector or lexicon filled with random entries, asked for everything it holds and for things it does not, saved, loaded and asked again; non-trivial: at least two entries'},
 'C06': {'parts': [{'harness': 'c06', 'mods': COMMON + ['tools-tokenizers-tp'], 'quick': 12000, 'thorough': 600000}],
         'technique': T + 'independent rule interpreter (own regular expression matcher and limit model) over random rule files and texts, under ASan/UBSan',
         'note': 'rule files of up to 8 (thorough 14) items with definitions, conditions, includes and here-documents; texts of up to 45 (thorough 120) characters per stretch',
         'rule': 'a case is one random rule file and limits, and up to four texts of one to three stretches tokenized with it and compared token by token with the model; non-trivial: at least two tokens expected'},
 'C07': {'parts': [{'harness': 'c07', 'mods': COMMON + ['tools-segmenters-srx'], 'quick': 20000, 'thorough': 800000}],
         'technique': T + 'independent SRX interpreter (own regular expression matcher and limit model) over random rule files and texts, under ASan/UBSan',
         'note': 'rule files of up to 3 sets of up to 5 rules; texts of up to 50 (thorough 120) characters per stretch; break points are compared where all readings of a rule agree (see DESIGN.md), the partition and the limits everywhere',
         'rule': 'a case is one random SRX file, language and limits, and up to four texts segmented with it and compared segment by segment with the model; non-trivial: at least two segments expected'},
 'C14': {'parts': [{'harness': 'c14', 'mods': COMMON + ['tools-datastructures-psi_query'], 'quick': 12000, 'thorough': 500000}],
         'technique': T + 'own subset-construction automata (canonical minimal DFAs) compared for language equality with the real automata after every operation, under ASan/UBSan',
         'note': 'expressions of up to 10 (thorough 14) operations over four symbols plus the wildcard; languages compared exactly, not by sampled words; word sets of up to 80 (thorough 300) words',
         'rule': 'a case is one program of automaton operations, one word set built incrementally, one multi-store or one regular expression; non-trivial: at least two operations and a non-empty language, two words, two entries or three characters'},
 'C11': {'parts': [{'harness': 'c11', 'mods': COMMON + ['formats-json-simple'], 'quick': 16000, 'thorough': 800000}],
         'technique': T + 'strict JSON parser and an independent selection of the annotations over random lattices and options, under ASan/UBSan',
         'note': 'lattices of up to about 40 edges over texts of up to 60 characters; nesting is compared for at most one higher-order tag, the elements and their order always',
         'rule': 'a case is one random lattice written with three random sets of options; non-trivial: at least three elements selected'},
 'C12': {'parts': [{'harness': 'c12', 'mods': COMMON + ['formats-simple', 'formats-bracketing'], 'quick': 16000, 'thorough': 800000}],
         'technique': T + 'independent selection of the annotations and of the bracket pairs, compared with the output byte by byte, over random lattices and options, under ASan/UBSan',
         'note': 'lattices of up to about 40 edges over texts of up to 60 characters; two higher-order tags: elements and order only; --disambig: text and membership of the brackets',
         'rule': 'a case is one random lattice written three times with random options by the simple or the bracketing writer; non-trivial: at least three elements or two bracket pairs'},
 'C15': {'parts': [{'harness': 'c15', 'mods': COMMON, 'quick': 16000, 'thorough': 600000}],
         'technique': T + 'own glob matcher over characters as the oracle, on random names and on random directory trees, under ASan/UBSan',
         'note': 'names of up to 12 (thorough 24) characters; trees of up to 7 directories and 12 files with symbolic links to files, dangling links and FIFOs; no links to directories',
         'rule': 'a case is a dozen random globs asked about random names, or a random tree searched with ten path globs and three file specifications with parameters; non-trivial: at least one match expected'},
 'C16': {'parts': [{'harness': 'c16', 'mods': COMMON + ['utf8case'], 'quick': 30000, 'thorough': 1000000}],
         'technique': T + 'case mappings taken from another Unicode implementation as the oracle, over all code points and random strings, under ASan/UBSan',
         'note': 'every code point below U+1D4C0 is converted once; the mappings are those of Unicode 6.0, the version of the tables; the Turkish dot rules are modelled for adjacent characters',
         'rule': 'a case is one string (the first 1200 cases together hold every code point below U+1D4C0) converted to lower, upper and title case as a whole, its head and its tail; non-trivial: some conversion changes it'},
 'C08': {'parts': [{'harness': 'c08', 'mods': COMMON + ['formats-txt', 'formats-utt'], 'quick': 20000, 'thorough': 800000}],
         'technique': T + 'model of the file (its lines, its segments) compared with every edge of the lattice read, over random files, under ASan/UBSan',
         'note': 'texts of up to 60 (thorough 200) characters, UTT files of up to 12 (thorough 25) lines with sentences, alternatives, omitted positions and lengths; inside sentences alternatives start where a segment starts',
         'rule': 'a case is one random plain text (read as lines or as a whole), one random UTT file, or one byte string looked at ahead of reading; non-trivial: at least two bytes or two segments'},
 'C17': {'parts': [{'harness': 'c17', 'mods': COMMON + ['server', 'http-server', 'mpfd-parser'], 'quick': 120000, 'thorough': 1500000}],
         'technique': T + 'independent reading of requests, forms and multipart bodies as the oracle, over random streams cut at random places, under ASan/UBSan',
         'note': 'requests of up to about 1 kB; header folding, a missing space after the colon and repeated lengths are left open by the model, but must not depend on the cuts',
         'rule': 'a case is one request (well formed, truncated or damaged) parsed whole and in four random splits, one multipart body parsed three times, or one form or upload sent through the request handler; non-trivial: a complete generated request or body'},
 'C18': {'parts': [{'harness': 'c18', 'mods': COMMON + ['server', 'http-server', 'mpfd-parser'], 'quick': 16000, 'thorough': 800000}],
         'technique': T + 'own decoding and path resolution over random document roots surrounded by marked secret files, under ASan/UBSan',
         'note': 'trees of up to 6 directories and 10 files; no symbolic links below the root; requests are handed to the request handlers directly (C19 goes over the network)',
         'rule': 'a case is eight requests to a random document root: existing files, directories, absent files and ways out of the root, encoded in random ways; non-trivial: at least one file served'},
 'C19': {'parts': [{'harness': 'c19', 'mods': ALLMODS, 'san': 'tsan', 'quick': 240, 'thorough': 12000},
                   {'harness': 'c19', 'mods': ALLMODS, 'quick': 240, 'thorough': 12000}],
         'technique': T + 'concurrent clients over loopback against a server in the same process, with a per-session model, under ThreadSanitizer and under ASan/UBSan',
         'note': 'pipelines of cheap processors; up to 12 clients and 8 worker threads',
         'rule': 'a case is 2-12 concurrent clients sending 4-12 requests each; identified by the order in which replies came; non-trivial: at least five replies'},
 'C25': {'parts': [{'harness': 'c25', 'mods': ALLMODS, 'quick': 12000, 'thorough': 400000}],
         'technique': T + 'answers of the real request handlers, read back by a JSON parser, an HTML text decoder and a script literal parser, against the same pipeline run directly, under ASan/UBSan',
         'note': 'pipelines of readers and writers; texts of up to a few dozen characters rich in quotes, markup, escapes and control characters; valid UTF-8; no NUL on pages',
         'rule': 'a case is one request to the JSON interface, the pipe page or the documentation page; non-trivial: a non-empty output was compared'},
 'C20': {'parts': [{'harness': 'c20', 'mods': ALLMODS, 'quick': 1600, 'thorough': 60000}],
         'technique': T + 'the processors run one by one, other spellings and cut pipelines as oracles for pipelines over random options and texts, under ASan/UBSan',
         'note': 'pipelines of readers, tokenizer, segmenter, normalizer, lemmatizer, selector and writers of up to 6 elements; texts of up to about 40 words',
         'rule': 'a case is one pipeline run through two spellings, against its processors run one by one, cut at the psi format, completed automatically, line by line or on text in another encoding; or a malformed pipeline; non-trivial: output of more than two bytes'},
 'C21': {'parts': [{'harness': 'c21', 'mods': ALLMODS, 'quick': 4000, 'thorough': 120000}],
         'technique': T + 'a monitor that views the whole lattice before and after every annotator of random chains, under ASan/UBSan',
         'note': 'texts of up to about 15 words; chains of up to 7 of the annotators whose data is in the repository',
         'rule': 'a case is one text, hand-made edges between the steps, and a chain of annotators; non-trivial: some annotator added an edge'},
 'C24': {'parts': [{'harness': 'c24', 'mods': ALLMODS, 'quick': 4000, 'thorough': 120000, 'budget': 90}],
         'technique': T + 'random, mutated and over-long documents through the readers, annotators and writers; the monitors are the sanitizers, a CPU time limit per case and a look at the whole lattice after every step',
         'note': 'documents of mostly up to 400 (some 4000, long ones 12000) bytes, made from the formats and from the documents in the repository; numbers in them have at most 4 digits',
         'rule': 'a case is one document read by one reader, up to four annotators and up to three writers; non-trivial: the document is not empty'},
 'C26': {'parts': [{'harness': 'c26', 'mods': COMMON + ['tiniconv', 'uchardet'], 'quick': 60000, 'thorough': 2500000}],
         'technique': T + 'iconv(3) as the oracle for conversions between all encodings listed, and for the text behind each detection, under ASan/UBSan',
         'note': 'texts of up to 80 characters and long ones of up to 210000 (thorough 350000) around the size of the internal buffer; code points that vendors define differently, CP939 and HZ are left out',
         'rule': 'a case is one random text in one encoding converted to and from UTF-8 and to another encoding, through converters with different defaults, damaged copies of it, a UCS-2 text with byte order marks, or one text whose encoding is detected; non-trivial: the bytes differ from the UTF-8 text'},
 'C22': {'parts': [{'harness': 'c22', 'mods': ALLMODS, 'quick': 40000, 'thorough': 400000}],
         'technique': T + 'an independent closure of the rules as written (no binarisation, own evaluation of conditions) against all phrases, analyses, scores and chosen trees of the real parser, under ASan/UBSan',
         'note': 'grammars of up to 6 rules of up to 6 symbols, sentences of up to 5 words with up to 11 terminal edges; no tree specifications, extra attributes, hooks or special rules; constants 0 and -1 are left out (they are empty values in some positions)',
         'rule': 'a case is one random grammar run on one random lattice; non-trivial: at least one phrase is derivable'},
 'C23': {'parts': [{'harness': 'c23', 'mods': ALLMODS, 'quick': 6000, 'thorough': 200000}],
         'technique': T + 'an independent implementation of generalized iterative scaling, the laws of a distribution, saved and reloaded models and a reference tagger against the real ones, under ASan/UBSan',
         'note': 'training sets of up to about 60 events over 10 predicates and 6 (sometimes 160) outcomes, at most 40 iterations; lattices of up to 12 segments of 6 words; probabilities compared with training up to 0.002, after reloading exactly; L-BFGS is not compiled in',
         'rule': 'a case is one training set with a model trained, reloaded and asked about some 25 contexts, or a tagger trained on one lattice and run on another; non-trivial: more than one outcome, or a token with more than one form'},
 'C27': {'parts': [{'harness': 'c27', 'mods': ALLMODS, 'quick': 16000, 'thorough': 500000}],
         'technique': T + 'the converters run on one copy of a lattice, a reference reading of their options and rule files on another, all edges compared, under ASan/UBSan',
         'note': 'lattices of up to 6 words with tokens, lemmas, lexemes, forms and alternatives; random options, lexicons (plain text and binary), tagset rules and normalization rules',
         'rule': 'a case is one lattice and one run of selector, antiselector, joiner, mapper, tagset-converter or simplenorm-normalizer; non-trivial: an edge was added'},
}
