"""Source of /verif/properties.jsonl (run: python3 lib/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'The lattice answers every edge query from exactly the edges that were added',
  'After any sequence of edge additions, a lattice reports for every vertex, tag filter, category and span exactly the edges that were added, each once, in the order they were added (default character edges first), with the category, text, attributes, score and tags they were given; additions with an equal annotation over the same span merge into one edge whose tags (and ways of being built) are the union of all of them. Edge counts, sorted views, minimum/first-match lookups and per-vertex views all agree with that one set of edges.',
  ['histories', 'inputs'], 'over all interleavings of edge additions (including repeats, loose vertices, partitions) with queries under any tag filter',
  'The unit tests build a handful of small lattices by hand and query them once; they never interleave queries (which create the per-filter indexes) with later additions, nor re-add edges with other tags.',
  ['common/lattice.hpp', 'common/lattice.cpp'],
  [('edge insertion and merging', 'Lattice::addEdge'), ('per-tag-mask in/out edge indexes', 'VertexEntry, Lattice::addTagMask_'), ('edge iterators', 'Lattice::InOutEdgesIterator / EdgesSortedBySourceIterator / SortedByTargetIterator')],
  ['Lattice::outEdges', 'Lattice::inEdges', 'Lattice::allOutEdges', 'Lattice::edgesSorted', 'Lattice::firstOutEdge', 'Lattice::countAllEdges'])

p('C02', 'Lattice text and character edges stay consistent with the UTF-8 text',
  'The text of a lattice is the concatenation of the strings appended to it, and its character edges spell that text one UTF-8 character at a time, whether they are looked at eagerly, lazily, or after other edges were added over them. An edge laid over a stretch of text reports that stretch as its text and its byte range as its position, and inserting, erasing or replacing a stretch of text through corrections adds a path of character edges that spells the corrected text while every other stretch keeps its own (erasing up to the very end of the text is refused).',
  ['histories', 'inputs'], 'over all UTF-8 texts and all orders of appending, annotating, correcting and reading character edges',
  'Tests use two or three short Polish strings; the implicit representation of character edges and its transition to explicit edges is exercised at few positions only.',
  ['common/lattice.cpp', 'common/lattice.hpp', 'common/string_frag.cpp'],
  [('implicit symbol edges', 'Lattice::symbolEdgeTag..., VertexEntry, hiddenImplicitOutEdges_'), ('corrections', 'Lattice::correctionInsert/Erase/Replace'), ('text positions', 'Lattice::getEdgeText / getEdgeBegin / getEdgeLength')],
  ['Lattice::getAllText', 'Lattice::getEdgeText', 'Lattice::allOutEdges'])

p('C03', 'Layer-tag sets and tag filters obey set algebra',
  'Sets of layer tags and tag filters behave as mathematical sets: union, intersection, membership, emptiness and planes are computed exactly, a filter "any/none/these tags/one of these groups" selects exactly the edges whose tag set satisfies it, and combining two filters with AND selects exactly what both select. Names survive the round trip through tag numbers for any number of tags the system admits (64; one more is refused with an error).',
  ['inputs', 'programs'], 'over all tag sets, filters and compositions of filters',
  'Tests check a few named tags; the algebra has to hold for every combination, and annotators rely on it to see exactly their layers.',
  ['common/layer_tag_collection.cpp', 'common/layer_tag_mask.cpp', 'common/layer_tag_manager.cpp'],
  [('bitset tag collections', 'LayerTagCollection'), ('alternatives and complements', 'LayerTagMask'), ('name registry', 'LayerTagManager')],
  ['LayerTagManager::match', 'LayerTagMask::matches', 'createUnion', 'createIntersection'])

p('C04', 'Annotations keep the category, text and attributes they were given',
  'An annotation item carries exactly the category, text and attribute values that were stored in it, for any strings including empty ones and ones with separators; reading a value back, listing the attributes, and copying the item never changes or loses one (a value that spells an integer is stored as that integer; the reserved words nil, any and false denote themselves; NUL bytes are outside the domain). Two items compare equal exactly when category, text and all attribute values are equal, the ordering and hash are consistent with that equality.',
  ['inputs', 'histories'], 'over all categories, texts and sequences of attribute writes',
  'Tests set two or three attributes once; value stores are shared between items through one manager, so correctness depends on the whole history of writes.',
  ['common/annotation_item.cpp', 'common/annotation_item_manager.cpp', 'common/zvalue.cpp'],
  [('attribute vectors', 'AnnotationItem::attributes_'), ('value interning', 'AnnotationItemManager')],
  ['AnnotationItemManager::getValue', 'getValueAsString', 'getValues', 'AnnotationItem::operator==', 'hash_value'])

p('C05', 'String fragments behave exactly like the substrings they denote',
  'A fragment taken from a source string compares, searches, concatenates, hashes and converts exactly as the corresponding substring would, whether it refers into the source or stores its own copy, and never reads outside its own range.',
  ['inputs', 'programs'], 'over all source strings, ranges inside them (also empty and at the end) and chains of operations',
  'Tests call each operation on one or two fragments; every annotation stores its text as a fragment, so one misread byte corrupts arbitrary output.',
  ['common/string_frag.cpp', 'common/string_frag.hpp'],
  [('view or owned storage', 'StringFrag')], ['StringFrag::str', 'StringFrag::find', 'StringFrag::substr', 'StringFrag::append'])

p('C06', 'Tokenization partitions the text and follows the rule file',
  'For any text, the tokens produced by the rule-based tokenizer (blanks included) are non-empty, do not overlap, begin and end on character boundaries, and joined in order give back the text; each token is the one prescribed by the rule that takes precedence among those that match at that point (later rules of the file precede earlier ones), with that rule\'s type; where no rule matches, one character becomes a token of type X. With a soft or hard length limit set, no token cut by the limit exceeds it except as the limits allow, and still no character is lost or duplicated.',
  ['inputs', 'configurations'], 'over all UTF-8 texts, shipped languages and length limits',
  'Mass tests compare a handful of sentences; nothing checks that arbitrary text is conserved or that the limit-driven fragmentation of long input loses nothing.',
  ['tools/tokenizers/tp/tp_tokenizer.cpp', 'tools/tokenizers/tp/tp_token_cutter.cpp', 'tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp', 'common/cutter.hpp', 'common/lattice.cpp'],
  [('rule matching', 'TpTokenCutter::cut'), ('limits', 'LimitChecker, Lattice::runCutter'), ('cutting over the lattice', 'Lattice::runCutter_')],
  ['token edges in the lattice', 'tokenize ! simple-writer output'])

p('C07', 'Sentence segmentation partitions text at exactly the breaks the SRX rules give',
  'For any text, the sentence segments are contiguous, non-empty and together cover the text; a break occurs exactly where, scanning the rules in order, the first rule whose before and after patterns match is a breaking rule (patterns that do not look at what a previous match consumed). With a length limit set, segments are additionally cut as the limits say, and no text is lost.',
  ['inputs', 'configurations'], 'over all UTF-8 texts, SRX rule sets and length limits',
  'Tests run one or two paragraphs; break/no-break rule interaction, window sizes and limits only matter on long or unusual text.',
  ['tools/segmenters/srx/srx_segmenter.cpp', 'tools/segmenters/srx/srx_rules.cpp', 'common/cutter.hpp'],
  [('merged exception/break regexp', 'SrxSegmenter::SentenceCutter::cut'), ('limits', 'LimitChecker')],
  ['segment edges in the lattice'])

p('C08', 'Text readers put the input text into the lattice unchanged',
  'Reading plain text yields a lattice whose text is exactly the input (in line-by-line mode with a missing final newline supplied), with the whole text (or each line, in line-by-line mode, in order and exactly once) marked as the fragment to be processed. Reading the UTT format yields the text spelled by its segments, with each segment an edge at its recorded position.',
  ['inputs', 'configurations'], 'over all texts (empty, no final newline, CRLF, control characters, multi-byte) and reader options',
  'Tests read small fixed files; edge cases of line ends, empty lines and stream positions are not covered.',
  ['formats/txt/txt_lattice_reader.cpp', 'formats/utt/utt_lattice_reader.cpp', 'common/reader_worker.hpp', 'common/stream_helpers.cpp'],
  [('line / whole-text reading', 'TxtLatticeReader'), ('segment parsing', 'UTTLatticeReader')],
  ['lattice text', 'frag edges', 'psi-pipe output'])

p('C09', 'PSI output read back gives the same lattice',
  'Writing a lattice in the PSI format and reading the result gives a lattice with the same text (up to the end of its last edge) and the same edges: spans (loose vertices up to their numbering), tags, categories, texts, attribute values, scores (to the six digits the format prints) and the partitions each edge has, with the edges and roles they are made of. In a lattice without loose vertices, what was read and written is then read and written again byte for byte. Reserved by the format, so outside the property: empty categories, tag names with a comma, role names with $ , ( < or ].',
  ['inputs', 'programs'], 'over all annotated lattices, including loose vertices, partitions, special characters in text, categories and attributes',
  'Tests round-trip a few fixed files; quoting, edge numbering and partition references interact only on richer lattices.',
  ['formats/psi/psi_writer/psi_lattice_writer.cpp', 'formats/psi/psi_reader/psi_lattice_reader.cpp', 'common/psi_quoter.hpp'],
  [('writer', 'PsiLatticeWriter::Worker'), ('reader grammar', 'PsiLatticeReader, PsiLRItem...'), ('quoting', 'PsiQuoter')],
  ['psi-writer output', 'psi-reader lattice'])

p('C10', 'Every escaping scheme is undone by its unescaping',
  'For every quoter and escaper of the toolkit, unescaping an escaped string yields the original string, and an escaped string contains none of the characters that are special for its format except behind an escape character. Unescaping any string at all yields a string or refuses it with an error, without crashing or reading outside it.',
  ['inputs'], 'over all byte strings',
  'Tests escape a few sample strings; the guarantee must hold for any combination of special characters, escapes and truncated escapes.',
  ['common/quoter.cpp', 'common/utt_like_quoter.cpp', 'formats/utt/utt_quoter.cpp', 'common/psi_quoter.cpp', 'formats/bracketing/bracketing-writer/bracketing_quoter.hpp', 'common/escaping.cpp'],
  [('quoters', 'PsiQuoter, UTTQuoter, UTTLikeQuoter, BracketingQuoter'), ('escaper', 'Escaping')],
  ['escape()', 'unescape()'])

p('C11', 'JSON output is valid JSON carrying exactly the selected annotations',
  'Whatever the input text and annotations, the JSON writer emits one well-formed JSON document whose decoded strings are byte for byte the texts, categories and attributes of the annotations selected, in text order, nested as its options say.',
  ['inputs', 'configurations'], 'over all texts, annotations and writer options',
  'Tests use words without control characters; validity has to hold for any text.',
  ['formats/json-simple/json_lattice_writer.cpp', 'common/lattice_iter_writer.hpp'],
  [('escaping and nesting', 'JSONSimpleLatticeWriter, JsonPutter')], ['json-simple-writer output'])

p('C12', 'Text writers neither lose, duplicate nor invent text',
  'The simple writer prints exactly the texts of the selected annotations in text order with the chosen separators, and the bracketing writer prints the text of the lattice with properly nested bracket pairs inserted: taking the brackets away gives back the text and the bracket pairs are exactly those of the non-filtered edges. This holds for any tags, filters and separators chosen.',
  ['inputs', 'configurations'], 'over all lattices with nested or overlapping annotations and all writer options',
  'Tests compare single outputs; crossing edges, empty edges, alternatives and unusual separators are not sampled.',
  ['formats/simple/simple_lattice_writer.cpp', 'formats/bracketing/bracketing-writer/bracketing_lattice_writer.cpp', 'common/lattice_iter_writer.hpp'],
  [('edge ordering', 'LatticeIterWriter'), ('bracket nesting', 'BracketPrinter, EdgeData')], ['simple-writer output', 'bracketing-writer output'])

p('C13', 'Lexicon stores return exactly what was stored, also after saving and loading',
  'A key-value store or lexicon built from a set of entries returns for every stored key exactly its value(s), in order, and nothing for a key that was not stored, for any number, length and content of keys and values; indexed string and number vectors return the element stored at each index. Saving to a file and loading it back changes no answer.',
  ['inputs', 'histories'], 'over all sets of entries and query keys, before and after a save/load cycle',
  'Tests store a dozen short words; hashing, bit-packed offsets and overflow tables behave differently with many, long or adversarial entries.',
  ['tools/datastructures/lexica/key_value_store.cpp', 'tools/datastructures/lexica/perfect_hash_index.cpp', 'tools/datastructures/lexica/string_vector.hpp', 'tools/datastructures/lexica/monotonic_vector.hpp', 'tools/datastructures/lexica/lexicon_base.cpp'],
  [('perfect hash with fingerprints', 'PerfectHashIndex'), ('concatenated strings', 'StringVector'), ('anchors and differences', 'MonotonicVector'), ('plain-text lexica', 'LexiconBase')],
  ['KeyValueStore::get', 'LexiconBase::getRecords', 'StringVector::at', 'MonotonicVector::at'])

p('C14', 'Finite-state operations compute the intended language',
  'Union, intersection, concatenation, option, plus, star, reversal, epsilon removal, determinization, minimization and incremental construction of automata accept exactly the strings that the corresponding operation on languages gives (an automaton without any states is neutral as the first operand of a concatenation; in() is asked of automata without epsilon transitions); minimization yields a deterministic automaton with the least number of states. A stored automaton accepts the same strings after saving and loading.',
  ['inputs', 'programs'], 'over all expressions built from words and these operations, and all test strings',
  'Tests check one or two expressions on a few strings.',
  ['tools/datastructures/psi_query/fsa_algorithms.hpp', 'tools/datastructures/psi_query/fsa_ndfsa.hpp', 'tools/datastructures/psi_query/fsa_bindfsa.hpp'],
  [('wrappers and traversal', 'fsa::traverse, Determinizer, Reverser, Intersector'), ('incremental construction', 'minimize_incremental'), ('binary automaton', 'BinDFSA')],
  ['in()', 'language()', 'FSAMultiStore::get'])

p('C15', 'Glob patterns match exactly the names they describe',
  'A segment glob (with ? for one character and * for any number of them) and an ant-like path glob (with ** spanning directories) match exactly the strings and existing files that the documented meaning gives, each file once, and lists of globs and parameters in file specifications expand to exactly those files.',
  ['inputs'], 'over all patterns, names and directory trees',
  'Tests list some pattern/name pairs; backtracking patterns and directory layouts are unbounded.',
  ['common/segment_glob.cpp', 'common/ant_like_path_glob.cpp'],
  [('segment matching', 'SegmentGlob'), ('directory walking', 'AntLikePathGlob')], ['SegmentGlob::match', 'AntLikePathGlob results'])

p('C16', 'Case conversion maps every character correctly and preserves UTF-8',
  'Converting UTF-8 text to lower, upper or title case maps each character to its case counterpart and leaves caseless characters alone, always yields valid UTF-8 (of valid UTF-8), is idempotent for lower and upper case, and asking whether a text would be changed by a conversion agrees with converting it. Head and tail conversion treat exactly the first character and the rest.',
  ['inputs'], 'over all Unicode code points and strings of them',
  'Tests try a few dozen letters out of more than a thousand cased code points.',
  ['utf8case/simple_convert.cpp', 'utf8case/string_case_converter_manager.cpp', 'utf8case/case_tables.cpp'],
  [('mapping tables', 'utf8case'), ('case conversion', 'StringCaseConverter')], ['lower/upper/title output'])

p('C17', 'An HTTP request parses the same however its bytes arrive',
  'The request parser gives the same verdict and the same method, URI, headers and body however the byte stream is split into reads; a well-formed request with a body is complete exactly when all the bytes its length header announces have arrived, with the body byte-identical to what was sent, and form fields (URL-encoded or multipart, however their bytes are encoded) reach the application with exactly the values sent. Malformed requests are refused without crashing, hanging or reading outside the input.',
  ['inputs', 'schedules'], 'over all byte streams and all ways of splitting them',
  'No test drives the parser with split reads or malformed input.',
  ['server/server/request_parser.cpp', 'server/server/request_parser.hpp', 'server/psi_server.cpp', 'server/mpfd-parser/Parser.cpp', 'server/mpfd-parser/Field.cpp'],
  [('character state machine', 'request_parser::consume'), ('multipart parsing', 'MPFD::Parser'), ('form decoding', 'PsiServer::parseNamesAndValues, urlDecode')],
  ['parsed request', 'session data'])

p('C18', 'The web server serves only files below its document root',
  'Whatever the request URI, however encoded, the server answers with a file only if that file lies below the document root and is the one the decoded path names, byte for byte and with matching length; every other request gets an error reply that discloses nothing from outside the root.',
  ['inputs'], 'over all request URIs including percent-encoded, dotted, doubled and non-ASCII ones',
  'No test requests a hostile path.',
  ['server/server/request_handler.cpp', 'server/psi_request_handler.cpp'],
  [('URI decoding and path check', 'request_handler::handle_request, url_decode')], ['HTTP replies'])

p('C19', 'Server sessions stay separate and no request history stops the server',
  'Each client sees only its own session data: what one client submits never shows in another client\'s replies, whatever the interleaving of their requests and the number of worker threads, and distinct clients get distinct session identifiers. No sequence of requests, well formed or not, makes the server crash, race or stop answering later requests.',
  ['schedules', 'histories', 'inputs'], 'over all interleavings of concurrent clients and all request sequences',
  'The tests start no server.',
  ['server/session_manager.cpp', 'server/session.cpp', 'server/psi_server.cpp', 'server/psi_request_handler.cpp', 'server/site/json_site.cpp', 'server/site/pipe_site.cpp', 'server/server/connection.cpp'],
  [('session registry', 'SessionManager'), ('dispatch', 'PsiRequestHandler::handle_request'), ('thread pool', 'http::server3::server::run')],
  ['HTTP replies over loopback', 'ThreadSanitizer / AddressSanitizer reports'])

p('C20', 'A pipeline means the composition of its processors, run after run',
  'Running a pipeline gives the output of running its processors one after another, deterministically: the same pipeline and input give the same bytes in every run, whether the pipeline is given as one string or as separate arguments, through an alias or its expansion, or cut in two at the psi format. Words of a pipeline reach the processors unchanged, whatever characters they hold. With -l the output is that of the input lines one after another; input in a declared encoding gives what the same text in UTF-8 gives; a pipeline without reader or language guesser gets them, and one that writes no result a writer. A malformed specification is reported as an error, never ignored or crashed on.',
  ['inputs', 'configurations', 'histories'], 'over all pipelines of the shipped text processors, their options and input texts',
  'Mass tests run fixed pipelines on fixed inputs; equivalences between spellings of a pipeline and between runs are not tested.',
  ['framework/pipe_runner.cpp', 'framework/split_pipeline.cpp', 'framework/aliaser.cpp', 'framework/shallow_aliaser.cpp', 'framework/factories_keeper.cpp'],
  [('specification parsing', 'PipeRunner::parseIntoPipelineSpecification_, splitPipeline'), ('alias expansion', 'Aliaser'), ('automatic completion', 'AutoCompleter')],
  ['psi-pipe output and exit status'])

p('C21', 'Annotators only add: they keep the text and all earlier annotations',
  'Running any annotator on a lattice leaves its text unchanged and keeps every edge that was there before with the same span, category, text, attributes and position in the per-vertex order (it may only hide edges explicitly marked as discarded); every edge it adds lies within the lattice, is tagged with that annotator\'s layer, and refers only to existing edges as its parts.',
  ['inputs', 'programs'], 'over all texts and chains of annotators',
  'Mass tests look at final outputs that show a single layer; silent damage to other layers would go unnoticed.',
  ['common/annotator.hpp', 'tools/tokenizers/tp/tp_tokenizer.cpp', 'tools/segmenters/srx/srx_segmenter.cpp', 'tools/parsers/gobio/gobio.cpp', 'tools/parsers/puddle', 'tools/normalizers', 'tools/converters', 'common/lattice.cpp'],
  [('annotation interface', 'Annotator, LatticeWorker::doRun')], ['lattice before and after each processor'])

p('C22', 'The chart parser finds exactly the phrases its unification grammar derives',
  'For any grammar of the rule language and any lattice, the parser finds a phrase of a category with given attributes over a stretch of text exactly if the rules derive it: some rule (alternatives and options spelt out) has a sequence of adjacent phrases of its symbols, blanks between them skipped however many they are, and its condition holds when evaluated from left to right with the attributes of the starred symbol as starting point; the phrase gets those attributes plus the assignments made, and nothing else. Categories, words in quotes, lemmas and attributes of terminals are matched as written. Each phrase appears once, with exactly the derivations that exist as its analyses, and with the score of the best one (scores of the parts plus setscore). How a long rule is split internally, which other rules exist, and in what order they and the edges come, makes no difference. The trees put out are, from the left, the longest phrase starting where the last one ended, with the best score among equals.',
  ['inputs', 'programs'], 'over all grammars and lattices',
  'Tests use a handful of grammars and sentences, some of them comparing compiled code.',
  ['tools/parsers/gobio/chart/chart.tpl', 'tools/parsers/gobio/parser/agenda_parser.tpl', 'tools/parsers/gobio/rules/tgbg_combinator.tpl', 'tools/parsers/gobio/rules/compile_gruleexpression.tpl', 'tools/parsers/gobio/rules/decompose_expression.tpl', 'tools/parsers/gobio/rules/expression_runner.tpl', 'tools/parsers/gobio/chooser/chooser.tpl', 'tools/parsers/gobio/gobio.cpp', 'common/put_zsyntree_into_lattice.cpp'],
  [('agenda and chart', 'agenda_parser::run, chart::add_edge'), ('rule compilation and binarisation', 'tgbg_combinator::binarize_all_rules, compile_rule_'), ('conditions', 'expression_runner::run'), ('choice of trees', 'longest_left_to_right_chooser::go')], ['gobio, parse-aux and parse edges of the lattice'])

p('C23', 'The classifier is a true probability model, and the tagger follows it',
  'For every trained or loaded maximum-entropy model and every context, the outcomes get a probability distribution: finite numbers between 0 and 1 that sum to 1, those of the log-linear model over the features seen in training, whatever the size of the weights and feature values; eval, eval_all (sorted or not) and predict agree, unknown features count for nothing and unknown outcomes have probability 0. Training is generalized iterative scaling of the events above the cutoff, with or without a Gaussian prior: the order in which events are added, or counts spelt out, does not matter, and more iterations never make the training events less probable. A model saved in either format and loaded again gives exactly the same probabilities, with any feature names. The tagger learns one event from every token with a form and gives every token the most probable of the tags of its live forms (open classes for unknown words; the most probable outcome if the model knows none): the form of that tag stays, contradicting forms are discarded, discarded forms stay so, and a word left without a form gets one of that tag with lexeme and lemma.',
  ['inputs', 'histories', 'configurations'], 'over all training sets, contexts, feature names and values, and all lattices with tokens and forms',
  'The only test compares the tags of one sentence.',
  ['maxent/maxentmodel.cpp', 'maxent/gistrainer.cpp', 'maxent/modelfile.cpp', 'maxent/trainer.cpp', 'maxent/eventspace.tcc', 'tools/taggers/metagger/me_tagger.cpp'],
  [('training', 'GISTrainer'), ('evaluation', 'MaxentModel::eval, eval_all, predict'), ('persistence', 'MaxentModelFile'), ('tagging', 'MeTagger::getBestTag, applyTokenTags')], ['probabilities, model files, form edges of the lattice'])

p('C24', 'No input text crashes, hangs or corrupts the toolkit',
  'For any input bytes, reading them with a text-format reader and running the shipped tokenization, segmentation, lemmatization and writing processors either succeeds or reports an error; it never crashes, runs past its buffers, invokes undefined behaviour or fails to finish.',
  ['inputs'], 'over all byte strings as input of every text reader and the pipelines behind it',
  'Tests feed well-formed documents only.',
  ['formats', 'common/lattice.cpp', 'common/reader_worker.hpp', 'tools/tokenizers', 'tools/segmenters', 'tools/lemmatizers', 'utf8'],
  [('format parsing', 'psi, utt, txt, nkjp, apertium readers'), ('UTF-8 decoding', 'utf8/, symbol edges')], ['process status', 'AddressSanitizer / UndefinedBehaviorSanitizer reports'])

p('C25', 'What the web server shows is exactly what was asked and computed',
  'The JSON interface answers every request with one valid JSON document whose pipe and input are what the client sent and whose output is what running that pipeline on that input gives (or null together with the error message if it fails). The pages of the server show pipeline, input, output and errors as data: read as HTML text or script strings they give back the original, and nothing a client sends becomes markup or script. The file offered for download holds the output byte for byte.',
  ['inputs', 'programs'], 'over all pipelines and input texts, with any characters in them',
  'The tests start no server; the Ruby tests of the server need one and look at one or two texts.',
  ['server/site/json_site.cpp', 'server/site/pipe_site.cpp', 'server/site/processor_documentation_site.cpp', 'server/site/template_site.hpp', 'server/psi_server.cpp', 'common/file_storage.cpp'],
  [('JSON answers', 'JsonSite::actionJson'), ('pages', 'PipeSite::inputText, pipeText, outputText, hiddenOptions'), ('insertion', 'PsiServer::include')], ['replies of PsiRequestHandler'])

p('C26', 'Converting between encodings keeps every character at any length',
  'A text in any of the encodings the toolkit lists comes out in any other as the same characters, however long it is, whatever the default target of the converter is, and whatever was converted before: into UTF-8 as what its bytes mean, out of UTF-8 as bytes that mean the text, with nothing missing at the end (characters kept back, shift sequences) or at the joints of the internal buffer. A text that is not in the source encoding, or that the target cannot express, and a text in an unknown encoding come back unchanged. Detection reads no memory it should not, gives the same answer every time, knows plain ASCII, UTF-8 and long natural texts, and the encodings it names are those the converter converts.',
  ['inputs', 'configurations'], 'over all texts, lengths and pairs of encodings',
  'Tests convert three example files of one line and detect one.',
  ['common/encoding_converter.cpp', 'tiniconv/tiniconv.c', 'tiniconv/tiniconv_desc.c', 'tiniconv/encdec', 'uchardet/src'],
  [('conversion', 'EncodingConverter::convert, convert_'), ('detection', 'EncodingConverter::detect')], ['converted texts'])

p('C27', 'Converters select, join, map and normalize exactly what their rules say',
  'What a converter adds to the lattice is exactly what its options and rule files say about the edges that are there, no more and no less: the selector keeps for every fallback edge the chains of alternatives whose conditions hold and falls back otherwise; the antiselector keeps what nothing replaced; the joiner pairs edges of the same span and origin with the chosen text, category and attributes; the mapper gives every edge all translations its lexicon (plain or binary) holds for its key, or the unknown entry; the tagset converter translates categories, attributes and values and applies every rule once, breeding all alternatives; the simple normalizer gives the replacement of each listed token. Any lattice and any well-formed rule file is accepted.',
  ['inputs', 'configurations', 'programs'], 'over all lattices, options, lexicons and rule files',
  'Tests run one or two rule files on a few words.',
  ['tools/converters', 'tools/lexica/mapper/mapper.cpp', 'tools/normalizers/simplenorm'],
  [('selection', 'Selector, Antiselector'), ('joining', 'Joiner'), ('mapping', 'Mapper'), ('tagset conversion', 'Unumsunt, UnumsuntRule'), ('normalization', 'SimplenormNormalizer')], ['edges of the lattice before and after'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
print(len(P))
