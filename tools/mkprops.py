#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
A = "core/src/main/cpp/algorithm/"
I = "core/src/main/cpp/interfaces/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Lookup returns the longest matching entry",
 "For every dictionary of distinct non-empty entries, including one that has since learned new symbols, and every non-empty query, lookup returns the identifier of the longest entry that is a prefix of the query. With an exclusion set it returns the longest entry outside the set that is a prefix, or -1 when there is none, and the dictionary is left as it was.",
 ["inputs", "histories"], "every entry list, every query, every exclusion set, every earlier history of lookups",
 "SearchTest looks up four fixed queries in one four-entry dictionary; the claim ranges over all dictionaries, queries and exclusion sets, and over dictionaries that have learned symbols in any order.",
 [A+"int_dict_p.cc", A+"int_dict_p.h", A+"stat_dict_p.cc"],
 [("lexicographic predecessor search, then walk along the prefix links", A+"int_dict_p.cc search"), ("delegation", A+"stat_dict_p.cc search")],
 [("entries", "dictionary entries by identifier", A+"int_dict_p.h seqs_"), ("prefix links", "identifier of the longest proper-prefix entry", A+"int_dict_p.h parents_")],
 ["IntDict::search", "StatDict::search"])

prop("C02", "Prefix links name the longest proper-prefix entry",
 "A dictionary built from any list of distinct non-empty sequences holds exactly those sequences, numbered in lexicographic order, and the link of every entry names the longest other entry that is a proper prefix of it, or -1 when no entry is. The links stay correct while the dictionary learns symbols from lookups.",
 ["inputs", "histories"], "every list of distinct non-empty sequences, in any order, and every later history of lookups",
 "ParentTest checks the four links of one dictionary; the claim needs every set of sequences (deep prefix chains, siblings, unsorted input) and every learning history.",
 [A+"int_dict_p.cc", A+"int_dict_p.h", A+"int_dict.h"],
 [("sort and prefix stack", A+"int_dict_p.cc init"), ("constructors", A+"int_dict_p.cc IntDictImpl"), ("learning a symbol", A+"int_dict_p.cc search")],
 [("prefix links", "longest proper-prefix entry or -1", A+"int_dict_p.h parents_")],
 ["IntDict::parent", "IntDict::get", "IntDict::alphabet", "IntDict::size"])

prop("C03", "Weighted segmentation is lossless",
 "Segmenting any sequence with any non-negative frequencies appends to the caller's output identifiers whose entries, concatenated in order, are exactly that sequence; whatever the output already held is untouched. Every identifier is valid in the dictionary and the returned count is the length of the output.",
 ["inputs", "histories"], "every dictionary and learning history, every sequence including empty and containing unknown symbols, every frequency vector of any length whose sum does not exceed the stated total",
 "ParseTest segments one sequence with one dictionary; losslessness is a claim about all dictionaries, sequences and frequency tables.",
 [A+"int_dict_p.cc", A+"stat_dict_p.cc"],
 [("dynamic programme and backtracking", A+"int_dict_p.cc weightedParse"), ("public entry", A+"int_dict_p.cc parse"), ("statistics wrapper", A+"stat_dict_p.cc parse")],
 [("scores and chosen entries", "best score and last entry per position", A+"int_dict_p.cc weightedParse score, symbols")],
 ["IntDict::parse", "StatDict::parse"])

prop("C04", "Weighted segmentation attains the best total score",
 "When every symbol of the sequence is itself an entry, no way of cutting the sequence into entries has a higher total score than the one produced, where an entry scores log(frequency + 1) minus log(total + dictionary size) (just minus log(total + dictionary size) if it has no frequency) and scores are added from left to right.",
 ["inputs"], "every dictionary, every sequence over its symbols, every alternative segmentation, every frequency vector",
 "ParseTest compares one output with one expected answer under zero frequencies; optimality quantifies over all alternative segmentations of all inputs.",
 [A+"int_dict_p.cc"],
 [("relaxation over all prefix entries at every position", A+"int_dict_p.cc weightedParse"), ("enumeration of all prefix entries", A+"int_dict_p.cc search, parent")],
 [("scores", "best score per position", A+"int_dict_p.cc weightedParse score")],
 ["IntDict::parse"])

prop("C05", "Learning symbols never disturbs the dictionary",
 "Lookups and segmentations never renumber, alter or remove an entry, and the entries always stay pairwise distinct. The only entries ever added are single symbols of the input that no entry could match, each added once and numbered after all earlier entries.",
 ["inputs", "histories"], "every history of lookups and segmentations over every starting dictionary",
 "The tests never look up an unknown symbol; the claim is about all orders in which unknown symbols may arrive.",
 [A+"int_dict_p.cc", A+"int_dict_p.h"],
 [("append on miss", A+"int_dict_p.cc search"), ("sorted part versus learned part", A+"int_dict_p.h")],
 [("entries", "entries by identifier", A+"int_dict_p.h seqs_")],
 ["IntDict::search", "IntDict::parse", "IntDict::get", "IntDict::size"])

prop("C06", "Greedy segmentation is leftmost-longest",
 "Greedy segmentation repeatedly takes the longest permitted entry that starts the remaining input; without an exclusion set it covers the input exactly. With an exclusion set it skips a symbol only when no permitted entry starts there, so the entries taken and the symbols skipped together are the input, in order.",
 ["inputs", "histories"], "every dictionary, sequence and exclusion set",
 "No test that compiles calls the greedy segmentation at all.",
 [A+"int_dict_p.cc"],
 [("greedy loop", A+"int_dict_p.cc linearParse"), ("public entry", A+"int_dict_p.cc parse")],
 [], ["IntDict::parse"])

prop("C07", "Symbol coding is a reversible first-appearance numbering",
 "The symbol coder numbers symbols 0, 1, 2, ... in order of first appearance and never renumbers one; encoding keeps length and order, and decoding the result gives back exactly the sequence. Distinct symbols always get distinct codes, over every history of encodings.",
 ["inputs", "histories"], "every history of encoded sequences",
 "No test touches the symbol coder; bijectivity over histories cannot be sampled.",
 [I+"seq_coder.cc", I+"seq_coder.h"],
 [("numbering", I+"seq_coder.cc encode"), ("inverse", I+"seq_coder.cc decode"), ("table", I+"seq_coder.cc code_map")],
 [("forward and backward tables", "mutually inverse maps onto 0..n-1", I+"seq_coder.h")],
 ["SeqCoder::encode", "SeqCoder::decode", "SeqCoder::code_map"])

prop("C08", "Read-only coding drops exactly the unseen symbols",
 "Read-only encoding of any sequence yields the codes of exactly those of its symbols that have been seen before, in order, silently dropping the others, and it never changes the coder. Decoding the result gives the sequence without its unseen symbols.",
 ["inputs", "histories"], "every coder history and every sequence",
 "No test calls read-only encoding.",
 [I+"seq_coder.cc"],
 [("filtering encode", I+"seq_coder.cc encode_immutable")],
 [("forward table", "symbol to code", I+"seq_coder.h forward_code_")],
 ["SeqCoder::encode_immutable"])

prop("C09", "Character normalization keeps letters and digits, lower-cased",
 "Character tokenization of any text keeps exactly its ASCII letters and digits, in order, with letters in lower case, and yields one token per kept character. Joining the tokens of a normalized text gives that text back.",
 ["inputs"], "every byte string",
 "The tokenizers have no C++ test; the Python one does not run.",
 [I+"tokenizers/char_tokenizer.cc"],
 [("filter and lower-case", I+"tokenizers/char_tokenizer.cc normalize"), ("split", I+"tokenizers/char_tokenizer.cc tokenize")],
 [], ["CharTokenizer::normalize", "CharTokenizer::tokenize"])

prop("C10", "Tokenizer ids are reversible and stable",
 "A tokenizer that started empty or from a map onto 0..n-1 gives each distinct token its own id, numbered in order of first appearance after those it started with, and never renumbers one. Decoding the ids of a text gives back the concatenated tokens of the normalized text; decoding unknown ids contributes nothing.",
 ["inputs", "histories"], "every history of transformed texts, every starting map onto 0..n-1, every text",
 "No C++ test covers tokenizers; id stability is a property of whole histories.",
 [I+"tokenizers/base_tokenizer.cc", I+"tokenizers/base_tokenizer.h"],
 [("numbering", I+"tokenizers/base_tokenizer.cc transform"), ("inverse", I+"tokenizers/base_tokenizer.cc decode"), ("start from a map", I+"tokenizers/base_tokenizer.cc BaseTokenizer")],
 [("forward and backward tables", "mutually inverse", I+"tokenizers/base_tokenizer.h")],
 ["BaseTokenizer::transform", "BaseTokenizer::decode"])

prop("C11", "Word tokens are the maximal space-free runs",
 "Word tokenization of any text yields exactly its maximal runs of non-space characters, in order: no token is empty or contains a space, and nothing but spaces is lost.",
 ["inputs"], "every byte string, with leading, trailing and repeated spaces",
 "The word tokenizer has no test.",
 [I+"tokenizers/word_tokenizer.cc"],
 [("scan", I+"tokenizers/word_tokenizer.cc tokenize"), ("identity normalization", I+"tokenizers/word_tokenizer.cc normalize")],
 [], ["WordTokenizer::tokenize"])

prop("C12", "Usage statistics equal what was observed",
 "After any history of segmentations and manual updates, the frequency reported for each entry is exactly the number of times it was used plus the manual increments, entries never used report zero, and the total power is the sum of all of these. Adjacent-pair counts equal the number of times the pair was adjacent within one segmentation, and the character total is the summed length of the inputs.",
 ["inputs", "histories"], "every history of segmentations and updates below 2^31 events",
 "UpdateSymbolTest and FreqTest make a handful of updates on four entries; the counts must hold after every history.",
 [A+"stat_dict_p.cc", A+"stat_dict_p.h"],
 [("per-segmentation accounting", A+"stat_dict_p.cc parse"), ("counter update", A+"stat_dict_p.cc update_symbol"), ("report", A+"stat_dict_p.cc freq")],
 [("usage counters", "uses per entry", A+"stat_dict_p.h symbol_freqs_"), ("pair counters", "uses per ordered pair", A+"stat_dict_p.h pairs_freqs_"), ("power", "sum of usage counters", A+"stat_dict_p.h power_")],
 ["StatDict::freq", "StatDict::parse", "StatDict::update_symbol"])

prop("C13", "Prior frequencies stay with the sequences they describe",
 "A dictionary with statistics that is created with prior frequencies attributes each one to the sequence it was listed with, whatever order the sequences were listed in, so its segmentations weigh each entry by that entry's own prior. Entries without a prior weigh as frequency zero, and priors never show up in reported usage counts.",
 ["inputs"], "every list of distinct sequences in any order, every vector of priors",
 "FreqTest passes priors for an unsorted list but only reads the usage counts, which are zero either way.",
 [A+"stat_dict_p.cc"],
 [("constructor with priors", A+"stat_dict_p.cc StatDictImpl"), ("weights used by segmentation", A+"stat_dict_p.cc parse")],
 [("segmentation weights", "prior plus usage, by entry identifier", A+"stat_dict_p.h parse_freqs_")],
 ["StatDict::parse"])

prop("C14", "Growing keeps every entry and adds only observed pairs",
 "Growing a dictionary keeps every existing entry and adds at most the requested number of new ones; each new entry is the concatenation of two entries that were adjacent in some segmentation, and no sequence is listed twice. The accompanying frequency list has one element per entry (its usage count, or the pair's count for a new entry) and the resulting minimal probability never exceeds the old one.",
 ["inputs", "histories"], "every dictionary, every collected statistics, every non-negative requested growth",
 "The builder tests run growth on a few fixed distributions and look only at the final dictionary.",
 [A+"stat_dict_p.cc", A+"fast_random.cc"],
 [("candidate generation and selection", A+"stat_dict_p.cc expand"), ("pair text", A+"stat_dict_p.cc stat_item_to_text")],
 [("pair counters", "candidate pairs", A+"stat_dict_p.h pairs_freqs_")],
 ["StatDictImpl::expand, through IntVGramBuilder::accept/result"])

prop("C15", "Shrinking keeps the alphabet and respects the capacity",
 "Shrinking a dictionary in which every symbol of every entry is itself an entry keeps only existing entries, none twice, and no more than the requested number plus the number of entries without a shorter prefix entry. Every single-symbol entry is kept, and the accompanying frequency list has each kept entry's own usage count.",
 ["inputs", "histories"], "every symbol-closed dictionary, every collected statistics, every non-negative capacity",
 "The tests only observe the end result of many rounds on a few fixed distributions.",
 [A+"stat_dict_p.cc"],
 [("selection by score", A+"stat_dict_p.cc reduce, filter_stat_items, stat_items"), ("cost of removal", A+"stat_dict_p.cc weightedParse")],
 [("usage counters", "uses per entry", A+"stat_dict_p.h symbol_freqs_")],
 ["StatDictImpl::reduce, through IntVGramBuilder::accept/result"])

prop("C16", "The builder always exposes a usable dictionary and its statistics",
 "After any history of accepted sequences the builder exposes a dictionary (the last distilled one, or the one being trained before the first), and the frequencies it reports have exactly one element per entry of it. The dictionary is revised only when enough evidence was collected, revisions alternate between growing and shrinking, and only a shrink publishes a new distilled dictionary, which has at most the requested number of entries longer than one symbol.",
 ["inputs", "histories"], "every history of accepted sequences and every symbol-closed starting alphabet",
 "The builder tests drive four fixed random histories; nothing checks the intermediate states.",
 [A+"int_vgram_builder_p.cc", A+"int_vgram_builder_p.h"],
 [("revision step", A+"int_vgram_builder_p.cc update"), ("gate", A+"int_vgram_builder_p.cc accept, "+A+"stat_dict_p.cc enough"), ("publication", A+"int_vgram_builder_p.cc result, alpha, result_freqs, code_length, get_min_probability")],
 [("phase", "grow or shrink next", A+"int_vgram_builder_p.h populate_"), ("published", "last distilled statistics", A+"int_vgram_builder_p.h result_")],
 ["IntVGramBuilder::result", "IntVGramBuilder::result_freqs", "IntVGramBuilder::alpha", "IntVGramBuilder::code_length", "IntVGramBuilder::get_min_probability"])

prop("C17", "Fitting reports how often each v-gram is used in the data",
 "After fitting on any data set, the frequencies have one element per dictionary entry, and each is exactly the number of times the entry is used when the training sequences are segmented; the lengths of all uses add up to the size of the data. Fitting an already fitted model changes nothing.",
 ["inputs", "histories"], "every data set, every size, every number of passes from 1, every outcome of the random sampling",
 "No test fits an integer model; the claim must hold for every sampling outcome, including passes that never sample some sequence.",
 [I+"vgram_builders/int_vgram.cc", I+"vgram_builders/int_vgram.h"],
 [("training loop", I+"vgram_builders/int_vgram.cc fit"), ("recount", I+"vgram_builders/int_vgram.cc recompute_freqs")],
 [("frequencies", "uses per entry", I+"vgram_builders/int_stream_vgram.h freqs_")],
 ["IntVGram::fit", "IntStreamVGram::freqs", "IntStreamVGram::alphabet"])

prop("C18", "Stream updates replace the dictionary and its frequencies together",
 "At every point of a streaming history after an update, the reported frequencies have exactly one element per alphabet entry, in the same order. When the builder has a new dictionary, an update adopts it together with that dictionary's frequencies and nothing of earlier ones; otherwise, and when repeated, an update changes nothing.",
 ["inputs", "histories"], "every interleaving of accept, update, parse, freqs and alphabet",
 "No test drives the streaming interface, and the source file is not even part of the tested build.",
 [I+"vgram_builders/int_stream_vgram.cc", I+"vgram_builders/int_stream_vgram.h"],
 [("adoption", I+"vgram_builders/int_stream_vgram.cc update_dict"), ("report", I+"vgram_builders/int_stream_vgram.cc freqs, alphabet")],
 [("frequencies", "uses per adopted entry", I+"vgram_builders/int_stream_vgram.h freqs_"), ("dictionary", "adopted dictionary", I+"vgram_builders/int_stream_vgram.h dict_")],
 ["IntStreamVGram::update_dict", "IntStreamVGram::freqs", "IntStreamVGram::alphabet"])

prop("C19", "Transforming sequences is lossless and order-preserving",
 "Transforming a list of integer sequences yields one result per sequence, in order, each a list of valid entry identifiers whose alphabet entries, concatenated, are the sequence without the symbols the model has never seen. The textual form of a result is its identifiers in order, each preceded by one space, or \"-1\" when there are none.",
 ["inputs", "histories"], "every trained model and every list of sequences, with unseen symbols and empty sequences",
 "No test calls transform.",
 [I+"vgram_builders/int_vgram.cc", I+"vgram_builders/int_stream_vgram.cc"],
 [("batch", I+"vgram_builders/int_vgram.cc transform, transform_to_string"), ("one sequence", I+"vgram_builders/int_stream_vgram.cc parse"), ("decoded alphabet", I+"vgram_builders/int_stream_vgram.cc alphabet")],
 [], ["IntVGram::transform", "IntVGram::transform_to_string", "IntStreamVGram::parse"])

prop("C20", "Text v-grams spell the text",
 "Transforming texts yields one string per text, in order: the v-grams of the text separated by single spaces, which joined together spell the normalized text without the characters the model has never seen. Segmenting one text of a stream model yields v-grams that spell the text in the same way.",
 ["inputs", "histories"], "every trained text model and every list of texts",
 "No runnable test covers the text interface.",
 [I+"vgram_builders/string_vgram.cc", I+"vgram_builders/string_stream_vgram.cc"],
 [("batch", I+"vgram_builders/string_vgram.cc transform"), ("stream", I+"vgram_builders/string_stream_vgram.cc parse"), ("vocabulary", I+"vgram_builders/string_vgram.cc alphabet")],
 [], ["StringVGram::transform", "StringStreamVGram::parse", "StringVGram::alphabet"])

prop("C21", "A saved model loads back the same",
 "Saving a model and loading it back yields a model of the same kind with the same size, minimal probability, symbol coding and v-grams, each with the same frequency; for models saved right after an update or fit of in-order dictionaries the identifiers are the same too. An integer model that was fitted loads back as fitted.",
 ["inputs", "histories"], "every updated or fitted model of each kind",
 "The save and load tests are Python scripts that need the binding and a data set download, and never ran here.",
 [I+"saver.h", I+"loader.h", I+"vgram_builders/int_stream_vgram.cc", I+"vgram_builders/int_vgram.cc"],
 [("writing", I+"saver.h"), ("reading", I+"loader.h"), ("rebuilding", I+"vgram_builders/int_stream_vgram.cc IntStreamVGram, "+I+"vgram_builders/int_vgram.cc IntVGram")],
 [], ["Saver::save", "Loader::load_int_stream_vgram", "Loader::load_int_vgram", "Loader::load_string_vgram", "Loader::load_string_stream_vgram"])

prop("C22", "A Dirichlet sample is a probability vector",
 "Sampling from any non-empty list of positive parameters (whose draws do not all vanish) fills one non-negative coordinate per parameter, each that parameter's own gamma draw divided by the sum of all draws, and touches no coordinate beyond them.",
 ["inputs"], "every non-empty parameter list, every outcome of the gamma draws",
 "No test calls the sampler; it is only exercised indirectly.",
 [A+"fast_random.cc"],
 [("draw and normalize", A+"fast_random.cc next_dirichlet")],
 [], ["next_dirichlet"])

prop("C23", "Rendering a sequence lists its elements in order",
 "Rendering any integer sequence, as a string or to a stream, gives its elements in decimal, in order, separated by single spaces and enclosed in one pair of parentheses; the empty sequence gives \"()\". Both renderings always agree.",
 ["inputs"], "every integer sequence including the empty one and negative elements",
 "No test renders a sequence.",
 [A+"int_dict.cc"],
 [("string", A+"int_dict.cc to_string"), ("stream", A+"int_dict.cc operator<<")],
 [], ["to_string", "operator<<"])

prop("C24", "Code length and evidence test follow the observed counts",
 "The reported code length per character is the entropy code length of the usage counts, power*log(power) minus the sum of f*log(f) over used entries, divided by the number of characters seen. The evidence test is true exactly when power exceeds -log(p) divided by the minimal probability, for every p.",
 ["inputs", "histories"], "every collected statistics, every probability",
 "CodeLengthPerCharTest and EnoughTest check one value each.",
 [A+"stat_dict_p.cc", A+"int_vgram_builder_p.cc"],
 [("code length", A+"stat_dict_p.cc code_length_per_char"), ("evidence", A+"stat_dict_p.cc enough"), ("builder report", A+"int_vgram_builder_p.cc code_length")],
 [("usage counters", "uses per entry", A+"stat_dict_p.h symbol_freqs_")],
 ["StatDict::code_length_per_char", "StatDict::enough", "IntVGramBuilder::code_length"])

prop("C25", "The generic item encoder is a first-appearance numbering",
 "The generic encoder numbers distinct items 0, 1, 2, ... in order of first appearance, appends one code per input item to the output in order, never renumbers an item, and reports the number of distinct items seen.",
 ["inputs", "histories"], "every history of encoded inputs",
 "The encoder template is never instantiated by the build or the tests.",
 [A+"list_dict.h"],
 [("numbering", A+"list_dict.h Encoder::encode"), ("count", A+"list_dict.h Encoder::size")],
 [("mapping", "item to code", A+"list_dict.h Encoder")],
 ["Encoder::encode", "Encoder::size"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
