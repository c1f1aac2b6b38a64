"""Which contracts, specification modules and stand-in harness belong to which property."""
GROUPS = {
    'coder': dict(units=['ifc'], cts=['coder.ct'], structs=['SeqCoder'], heap=None, specs=['num.rs', 'coder.rs']),
    'tok': dict(units=['ifc'], cts=['tok.ct'], structs=['BaseTokenizer', 'CharTokenizer', 'WordTokenizer'], heap=None, specs=['num.rs', 'tok.rs']),
    'dict': dict(units=['core'], cts=['dict.ct'], structs=['IntDictImpl'], heap=None, specs=['lex.rs', 'dict.rs', 'parse.rs', 'fp.rs', 'best.rs']),
    'enc': dict(units=['core'], cts=['enc.ct'], structs=['Encoder'], heap=None, specs=['num.rs', 'enc.rs']),
    'render': dict(units=['render'], cts=['render.ct'], structs=[], heap=None, specs=['render.rs']),
    'rand': dict(units=['core'], cts=['rand.ct'], structs=[], heap=None, specs=['rand.rs']),
    'stat': dict(units=['core'], cts=['stat.ct'], uses=['dict.ct', 'rand.ct'], structs=['IntDictImpl', 'StatDictImpl', 'StatItem'], heap=['IntDictImpl'], specs=['lex.rs', 'dict.rs', 'parse.rs', 'fp.rs', 'best.rs', 'rand.rs', 'stat.rs'], lemmas=['stat.rs']),
    'build': dict(units=['core'], cts=['build.ct'], uses=['dict.ct', 'rand.ct', 'stat.ct'], structs=['IntDictImpl', 'StatDictImpl', 'StatItem', 'IntVGramBuilderImpl'], heap=['IntDictImpl', 'StatDictImpl'], specs=['lex.rs', 'dict.rs', 'parse.rs', 'fp.rs', 'best.rs', 'rand.rs', 'stat.rs', 'build.rs'], lemmas=['build.rs']),
    'vg': dict(units=['vg'], cts=['vg.ct'], uses=['build.ct', 'dict.ct', 'coder.ct', 'tok.ct'], structs=['IntDictImpl', 'StatDictImpl', 'StatItem', 'IntVGramBuilderImpl', 'SeqCoder', 'BaseTokenizer', 'CharTokenizer', 'WordTokenizer', 'IntStreamVGram', 'IntVGram', 'StringStreamVGram', 'StringVGram'], heap=['IntDictImpl', 'StatDictImpl', 'IntVGramBuilderImpl', 'SeqCoder', 'BaseTokenizer', 'IntStreamVGram', 'IntVGram'], specs=['lex.rs', 'dict.rs', 'parse.rs', 'fp.rs', 'best.rs', 'rand.rs', 'stat.rs', 'build.rs', 'num.rs', 'coder.rs', 'tok.rs', 'vg.rs'], lemmas=['vg.rs']),
    'io': dict(units=['vg'], cts=['io.ct'], uses=['vg.ct', 'build.ct', 'dict.ct', 'coder.ct', 'tok.ct'], structs=['IntDictImpl', 'StatDictImpl', 'StatItem', 'IntVGramBuilderImpl', 'SeqCoder', 'BaseTokenizer', 'CharTokenizer', 'WordTokenizer', 'IntStreamVGram', 'IntVGram', 'StringStreamVGram', 'StringVGram'], heap=['IntDictImpl', 'StatDictImpl', 'IntVGramBuilderImpl', 'SeqCoder', 'BaseTokenizer', 'IntStreamVGram', 'IntVGram', 'StringStreamVGram', 'StringVGram', 'files'], specs=['lex.rs', 'dict.rs', 'parse.rs', 'fp.rs', 'best.rs', 'rand.rs', 'stat.rs', 'build.rs', 'num.rs', 'coder.rs', 'tok.rs', 'json.rs', 'vg.rs', 'io.rs'], lemmas=['io.rs']),
}
# property -> groups whose contracts mention it; harness that runs the real code
HARNESS = {}
for i in range(1, 26):
    p = 'C%02d' % i
    HARNESS[p] = 'ifc' if 7 <= i <= 11 else 'vg' if 17 <= i <= 21 else 'core'
# what is proved, in one sentence each (MANIFEST level_note)
PROVED = {
    'C07': 'Constructor, encode, decode and code_map of SeqCoder verified for all inputs and histories (invariant: the two tables are mutually inverse and numbered 0..n-1).',
    'C08': 'encode_immutable and decode of SeqCoder verified for all inputs against the filter specification.',
}
BOUNDED = {}
PROVED.update({
    'C01': 'IntDictImpl::search, get and the constructors verified for all dictionaries, queries, exclusion sets and learning histories.',
    'C02': 'Both list constructors, copy, init and search of IntDictImpl verified: sorted entries, exact longest-proper-prefix links, kept under learning.',
    'C03': 'IntDictImpl::weightedParse and parse verified for all dictionaries, inputs and non-negative frequencies below 2^31 - 1 (total finite and non-negative). The facts about doubles it uses are proved in Coq over IEEE binary64.',
    'C04': 'IntDictImpl::weightedParse verified optimal against every segmentation, scores folded left to right as the code adds them; doubles are IEEE binary64 (the facts used are proved in Coq, NaN included; log assumed within 1 of the logarithm).',
    'C05': 'search, linearParse, weightedParse and parse of IntDictImpl verified: entries only ever extended, by single unmatched symbols, and kept pairwise distinct.',
    'C06': 'IntDictImpl::linearParse and parse verified for all inputs and exclusion sets against a step-by-step greedy trace.',
})
PROVED.update({
    'C09': 'CharTokenizer::normalize and tokenize verified for every string: equal to the recursive specification, and the tokens concatenate to the normalised text.',
    'C10': 'BaseTokenizer::transform, transform_all, decode, decode_all and the map constructor verified for all texts, histories and tokenizers whose normalize/tokenize are functions of the text (the two virtual steps are uninterpreted contracts).',
    'C11': 'WordTokenizer::normalize and tokenize verified for every string against the recursive specification.',
})
PROVED.update({
    'C12': 'StatDictImpl::update_symbol, freq, parse and both constructors verified for all histories whose counters stay below 2^31 and whose sums stay below 2^52 (doubles add exactly there).',
    'C13': 'The constructor of StatDictImpl with priors, update_symbol and parse verified: every prior sits with its own sequence, and parse segments optimally under exactly those weights.',
    'C24': 'StatDictImpl::enough and code_length_per_char verified: the exact double expressions, folded in identifier order (double operations uninterpreted but for commutativity).',
})
PROVED.update({
    'C22': 'next_dirichlet verified for every parameter list: the draws are uninterpreted functions of the generator state, shape and scale; non-negativity of a share proved in Coq from non-negative draws (assumed of the generator).',
    'C23': 'to_string and operator<< verified for every sequence against the recursive specification (decimal digits of an int uninterpreted, the stream in its default format).',
    'C25': 'Constructor, encode and size of Encoder<int> verified for all inputs and histories (the template at one item type).',
})
PROVED.update({
    'C15': 'StatDictImpl::reduce, filter_stat_items, stat_items and its weightedParse verified for every symbol-closed dictionary with counters below 2^30 and slots >= 0 (score bounds and the absence of NaN among the sorted scores proved, the facts about doubles in Coq); parse is proved to keep dictionaries symbol-closed with a counter per entry.',
})
PROVED.update({
    'C14': 'StatDictImpl::expand, stat_item_to_text and the StatItem accessors verified for every dictionary, pair statistics whose counts add up below 2^52 and slots >= 0; scores bounded and never NaN (facts about doubles proved in Coq; assumed: the range of gamma draws of whole shapes).',
})
PROVED.update({
    'C16': 'All four constructors, accept, update, result, alpha, result_freqs, code_length and get_min_probability of IntVGramBuilderImpl verified as an invariant over every history: the dictionaries in training and published stay usable (symbol-closed, counted, within the bounds every callee asks for), revisions happen exactly on evidence, alternate, and only shrinking publishes. Bounds: sequences and entries up to 2^25 symbols, dictionaries below 2^28 entries, priors up to 2^30.',
})
PROVED.update({
    'C17': 'IntVGram (constructors, fit, recompute_freqs) and IntStreamVGram::freqs/alphabet verified for every outcome of the random sampling: the counts are the uses in one segmentation of all sequences, and their lengths add up. Bounds: 2^24 distinct symbols, sequences up to 2^25 symbols, data below 2^31 - 12*2^24 symbols, size up to 2^24.',
    'C18': 'IntStreamVGram (constructors, accept, update_dict, parse, alphabet, freqs) verified as an invariant over every history (same bounds as C17).',
    'C19': 'IntStreamVGram::parse and alphabet, IntVGram::transform and transform_to_string verified for every sound model and every list of sequences below 2^30 symbols.',
    'C20': 'StringVGram and StringStreamVGram verified on top of the integer models and BaseTokenizer (its two virtual steps uninterpreted functions of the text).',
})
PROVED.update({
    'C21': 'All functions of Saver and Loader verified against the JSON value that describes a model, and the round trip proved as lemmas over those contracts: what is saved can be loaded and is the same model again. The JSON library and the file system are trusted (a finite, UTF-8 value reads back as written). Bounds: at most 2^24 v-grams and symbols, frequencies up to 2^30.',
})
