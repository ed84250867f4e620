import json
M="core/src/main/cpp/"
A=M+"algorithm/"; I=M+"interfaces/"
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
      "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":hook}})

p("C01","Segmentation is lossless",
 "Parsing a sequence with a dictionary (greedily without exclusions, by weights, with statistics, or inside an integer or text pipeline) yields identifiers of existing entries whose sequences, concatenated in order, are exactly the parsed sequence: nothing is lost, repeated or reordered, and an empty sequence gives an empty parse. Identifiers are appended after whatever the output already held, and the returned number is the total number of identifiers in the output.",
 ["inputs","histories","configurations"],"every dictionary (prefix-closed or not, also grown), every sequence of any length and any int symbols, every weight vector, every earlier history of the object",
 "Tests parse a handful of strings over 3-7 letters with one dictionary each; a segmentation that breaks only for gapped dictionaries, grown entries, repeated tokens or reused outputs is never tried.",
 [A+"int_dict_p.cc",A+"stat_dict_p.cc"],[("Viterbi back-tracking and greedy loop","IntDictImpl::weightedParse, IntDictImpl::linearParse, StatDictImpl::parse")],
 [("seqs_","entries by identifier","IntDictImpl")],["IntDict::parse (both)","StatDictImpl::parse","IntStreamVGram::parse","IntVGram::transform","StringStreamVGram::parse"],"accepted() hook for parses inside learning")
p("C02","Weighted parsing picks the most probable segmentation",
 "Among all segmentations of a sequence into entries of the dictionary, a weighted parse returns one whose probability is maximal, where an entry with weight f has probability (f+1)/(total+dictionary size) and an entry without a weight counts as weight 0. This holds for explicit weights, for the running statistics of a dictionary during learning, and for the frequencies published by a pipeline.",
 ["inputs","histories","configurations"],"every dictionary, weights (absent, short, zero, large), total and sequence",
 "The tests compare parses only by the coverage of the text; optimality over an exponential number of segmentations is never computed.",
 [A+"int_dict_p.cc",A+"stat_dict_p.cc",I+"vgram_builders/int_stream_vgram.cc"],[("dynamic programming over prefixes","IntDictImpl::weightedParse")],
 [("parse_freqs_ / freqs_","weights used for parsing","StatDictImpl, IntStreamVGram")],["IntDict::parse with weights","StatDictImpl::parse","IntStreamVGram::parse"],"accepted() hook")
p("C03","Search finds the longest allowed entry; greedy parse follows it",
 "Searching a sequence returns the longest entry of the dictionary that is a prefix of the sequence and is not excluded, or nothing if exclusions were given and no entry qualifies. Greedy parsing is repeated search from left to right; with exclusions it skips exactly those symbols at which no allowed entry starts.",
 ["inputs","histories"],"every dictionary (gaps between lengths, entries grown after creation), query and exclusion set",
 "Tests search a few exact entries; nested prefixes with gaps, excluded ancestors and appended symbols are not covered.",
 [A+"int_dict_p.cc",A+"stat_dict_p.cc"],[("binary search plus parent chain plus appended symbols","IntDictImpl::search"),("greedy loop","IntDictImpl::linearParse")],
 [("parents_","longest proper prefix entry","IntDictImpl")],["IntDict::search","IntDict::parse(seq,out,excludes)","StatDictImpl::search"])
p("C04","A dictionary is a canonical prefix tree of its sequences",
 "A dictionary built from distinct sequences holds exactly these sequences in lexicographic order, whatever the order they were given in, and the same identifiers are answered by get, alphabet and search. The parent of an entry is the longest other entry that is its proper prefix, or none.",
 ["inputs"],"every finite set of distinct non-empty sequences in every order, with any int symbols",
 "Tests use one or two dictionaries of letters given in one order.",
 [A+"int_dict_p.cc",A+"stat_dict_p.cc"],[("sorting and a stack of open prefixes","IntDictImpl::init")],
 [("seqs_, parents_","sorted entries and prefix links","IntDictImpl")],["get","alphabet","parent","size","search"])
p("C05","Dictionaries grow only by single symbols they lack",
 "The only change use makes to a dictionary is that a search or parse without exclusions appends, at the end and once, a one-symbol entry for a symbol at which no entry starts; identifiers, entries and their order never change otherwise, parents stay right, and the appended entries are found like any other. Searching with exclusions never changes the dictionary.",
 ["histories","inputs"],"every history of searches, parses and observations on a dictionary and on copies of it",
 "Needs long mixed histories with symbols appended out of sorted order; tests append at most one symbol.",
 [A+"int_dict_p.cc"],[("append in search","IntDictImpl::search")],
 [("appended_","symbols met after creation","IntDictImpl")],["size","alphabet","parent","search"])
p("C06","Statistics count exactly what was parsed",
 "The frequency of an entry is exactly the number of times it occurred in the parses made (plus explicit updates) since the dictionary was created; initial frequencies only weigh parsing and follow their sequences, whatever order they come in. The code length per symbol is the empirical entropy of these counts divided by the number of parsed symbols, and the evidence is reported sufficient for a probability p exactly when the number of counted entries exceeds -ln(p) divided by the minimum probability.",
 ["histories","inputs"],"every interleaving of parses (into fresh and reused outputs), updates and observations",
 "Tests check counts for single short parses; reused outputs, growth during parsing and unsorted initial frequencies are not covered.",
 [A+"stat_dict_p.cc"],[("update_symbol on every parsed token","StatDictImpl::parse"),("entropy","StatDictImpl::code_length_per_char"),("threshold","StatDictImpl::enough")],
 [("symbol_freqs_, power_, total_chars_","counts and their totals","StatDictImpl")],["freq","code_length_per_char","enough"])
p("C07","Learning never loses a symbol",
 "As long as the requested size leaves room for all symbols met, every symbol of the initial alphabet or of the accepted data has its own entry in every dictionary produced by learning, so that any data seen before can still be segmented. Expansion moreover keeps every entry of the dictionary it expands.",
 ["histories","configurations"],"every history of accepted sequences across any number of learning steps, also after restoring and with symbols that first appear late",
 "Tests run one data set whose symbols all occur from the start.",
 [A+"stat_dict_p.cc",A+"int_vgram_builder_p.cc"],[("symbols have the maximal score","StatDictImpl::stat_items, StatDictImpl::expand"),("extra slots for roots","StatDictImpl::filter_stat_items")],
 [("current_, result_","working and published dictionary","IntVGramBuilderImpl")],["IntVGramBuilder::result","alpha","IntStreamVGram::alphabet"],"updated() hook")
p("C08","Every v-gram comes from the data",
 "Every entry of a learned dictionary that is longer than one symbol was either in the initial dictionary or occurs contiguously inside at least one accepted sequence; it never spans two sequences. Expansion only adds concatenations of two entries that were adjacent in a parse of the data, each at most once.",
 ["histories"],"every accepted history across learning steps",
 "Tests compare the alphabet with expected words on random text where a spurious v-gram passes unnoticed.",
 [A+"stat_dict_p.cc"],[("pairs of neighbouring tokens inside one parse","StatDictImpl::parse, StatDictImpl::expand")],
 [("pairs_freqs_","counts of neighbouring tokens","StatDictImpl")],["IntVGramBuilder::result","IntStreamVGram::alphabet"],"updated() hook")
p("C09","Published dictionaries respect the requested size",
 "When the requested size leaves room for the symbols, a published dictionary holds at most as many v-grams longer than one symbol as the size leaves beside the symbols known at the previous learning step (with one entry of slack), and a dictionary of an integer or text pipeline that met no new symbols since has at most the requested number of entries. Restoring with a size keeps that limit.",
 ["histories","configurations"],"every size, data and number of learning steps, with symbols first met at any time, before and after restore",
 "Tests print or ignore sizes and use one configuration.",
 [A+"int_vgram_builder_p.cc",A+"stat_dict_p.cc"],[("slots","IntVGramBuilderImpl::update, StatDictImpl::filter_stat_items")],
 [("size_, symb_alphabet_","budget and known symbols","IntVGramBuilderImpl")],["result()->size()","alphabet().size()"],"updated() hook")
p("C10","Learning steps happen exactly when there is evidence, and alternate",
 "A learning step happens after accepting a sequence exactly when the counted entries exceed -ln(probability of missing)/(minimum probability) or twenty million, the probability of missing starting at 0.1 and being multiplied by 0.8 exactly at the steps that are the fourth or a later one in a row without a new best code length per symbol (less than all earlier ones and less than one byte). Steps alternate between expansion, which leaves the published dictionary untouched, and reduction, which publishes; the minimum probability stays positive, never increases within a builder, and becomes the smallest probability among the v-grams the step chose when that is smaller.",
 ["histories"],"every sequence of accepts",
 "Tests only look at the end result after millions of symbols.",
 [A+"int_vgram_builder_p.cc",A+"stat_dict_p.cc"],[("accept / update state machine","IntVGramBuilderImpl::accept, update"),("threshold","StatDictImpl::enough")],
 [("populate_, prob_found_, min_probability_","phase and evidence threshold","IntVGramBuilderImpl, StatDictImpl")],["result","get_min_probability","accept"],"updated() hook")
p("C11","Frequencies follow their v-grams from one generation to the next",
 "When learning replaces a dictionary, every entry of the new one starts with the number of times that very sequence was counted in the previous generation (for a new v-gram: the number of times its two parts were adjacent), used as parsing weight, while its own counting restarts at zero. The frequencies a builder reports have one value per entry of the dictionary it reports, at the same positions, and are the counts made with that dictionary.",
 ["histories"],"every learning history, every order in which entries are ranked or appended",
 "Frequencies of a learned dictionary are never compared with an independent count in the tests.",
 [A+"stat_dict_p.cc",A+"int_vgram_builder_p.cc"],[("alignment of init_freqs","StatDictImpl::StatDictImpl"),("result_freqs","IntVGramBuilderImpl::result_freqs")],
 [("parse_freqs_, symbol_freqs_","weights and counts","StatDictImpl")],["result_freqs","result"],"updated() hook")
p("C12","Symbol coders are dense, stable bijections",
 "Encoding assigns each distinct value the next free code 0,1,2,... at its first occurrence and the same code ever after, and decoding returns the value that was encoded; the code map lists exactly the values seen. Immutable encoding assigns nothing: it drops unknown values and codes the others as usual.",
 ["histories","inputs"],"every interleaving of encodings, immutable encodings and decodings; int extremes, strings for the generic encoder",
 "There are no tests of the coders at all.",
 [I+"seq_coder.cc",A+"list_dict.h"],[("maps in both directions","SeqCoder::encode, encode_immutable, decode; Encoder::encode")],
 [("forward_code_, backward_code_","value to code and back","SeqCoder")],["encode","encode_immutable","decode","code_map","Encoder::size"])
p("C13","Tokenizers are reversible and keep token codes apart",
 "A tokenizer gives every distinct token one code that never changes and that no other token shares, also when it starts from a given map with arbitrary codes, and decoding the codes of a text gives back its normalized tokens in order; codes that were never given decode to nothing. The character tokenizer keeps exactly the alphanumeric characters in lower case, one token each; the word tokenizer's tokens are the maximal runs of characters other than spaces.",
 ["inputs","histories"],"every text (any bytes), every initial map, every history of transforms",
 "There are no C++ tests of tokenizers.",
 [I+"tokenizers/base_tokenizer.cc",I+"tokenizers/char_tokenizer.cc",I+"tokenizers/word_tokenizer.cc"],[("codes assigned at first occurrence","BaseTokenizer::transform"),("normalization and splitting","CharTokenizer, WordTokenizer")],
 [("forward_coder_, backward_coder_","token to code and back","BaseTokenizer")],["transform","decode","normalize","tokenize"])
p("C14","A stream parse decodes to the known part of its input",
 "Parsing a sequence with an integer stream returns identifiers into its alphabet whose v-grams, concatenated, are the input with exactly those symbols removed that were never accepted (or loaded); this holds at any time: before any data, between dictionary updates and while the builder keeps learning. Parsing never makes an unknown symbol known.",
 ["histories","inputs"],"every interleaving of accept, parse, update, save and load",
 "Stream pipelines have no C++ tests.",
 [I+"vgram_builders/int_stream_vgram.cc",I+"seq_coder.cc"],[("immutable coding before parsing","IntStreamVGram::parse")],
 [("dict_, coder_","published dictionary and symbol codes","IntStreamVGram")],["parse","alphabet","get_coder"])
p("C15","Alphabet and frequencies of a pipeline describe one dictionary",
 "The alphabet and the frequencies a pipeline reports always have the same length and describe the same entries position by position; entries are distinct and, apart from appended symbols, identifiers do not change between dictionary updates. Updating takes the dictionary and the counts the builder reports at that moment; later accepts change neither earlier entries nor reported frequencies until the next update.",
 ["histories"],"every interleaving of accept, parse, update and observation",
 "Stream pipelines have no C++ tests.",
 [I+"vgram_builders/int_stream_vgram.cc",A+"int_vgram_builder_p.cc"],[("snapshot","IntStreamVGram::update_dict, freqs, alphabet")],
 [("dict_, freqs_, total_freqs_","published snapshot","IntStreamVGram")],["alphabet","freqs"])
p("C16","Fitting counts every text exactly and happens once",
 "Fitting learns from as many sequences per iteration as are given, each one of the given sequences, and then sets the frequencies to the exact number of times each v-gram occurs in the most probable parse of every given sequence, so that frequencies times v-gram lengths add up to the number of symbols given. Once fitted with computed frequencies, fitting again changes nothing; a model fitted but without frequencies only computes them.",
 ["inputs","histories"],"every list of sequences (empty ones and repeated ones included), sizes, iteration counts, and repeated fits",
 "Fit has no C++ tests.",
 [I+"vgram_builders/int_vgram.cc"],[("fit and recompute_freqs","IntVGram::fit, IntVGram::recompute_freqs")],
 [("fitted_, freqs_computed_, freqs_","phase and frequencies","IntVGram")],["fit","freqs","alphabet"],"accepted() hook")
p("C17","Transforming is elementwise and changes nothing",
 "Transforming a list of sequences gives one result per sequence, in order, each being what parsing that sequence alone gives, whatever else is transformed before or with it; it changes neither alphabet entries nor frequencies. The textual form of a result is its identifiers separated by single spaces, or -1 if there are none.",
 ["inputs","histories"],"every list of sequences (unknown symbols, empty, duplicates) on every fitted, unfitted or loaded model",
 "Transform has no C++ tests.",
 [I+"vgram_builders/int_vgram.cc",I+"vgram_builders/int_stream_vgram.cc"],[("transform, transform_to_string","IntVGram")],
 [],["transform","transform_to_string","freqs","alphabet"])
p("C18","Text pipelines equal tokenizer plus integer pipeline",
 "A text pipeline behaves as its tokenizer followed by the integer pipeline: the v-grams of a parsed or transformed text, joined, spell the normalized text restricted to known tokens, text alphabets are the decoded integer alphabets in the same order, and frequencies are the same. Asking for words as tokens together with splitting inside words is refused.",
 ["inputs","histories","configurations"],"every text (any bytes), both tokenizers, every interleaving of accept, fit, parse, update, save and load",
 "Text pipelines have no C++ tests.",
 [I+"vgram_builders/string_stream_vgram.cc",I+"vgram_builders/string_vgram.cc"],[("composition","StringStreamVGram::accept/parse/alphabet, StringVGram::fit/transform/alphabet")],
 [("tokenizer_, stream_builder_, int_builder_","parts","StringStreamVGram, StringVGram")],["parse","transform","alphabet","freqs"])
p("C19","Saving and loading preserves a model",
 "A model loaded from a saved file parses and transforms as the saved one did, reports the same alphabet and frequencies, and is in the same state of fitting; saving it again gives an equivalent file. Saving does not change the model.",
 ["histories","inputs"],"every model state: unfitted, learning, fitted, grown dictionary, with and without tokenizer, for all four kinds of pipeline",
 "Saving and loading have no C++ tests.",
 [I+"saver.h",I+"loader.h",I+"vgram_builders/int_stream_vgram.cc",I+"vgram_builders/int_vgram.cc"],[("JSON writer and reader","Saver, Loader"),("restoring constructors","IntStreamVGram, IntVGram, IntVGramBuilderImpl")],
 [("size_, min_probability_, coder_, dict_, freqs_","saved fields","IntStreamVGram")],["save","Loader::load_*"])
p("C20","A saved file states the model's size, coder, alphabet and frequencies",
 "A saved file holds the requested size, the minimum probability of the published dictionary, the symbol values in the order of their codes, and for every entry of the alphabet in order its coded sequence, its frequency and, where a tokenizer exists, its text; fitted models add whether they are fitted and whether frequencies are computed. A model loaded from such a file, written by hand in any entry order, has exactly the stated entries and frequencies.",
 ["histories","inputs"],"every saved model state and every well-formed file",
 "Saving and loading have no C++ tests.",
 [I+"saver.h",I+"loader.h"],[("add_base_info, add_fitted_info, read_dict","Saver, Loader")],
 [],["save","Loader::load_*"])
p("C21","A restored model goes on learning where it stopped",
 "A builder or pipeline restored from a dictionary with frequencies, alphabet, minimum probability and size publishes exactly that dictionary, uses the frequencies as initial weights without counting them, and then learns under the same rules as a new one: the same evidence threshold from the stated minimum probability, the same alternation, and the same room for v-grams beside the symbols.",
 ["histories","configurations"],"every restorable state followed by every history of accepts",
 "One restore test exists and checks only coverage of text, with one dictionary whose ids coincide with sorted order.",
 [A+"int_vgram_builder_p.cc",I+"vgram_builders/int_stream_vgram.cc",I+"loader.h"],[("restoring constructor","IntVGramBuilderImpl::IntVGramBuilderImpl(dict, freqs, alphabet, ...)")],
 [("current_, result_, size_, symb_alphabet_","restored state","IntVGramBuilderImpl")],["result","result_freqs","get_min_probability","accept"],"updated() hook")
p("C22","An interrupted fit or transform does not pass for a finished one",
 "When fitting is interrupted, fit reports it by returning nothing, the model does not count as fitted (or, interrupted while counting, not as having frequencies), and it stays usable: alphabet, frequencies, parsing, saving and a later complete fit work, the latter with exact frequencies. An interrupted transform returns the results of a prefix of its input and nothing else changes.",
 ["fault_sequences","histories"],"interruption at every possible point of fit and transform, followed by any use",
 "The interruption hook is never exercised by tests.",
 [I+"vgram_builders/int_vgram.cc"],[("isTerminated checks","IntVGram::fit, recompute_freqs, transform")],
 [("fitted_, freqs_computed_","phase","IntVGram")],["fit","transform","save"])
p("C23","Objects do not disturb each other",
 "Copies of a dictionary, dictionaries handed out as an alphabet, the arguments objects are built from, and separate builders or pipelines are independent: no operation on one changes what another reports. A published dictionary that somebody still holds keeps its entries under their identifiers while learning goes on.",
 ["histories"],"every interleaving of operations on several live objects derived from one another",
 "One test checks independence of two builders by coverage only.",
 [A+"int_dict_p.cc",A+"int_vgram_builder_p.cc",A+"stat_dict_p.cc"],[("copying constructors, new generations instead of in-place changes","IntDictImpl copy, alpha(), update()")],
 [],["alphabet","result","alpha","copy"])
p("C24","Learning is reproducible",
 "Two objects of the same kind created with the same arguments and given the same sequences in the same order (and, for fitting, the same state of the pseudo-random generator) report the same dictionaries, frequencies, minimum probabilities and parses at every moment, whatever was done with other objects in between or with calls that only read.",
 ["histories"],"every history applied twice, with unrelated or observing operations in between",
 "No test repeats a run.",
 [A+"fast_random.cc",A+"stat_dict_p.cc",A+"int_vgram_builder_p.cc"],[("generators seeded identically at every use","next_dirichlet")],
 [],["result","result_freqs","alphabet","freqs","parse"])
p("C25","Reduction keeps the v-grams that shorten the description",
 "A reduction keeps only entries of the dictionary it reduces: all symbols, and of the longer entries those whose replacement by the rest of the dictionary would lengthen the description of the counted data, an entry never counted being dropped. If they do not all fit, the ones with the larger gain are kept.",
 ["histories","inputs"],"every counted state of a dictionary that reaches a reduction",
 "The tests check coverage of expected words, not which v-grams are chosen.",
 [A+"stat_dict_p.cc"],[("description-length score","StatDictImpl::stat_items, filter_stat_items, reduce")],
 [("symbol_freqs_","counts","StatDictImpl")],["IntVGramBuilder::result"],"updated() hook")
p("C26","Expansion adds the neighbours that belong together",
 "Which concatenations an expansion adds is decided by how much the two neighbours belong together. With ab the number of times the second followed the first, the association of a pair is the logarithm of ab's ratio to what independence of first and second entries predicts, and its score is ab times the share of the second among the followers of the first times the association (both estimated from the counts, so that close cases are open). Neighbours with clearly positive association are added as long as there is room, neighbours with clearly negative association never are, and if there is no room for all, those with the clearly higher score come first.",
 ["histories","inputs"],"every counted state of a dictionary that reaches an expansion, pairs counted at least three times, differences beyond the spread of the estimates",
 "The tests check coverage of expected words on strongly structured text; which of hundreds of pairs are chosen is never compared with the counts.",
 [A+"stat_dict_p.cc",A+"fast_random.cc"],[("score of a pair from a Dirichlet sample, sorting, slots","StatDictImpl::expand, next_dirichlet")],
 [("pairs_freqs_","counts of neighbouring tokens","StatDictImpl")],["IntVGramBuilder::result"],"accepted() and updated() hooks")
p("C27","Estimates are probability vectors near the observed shares",
 "A draw from the Dirichlet distribution, by which rates of neighbours are estimated, has one component for every parameter; components are probabilities and sum to one; each is as near to the share of its parameter as the total of the parameters says (within twenty standard deviations); the same parameters always give the same draw, and parameters are not changed.",
 ["inputs"],"every vector of counts",
 "No test draws; a wrong estimate only changes which v-grams a dictionary prefers.",
 [A+"fast_random.cc"],[("gamma variates divided by their sum, generator seeded at every draw","next_dirichlet")],
 [],["next_dirichlet"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80; 
print(len(P))
