import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("A01","The analysis always tiles the input exactly",
"For every valid UTF-8 sentence within the documented size limit and every dictionary, specification, weights and beam setting, analysis succeeds and the surfaces of the words on the best path, read in order, concatenate to exactly the input bytes with no gap, overlap, invention or reordering. Every lattice word covers the very stretch of text it claims (its start, its length in characters and its surface agree), and every partial path kept in a beam is itself such a connected chain.",
["inputs","configurations"],"all UTF-8 sentences (any scripts, repeated, mixed, supplementary-plane characters) x generated specifications/dictionaries/unknown-word rules/weights/beam sizes",
"Unit tests analyse a few hand-written sentences with fixed toy dictionaries; connectivity and tiling depend on the interaction of arbitrary dictionary words, unknown-word rules and normalisation over arbitrary text.",
["src/core/analysis/analyzer_impl.cc","src/core/analysis/lattice_builder.cc","src/core/analysis/lattice_types.cc","src/core/analysis/analysis_result.cc","src/core/analysis/output.cc","src/core/analysis/score_processor.cc"],
[("lattice construction and connectivity check","src/core/analysis/lattice_builder.cc"),("best path extraction","src/core/analysis/analysis_result.cc"),("seed preparation","src/core/analysis/analyzer_impl.cc prepareNodeSeeds/buildLattice")],
["src/core/analysis/analyzer.h","src/core/analysis/analysis_result.h"])

p("A02","Any byte string is analysed or rejected cleanly, and the analyzer stays usable",
"For every byte string whatsoever - invalid or truncated UTF-8, control characters, embedded NULs, empty or oversized input - analysis either succeeds or returns an error, without crashing, hanging or touching memory it does not own. Input that has a broken or truncated UTF-8 sequence or exceeds the configured size limit is always reported as an error, never silently analysed, and a failed call leaves the analyzer able to analyse the next sentence with the normal result.",
["inputs","histories"],"all byte strings, interleaved with valid sentences on one analyzer",
"Tests contain no malformed input beyond a couple of UTF-8 cases and never continue with the same analyzer after an error; memory errors do not show without sanitizers.",
["src/core/analysis/analysis_input.cc","src/util/characters.cc","src/core/analysis/analyzer_impl.cc","src/core/analysis/numeric_creator.cc","src/core/analysis/onomatopoeia_creator.cc","src/core/analysis/charlattice.cc","src/core/analysis/unk_nodes_creator.cc"],
[("input validation","src/core/analysis/analysis_input.cc reset"),("UTF-8 decoder","src/util/characters.cc preprocessRawData")])

p("A03","Analysis is deterministic and independent of history, instance and thread",
"The result of analysing a sentence (chosen words, scores, the full lattice and every output rendering) depends only on the model, the configuration and that sentence: it is the same on a fresh analyzer, on one that has analysed any other sentences (including failed or constrained ones) before, and on analyzers running concurrently in other threads over the same shared model.",
["inputs","histories","schedules"],"all histories of sentences (valid, invalid, long, empty, constrained) on a reused analyzer; several analyzers sharing one model in parallel threads",
"Tests analyse one or two sentences per analyzer, sequentially; state left in pools, caches, hash maps and beams shows only for particular sequences.",
["src/core/analysis/analyzer_impl.cc","src/core/analysis/analyzer_impl.h","src/core/analysis/lattice_types.cc","src/core/analysis/extra_nodes.cc","src/core/analysis/score_processor.cc","src/util/memory.cpp","src/core/analysis/output.cc"],
[("reset for a new input","src/core/analysis/analyzer_impl.cc resetForInput"),("memory reuse","src/util/memory.cpp reset"),("extra node context reset","src/core/analysis/extra_nodes.cc")])

p("A04","The lattice holds exactly the dictionary words that occur in the text",
"For every dictionary and sentence, at every character position the lattice contains every dictionary entry whose surface string occurs in the text starting at that position, exactly once each and with all of its field values, and contains no dictionary word that does not occur there. Entries merged because they share analysis-relevant values are all still enumerated in the output.",
["inputs","configurations"],"all dictionaries (prefix chains, duplicates, multi-byte, homographs) x all sentences over their alphabet",
"Tests look up a handful of words; completeness of trie traversal over shared prefixes, alias expansion and entry pointers needs arbitrary dictionaries.",
["src/core/analysis/dictionary_node_creator.cc","src/core/dic/darts_trie.cc","src/core/dic/dic_entries.h","src/core/dic/entry_builder.cc","src/core/analysis/output.cc","src/core/analysis/dic_reader.cc"],
[("trie prefix traversal","src/core/analysis/dictionary_node_creator.cc"),("entry pointer lists","src/core/dic/entry_builder.cc")])

p("A05","Unknown-word candidates follow the rules declared in the specification",
"For every text and set of declared unknown-word rules, the candidate words added beyond the dictionary are exactly those the documented rules call for - character-class chunks, single characters, numbers (with their notations for separators, prefixes, interfixes and suffixes), reduplicated onomatopoeia and normalised spellings that match a dictionary word - with the surface taken from the text, the template entry's other fields, the declared feature placeholders and priorities, and nothing else. A rule of higher priority number is consulted only where lower ones left a gap, so that every text stays analysable.",
["inputs","configurations"],"all texts mixing scripts, digits, long-vowel and small-kana marks x all subsets of unknown-word rules and dictionaries",
"Tests cover a dozen fixed strings per rule; the rules are stateful scanners over arbitrary character-class sequences and interact with dictionary coverage.",
["src/core/analysis/unk_nodes_creator.cc","src/core/analysis/numeric_creator.cc","src/core/analysis/onomatopoeia_creator.cc","src/core/analysis/normalized_node_creator.cc","src/core/analysis/charlattice.cc","src/core/analysis/unk_nodes.cc"],
[("chunking/single makers","src/core/analysis/unk_nodes_creator.cc"),("numbers","src/core/analysis/numeric_creator.cc"),("normalisation automaton","src/core/analysis/charlattice.cc")])

p("A06","The reported best path is the highest-scoring path and scores add up",
"The score reported for a path equals the sum of the scores of the words and transitions along it, beams are ordered by that score, and no kept path scores worse than one that was dropped at the same place. When the beam is wide enough to hold all alternatives the reported analysis is the global maximum over every route through the lattice, and a global beam that is wide enough not to prune anything changes nothing.",
["inputs","configurations"],"all sentences x generated models (spec, dictionary, weights) x local and global beam sizes including degenerate ones",
"Tests compare a few fixed scores; optimality is a statement about all routes through arbitrary lattices and all beam configurations.",
["src/core/analysis/score_processor.cc","src/core/analysis/score_processor.h","src/core/analysis/lattice_types.h","src/core/analysis/analyzer_impl.cc","src/core/analysis/perceptron.cc"],
[("beam update","src/core/analysis/score_processor.cc makeBeams/resolveBeam"),("global beam","src/core/analysis/score_processor.cc makeGlobalBeamElems")])

p("A07","Feature values are what the specification says they are",
"For every specification, two occurrences of words get the same value of a declared feature combination if and only if the dictionary fields, placeholders and computed features named in that combination agree: string, list and integer fields, substring and length features, list membership, key lookups, conditional and match features all evaluate per their definition on the entry (and, for unknown words, on the surface). Every feature combination declared for one, two or three neighbouring words contributes exactly once to the score, drawing its weight only from the words at those distances.",
["inputs","configurations"],"all generated specifications using every feature kind x dictionaries x sentences",
"Tests fix one spec per feature kind; the compilation from textual spec to feature plans (indices, storage sharing, alignment, partial n-gram decomposition) is exercised only by arbitrary combinations.",
["src/core/impl/feature_impl_prim.h","src/core/impl/feature_impl_compute.cc","src/core/impl/feature_impl_pattern.cc","src/core/impl/feature_impl_combine.h","src/core/impl/feature_impl_ngram_partial.cc","src/core/spec/spec_compiler.cc","src/core/dic/dic_feature_impl.cc","src/core/analysis/ngram_computations.cc"],
[("feature compilation","src/core/spec/spec_compiler.cc"),("n-gram decomposition","src/core/impl/feature_impl_ngram_partial.cc"),("dictionary-time features","src/core/dic/dic_feature_impl.cc")])

p("A08","Generated feature code computes the same scores as the interpreter",
"For every specification and model, analysing any sentence with the statically generated feature code gives the same feature values, scores and result as the dynamic (interpreted) feature implementation.",
["inputs","programs","configurations"],"generated specifications (code is generated, compiled and loaded) x dictionaries x sentences; also the bundled Jumandic specification",
"Two fixed specifications are compiled in the tests and compared on two or three sentences.",
["src/core/codegen/feature_codegen.cc","src/core/codegen/pattern_feature_codegen.cc","src/core/codegen/ngram_feature_codegen.cc","src/core/codegen/partial_ngram_feature_codegen.cc","src/core/features_api.cc"],
[("code generation","src/core/codegen")])

p("D01","A built dictionary returns exactly what was in the source CSV",
"For every specification and well-formed dictionary source, every row is present in the built dictionary under its surface form and every declared field of it - strings, string lists, key-value lists, integers, empty values, skipped columns, aligned or shared storage - reads back as written, regardless of row order, duplicates and value sizes. A row that does not fit the specification is reported as an error rather than stored wrongly.",
["inputs","configurations"],"all field layouts and CSV contents",
"Tests build dictionaries of a few rows with one layout each; offsets, deduplication, pointer widths and alignment depend on all the other content.",
["src/core/dic/dic_builder.cc","src/core/dic/dic_build_detail.cc","src/core/dic/entry_builder.cc","src/core/dic/field_import.cc","src/core/dic/field_import.h","src/core/dic/field_reader.h","src/core/dic/dictionary.cc","src/core/dic/darts_trie.cc"],
[("field importers","src/core/dic/field_import.cc"),("entry table","src/core/dic/entry_builder.cc")])

p("D02","Saving and loading a model preserves it; damaged model files are refused",
"A model written to disk and loaded back yields the same specification, dictionary, weights and analyses as the in-memory one. A model file that is truncated, not a model at all or has damaged headers or counts is reported as an error - never a crash, a hang, an unbounded allocation or an out-of-bounds access.",
["inputs","fault_sequences","crash_points"],"all generated models; all truncation points and byte damage of the header/part directory of the saved file",
"Tests save and load one tiny model and never damage it.",
["src/core/impl/model_io.cc","src/core/impl/model_format_ser.h","src/core/impl/perceptron_io.h","src/core/dic/dic_builder.cc","src/util/serialization.h","src/util/mmap.cc","src/core/analysis/perceptron.cc","src/core/env.cc"],
[("model container","src/core/impl/model_io.cc"),("dictionary restore","src/core/dic/dic_builder.cc restoreDictionary")])

p("S01","The specification language means the same however it is written",
"A specification written as text, in any legal layout (whitespace, comments, quoting, order of independent clauses), produces the same model specification as building it through the programming interface, and survives being stored in a model unchanged. Any text that is not a valid specification (bad syntax, unknown or duplicate names, wrong field kinds) is rejected with an error message, never accepted with another meaning and never a crash.",
["inputs","programs"],"all specifications expressible through the builder, rendered with random layout; mutated and random texts",
"Tests parse a couple of dozen fixed snippets.",
["src/core/spec/spec_grammar.h","src/core/spec/spec_parser.cc","src/core/spec/spec_parser_impl.cc","src/core/spec/spec_dsl.cc","src/core/spec/spec_compiler.cc","src/core/spec/spec_ser.h"],
[("grammar","src/core/spec/spec_grammar.h"),("validation","src/core/spec/spec_dsl.cc validate"),("serialization","src/core/spec/spec_ser.h")])

p("U01","CSV reading follows the quoting rules exactly",
"For every table of strings, writing it as CSV (quoting where needed, with doubled quotes, any separator and quote character, LF or CRLF, with or without final newline) and reading it back yields the same rows and fields. Every byte string is read to its end or rejected with an error, in bounded time, and the reported line numbers and field counts are right.",
["inputs"],"all tables of byte strings; all raw byte strings",
"Tests read a few fixed lines.",
["src/util/csv_reader.cc","src/util/mmap.cc"],
[("reader","src/util/csv_reader.cc nextLine")])

p("U02","Binary encodings decode to what was encoded and reject damage",
"Every value written with the compact integer/string coding or the structural serializer (integers of all widths, strings, vectors, maps, nested records) reads back equal, consuming exactly the bytes written. Decoding truncated or arbitrary bytes ends in a reported failure or a bounded valid value, without reading outside the buffer or allocating without bound.",
["inputs"],"all value sequences; all byte strings and truncations",
"Tests encode a few constants and do not try damaged data.",
["src/util/coded_io.cc","src/util/coded_io.h","src/util/serialization.h","src/util/serialization_flatmap.h"],
[("varint coding","src/util/coded_io.cc"),("structural serializer","src/util/serialization.h")])

p("U03","UTF-8 text is decoded and classified per code point exactly",
"Decoding accepts a byte string if and only if it is a sequence of complete, structurally correct UTF-8 sequences, and then yields exactly its code points in order, each with its own bytes and its documented character classes (kanji, hiragana, katakana, digits, letters, symbols, prolonged marks and so on). Positions, counts and conversions between byte offsets and characters agree with that decoding.",
["inputs"],"all byte strings; the whole code point range",
"Tests classify about thirty characters.",
["src/util/characters.cc","src/util/characters.h","src/core/analysis/analysis_input.cc"],
[("decoder","src/util/characters.cc"),("class tables","src/util/characters.cc")])

p("U04","The supporting containers behave like their plain models",
"Under every sequence of operations, the hash map and set, small vector, LRU cache, bounded queue, best-N partition, arena allocator, string buffer, slices and string views behave as the corresponding simple container: no element is lost, duplicated or changed, iteration visits each once, references stay valid where promised, and comparisons and ordering are those of the byte strings.",
["histories","inputs"],"all operation sequences up to a bounded length",
"Tests run a few fixed sequences; probing, growth, page switching and eviction depend on the history.",
["src/util/flatmap.h","src/util/flatset.h","src/util/flatrep.h","src/util/inlined_vector.h","src/util/lru_cache.h","src/util/bounded_queue.h","src/util/memory.hpp","src/util/char_buffer.h","src/util/string_piece.h","src/util/array_slice.h","src/util/sliceable_array.h"],
[("open addressing","src/util/flatrep.h"),("arena","src/util/memory.cpp")])

p("O01","Juman and morpheme output describe exactly the chosen analysis",
"For every sentence, the default (Juman), morpheme and full-morpheme outputs list the words of the best path in order, each with its own surface, reading, base form, part of speech, conjugation and features, with homographic alternatives marked as such and special characters escaped; the part-of-speech and conjugation identifiers printed are those of the names printed next to them. Sentence comments and end-of-sentence marks are reproduced once per sentence, so that the text can be recovered from the output.",
["inputs"],"all sentences (including spaces, quotes, commas, slashes, empty) x all Jumandic-shaped dictionaries and weights",
"Tests check a few outputs of one mini dictionary.",
["src/jumandic/shared/juman_format.cc","src/jumandic/shared/morph_format.cc","src/jumandic/shared/jumandic_ids.cc","src/jumandic/shared/jumandic_id_resolver.cc","src/jumandic/shared/jumandic_env.cc","src/core/impl/segmented_format.cc"],
[("formatters","src/jumandic/shared/*_format.cc"),("id tables","src/jumandic/shared/jumandic_ids.cc")])

p("O02","N-best lattice output is a faithful, connected projection of the beam",
"For every sentence and N, the lattice output contains exactly the words used by the N best paths, once each, with correct character positions and ranks; following the predecessor links of any word reaches the start of the sentence, each of the N paths is recoverable by its rank, and rank 1 is the path the other outputs print. Printed scores are those of the analysis.",
["inputs","configurations"],"all sentences x models x beam sizes and N",
"One fixed sentence is compared against a fixed string.",
["src/jumandic/shared/lattice_format.cc","src/core/analysis/analysis_result.cc","src/core/analysis/output.cc"],
[("path collection","src/jumandic/shared/lattice_format.cc LatticeFormatInfo")])

p("O03","Protobuf, dictionary-subset and segmented outputs agree with the text output",
"For every sentence the segmented output, the Juman and Juman++ protobuf messages, the lattice dump and the default text output describe the same words in the same order with the same field values. The dictionary-subset output, used as a dictionary, is accepted and contains every dictionary entry that applies to the sentence with the same field values and no other entries.",
["inputs"],"all sentences over Jumandic-shaped dictionaries",
"Tests compare one or two fixed sentences.",
["src/jumandic/shared/juman_pb_format.cc","src/jumandic/shared/jumanpp_pb_format.cc","src/jumandic/shared/mdic_format.cc","src/jumandic/shared/subset_format.cc","src/core/proto/lattice_dump_output.cc","src/core/impl/segmented_format.cc"],
[("formatters","src/jumandic/shared"),("subset printing","src/jumandic/shared/mdic_format.cc")])

p("T01","Partially annotated input constrains the analysis exactly as annotated",
"For every sentence and every set of annotations in the partial-annotation format, the resulting analysis respects each of them: annotated boundaries are boundaries, stretches annotated as unbroken are not cut, and tagged words appear as one word with the given values whenever a candidate with those values exists; an annotation is read identically regardless of neighbouring examples. Annotations apply only to their own sentence, unannotated text analyses as usual, and malformed annotation is reported as an error.",
["inputs","histories"],"all annotated sentences, in any sequence",
"A few fixed examples are tested, one per process.",
["src/core/input/partial_example.cc","src/core/input/partial_example_io.cc","src/core/input/pex_stream_reader.cc","src/core/training/partial_trainer.cc","src/core/analysis/analyzer_impl.cc"],
[("reader","src/core/input/partial_example_io.cc"),("constraint application","src/core/analysis/analyzer_impl.cc, src/core/input/partial_example.cc")])

p("T02","Training examples are located in the lattice as written",
"For every gold-annotated sentence, reading it gives back exactly the words, fields and comment written for that sentence and no other, and the gold path placed in the lattice consists of words at the annotated spans carrying the annotated field values - an existing candidate when there is one, otherwise a newly added one - tiling the sentence. Malformed examples are reported as errors.",
["inputs","histories"],"all gold sentences (over dictionaries where words exist, exist partly or not at all), in sequence",
"A few fixed sentences are tested with one dictionary.",
["src/core/training/full_example.cc","src/core/training/full_example.h","src/core/training/gold_example.cc","src/core/input/training_io.cc","src/core/training/training_types.h"],
[("gold node search","src/core/training/gold_example.cc"),("reader","src/core/input/training_io.cc")])

p("T03","Training updates move the model toward the gold analysis by the defined rule",
"For every training example the update is computed from the difference between the features of the gold path and of the system path: features occurring equally often in both get no update, features of the gold path are raised and those of the wrong path lowered, a correctly analysed example has zero loss and changes nothing, and each step applies the documented soft-confidence-weighted rule. Loss lies between 0 and 1. For a partially annotated sentence the loss is the share of words of the analysis which contradict the annotation; only features of words consistent with it are raised, only features of the analysis are lowered, and when a consistent candidate was considered there is such an update.",
["inputs","histories"],"all gold/system path pairs over generated models; all sequences of updates",
"Tests check that toy training converges, not that each update is right.",
["src/core/training/loss.cc","src/core/training/scw.cc","src/core/training/trainer.cc","src/core/training/partial_trainer.cc"],
[("feature difference","src/core/training/loss.cc computeFeatureDiff"),("SCW update","src/core/training/scw.cc")])

p("T04","Training is reproducible and its saved model is the trained model",
"Training example by example (batch size one, one thread) with a fixed seed, data and configuration always produces the losses and weights of the same updates done one after another, the weights of untrained features becoming zero after the first epoch. With any batch size and number of threads every example of the data, fully and (from the second epoch on) partially annotated, contributes its loss in every epoch. The saved model analyses exactly like the trained in-memory model, replacing the weights of an input model which was already trained. Malformed training data, unusable files and arguments and a model which can not be saved stop training with an error and a failing exit status.",
["inputs","configurations","histories"],"all small training sets x batch sizes x epochs x seeds",
"Existing training tests run one configuration and only look at loss going down.",
["src/core/training/training_env.cc","src/core/training/training_executor.cc","src/core/training/trainer.cc","src/core/training/scw.cc","src/jumandic/main/jumanpp_train.cc"],
[("batches","src/core/training/trainer.cc BatchedTrainer"),("training loop","src/core/training/training_env.cc")])

p("C01","The command line tool gives one result per input line, in order, and always ends",
"Given any sequence of input lines on standard input or in any number of files, the analyser prints exactly one result per sentence, in input order, with comments attached to the sentence they precede, for every output format; a sentence that cannot be analysed is reported and does not affect the others. All input files named are read to their end and the program then terminates, with a failing exit status for unusable arguments, models or files.",
["inputs","fault_sequences","histories"],"all byte streams split into lines and files; missing files; bad options",
"There is no test of the executable at all.",
["src/jumandic/main/jumanpp.cc","src/jumandic/main/jumanpp.h","src/core/input/stream_reader.cc","src/core/input/pex_stream_reader.cc","src/jumandic/shared/jumandic_env.cc"],
[("input loop","src/jumandic/main/jumanpp.cc"),("plain reader","src/core/input/stream_reader.cc")])

p("C02","Options take effect as given, with the documented precedence",
"The configuration file in effect is the one named with --config, otherwise the installed one, otherwise the user's. For every combination of these files and command line options, the value of each option is the one of the command line if set there, otherwise the one of the configuration file, otherwise the default; short and long spellings mean the same. Unknown options, bad values and unreadable configuration files are reported as errors instead of being ignored.",
["inputs","configurations"],"all option subsets x values x sources",
"No test covers option parsing.",
["src/jumandic/shared/jumanpp_args.cc","src/jumandic/shared/jumanpp_args.h","src/util/cfg.h","libs/args.h"],
[("merge","src/util/cfg.h, src/jumandic/shared/jumanpp_args.cc")])

p("R01","The neural language model scores paths exactly as its definition says",
"For every recurrent language model file, vocabulary and word sequence, the score used in analysis equals the model's defined log-probability of each word given its history (hidden-state recurrence, output and maximum-entropy terms, with unknown words penalised as configured), independently of batching, of other paths in the beam and of sentences analysed before. Damaged model files are refused.",
["inputs","configurations","histories"],"all small random networks and vocabularies x word sequences x beam shapes",
"All existing tests of this part fail for want of a model file, so it has no working coverage.",
["src/rnn/mikolov_rnn.cc","src/rnn/simple_rnn_impl.h","src/core/analysis/rnn_scorer_gbeam.cc","src/core/analysis/rnn_id_resolver.cc"],
[("forward pass","src/rnn/mikolov_rnn.cc"),("beam application","src/core/analysis/rnn_scorer_gbeam.cc")])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
