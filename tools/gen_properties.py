#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, not in the jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe, hook_needed=None)))

p("C01", "The DNM plaintext, offset tables and node map agree with each other",
  "For every XML/HTML tree and every parameter set, the per-character byte offset table lists exactly the UTF-8 character boundaries of the plaintext followed by its length, and the back map (when enabled) has exactly one entry per plaintext character. Every node visited while building (element, text, comment) has a recorded range that delimits exactly the characters the node contributed, nodes below skipped or replaced elements have none; the range of a node lies inside its parent's, ranges of siblings do not overlap and appear in document order, and the root's range is the whole plaintext.",
  ["inputs","configurations"], "all trees x all parameter combinations that are documented to be supported",
  "dnm tests look at a handful of ranges in five tiny files; none walks the whole node map or uses multi-byte text together with every option.",
  ["src/dnm/mod.rs"], [("recurse_node_create/record_node_map","src/dnm/mod.rs"),("plaintext and byte_offsets assembly in DNM::new","src/dnm/mod.rs")],
  ["DNM.plaintext, byte_offsets, back_map, node_map after DNM::new"])
p("C02", "The DNM plaintext is the rule-driven flattening of the tree",
  "The plaintext equals the document-order concatenation of text nodes (an entity reference being one with its replacement text, a CDATA section none) in which, for each element, the first matching rule decides (rules for its classes, in class attribute order, before the rule for its tag name): Enter descends, Skip contributes nothing, Normalize/FunctionNormalize contribute exactly the token, with no rule meaning descend. Text is processed in the order unicode transliteration, stemming, lowercasing, whitespace collapsing, where collapsing merges every whitespace run, also across node boundaries and at the start of the document, into one space, and wrap_tokens puts one space on both sides of a token unless collapsing is on and one is already there. By default whitespace is collapsed, the back map is kept, and nothing else is done. The result is a pure function of the tree and the parameters.",
  ["inputs","configurations"], "all trees x all rule tables x all switch combinations",
  "the tests fix one rule per file and one switch at a time; rule conflicts, nested rules and switch interactions are unexplored.",
  ["src/dnm/mod.rs","src/dnm/parameters.rs"], [("intermediate_node_create","src/dnm/mod.rs"),("text_node_create, normalize_*","src/dnm/mod.rs"),("push_token!/push_whitespace!","src/dnm/mod.rs")],
  ["DNM.plaintext"])
p("C03", "The back map sends every plaintext character to its source in the DOM",
  "With back mapping on, each plaintext character produced from a text node maps to that text node and the index (in characters of the node's original content) of the character it came from, also when transliteration or lowercasing expands one character into several or whitespace is collapsed. Characters of a replacement token, including the wrapping spaces, map to the replaced element with offset -1. Offsets are non-decreasing within a text node and enabling back mapping never changes the plaintext.",
  ["inputs","configurations"], "all trees x all parameter sets with back mapping",
  "only three offsets in one ASCII file are checked by a test, without transliteration or lowercasing.",
  ["src/dnm/mod.rs"], [("offset bookkeeping in text_node_create / normalize_unicode / normalize_whitespace","src/dnm/mod.rs")],
  ["DNM.back_map"])
p("C04", "Range operations cut the plaintext at exactly the characters asked for",
  "For any text, including multi-byte characters, a range's plaintext is the characters [start,end); a subrange is the corresponding slice; a byte-offset subrange covers exactly the characters overlapping that byte interval, and is the empty range at that place for an empty interval. Trimming removes all and only leading and trailing Unicode whitespace, yielding the empty range at the old end for all-whitespace input; the truncated text drops trailing whitespace only; none of these panics on in-bounds arguments.",
  ["inputs"], "all plaintexts x all in-bounds (start,end) pairs",
  "tests cover one mixed-script string with three cuts; trimming of non-ASCII whitespace and boundary cases are untested.",
  ["src/dnm/range.rs"], [("trim","src/dnm/range.rs"),("get_subrange_from_byte_offsets/byte_offset_bisection","src/dnm/range.rs")],
  ["DNMRange results"])
p("C05", "XPointer serialization of a range round-trips, also between two DNMs",
  "Serializing a range of a whole-document DNM and deserializing the XPointer yields the same range whenever both ends lie at the first character produced by a text character, at the start of a replaced element, or at the end of the plaintext after text, and neither within an entity reference; an end inside a replacement token followed by something widens the range to the whole token and a start inside it moves to the token's start. Deserializing in another DNM of the same document (other parameters) gives the first characters stemming from the same text nodes and offsets. Elements with an id (of any characters), with namespaces (prefixed or default) and repeated same-name siblings are all addressed unambiguously. The same holds for ranges of the DNM of a single element with an id, read back in that DNM or in one of the whole document.",
  ["inputs","configurations"], "all documents with unambiguous top-level element names and unique ids (not holding both kinds of quotes) x all ranges x pairs of parameter sets",
  "one test round-trips two hand-picked ranges of one file.",
  ["src/dnm/range.rs"], [("serialize/serialize_node/get_node_number","src/dnm/range.rs"),("deserialize/xpointer_to_offset","src/dnm/range.rs")],
  ["DNMRange::serialize, DNMRange::deserialize"])
p("C06", "The standard normalization replaces math, citations and refs and drops chrome",
  "Under the standard llamapun normalization every math element appears as the word mathformula, every cite as CitationElement, every ltx_ref element as REF, and every ltx_equation/ltx_equationgroup element as mathformula on its own line, always separated by spaces from neighbouring text. No text below img, table (unless it is an equation), head, footer, or elements of class ltx_authors, ltx_TOC, ltx_note_mark, ltx_note_outer, ltx_bibliography, ltx_tag_figure, ltx_tag_table reaches the plaintext, all other text does (transliterated), and raw whitespace and newlines are kept.",
  ["inputs"], "all documents",
  "tests compare whole paragraphs of two documents; skip rules, class/name conflicts and separators are only exercised where those documents happen to.",
  ["src/dnm/parameters.rs"], [("DNMParameters::llamapun_normalization","src/dnm/parameters.rs")], ["DNM.plaintext under the standard parameters"])
p("C07", "Sentences tile the text: in order, in bounds, trimmed, nothing lost",
  "For every plaintext, in any script, sentence tokenization terminates without panicking and returns ranges that are in bounds, non-empty, trimmed, strictly ordered and non-overlapping. Every letter of the plaintext belongs to a sentence; text left outside sentences consists of whitespace or of a letter-free tail at the end of the text.",
  ["inputs"], "all plaintexts",
  "the tests compare fixed expected sentence lists for two ASCII-normalized papers.",
  ["src/tokenizer.rs"], [("Tokenizer::sentences","src/tokenizer.rs")], ["Vec<DNMRange> returned by sentences"])
p("C08", "Sentence breaks happen exactly where the tokenization rules say",
  "After . or : (and optional whitespace/apostrophes) a sentence break occurs if the next word contains an uppercase letter and either is a stopword, or the preceding word is neither a known abbreviation nor a single letter other than I; and if the next character is one of * \" (. A ? or ! breaks unless directly enclosed in a matching pair of brackets or quotes; a full stop followed by mathformula breaks unless an abbreviation or single letter precedes; a blank line breaks before a capitalised word only, never before mathformula or a lowercase word or a non-letter; a capital letter directly following a mathformula line starts a sentence. Otherwise (abbreviations, single initials, lowercase continuation, decimals) no break occurs.",
  ["inputs"], "all plaintexts built from words, abbreviations, initials, stopwords, formula tokens, punctuation and line breaks",
  "fixed expected lists sample only the combinations in two papers and one synthetic sentence list.",
  ["src/tokenizer.rs","src/stopwords.rs"], [("Tokenizer::sentences state machine and left window","src/tokenizer.rs"),("abbreviation_check","src/tokenizer.rs"),("stopwords::load","src/stopwords.rs")],
  ["break positions of sentences"])
p("C09", "Word tokenization yields exactly the alphanumeric runs of the sentence",
  "For every range and any script, words are exactly the maximal runs of alphanumeric characters, where an apostrophe (straight or curly) directly followed by s joins its neighbours, in order, non-empty, in bounds and non-overlapping; every alphanumeric character of the range is in exactly one word and offsets are relative to the whole document.",
  ["inputs"], "all plaintext ranges",
  "word tests only count words in normalized ASCII documents.",
  ["src/tokenizer.rs"], [("Tokenizer::words","src/tokenizer.rs")], ["Vec<DNMRange> returned by words"])
p("C10", "Word-and-punctuation tokens partition the non-whitespace text",
  "For every range and any script, the tokens are non-empty, ordered, disjoint, contain no whitespace and together cover exactly the non-whitespace characters. Every punctuation character is a token of its own except that an apostrophe is kept together with a directly following t, s, un, th, ll, d, ve, il, re or m; it is detached from any other word.",
  ["inputs"], "all plaintext ranges",
  "no test inspects the token boundaries of words_and_punct beyond two examples.",
  ["src/tokenizer.rs"], [("Tokenizer::words_and_punct","src/tokenizer.rs")], ["Vec<DNMRange> returned by words_and_punct"])
p("C11", "The canonical form keeps names, classes and text and ignores markup artefacts",
  "The canonical string of a node is its start tag with only the name and the whitespace-separated classes in sorted order, the non-blank text of its text nodes as it appears in the DNM, its children in order and its end tag; semantics wrappers contribute only their content and annotation elements, comments and processing instructions nothing. It is therefore unchanged by ids and other attributes, attribute or class order, comments, annotations, semantics wrapping and blank text between elements, and changes when an element name, a class set or visible text changes.",
  ["inputs"], "all trees, all nodes in them, all artefact edits",
  "tests check non-emptiness and one hash comparison of formulas.",
  ["src/dnm/c14n.rs"], [("canonical_internal","src/dnm/c14n.rs")], ["to_c14n_basic, node_c14n_basic"])
p("C12", "Node hashes are the MD5 of the canonical string, under any concurrency",
  "The hash of a node is the lowercase hexadecimal MD5 digest of its canonical string, for every node, however many threads hash concurrently and whatever was hashed before; the document hash is the hash of its root.",
  ["inputs","schedules","histories"], "all nodes x all interleavings of concurrent hash calls through the shared hasher",
  "the existing test hashes sequentially and never compares against an MD5.",
  ["src/dnm/c14n.rs"], [("MD5_HASHER mutex, reset before use","src/dnm/c14n.rs")], ["to_hash_basic, node_hash_basic"],
  [dict(name="MD5_HASHER", meaning="process-wide shared digest state", where="src/dnm/c14n.rs")])
p("C13", "Plain strings wrap into a one-paragraph DNM with their text intact",
  "Wrapping any XML-representable string yields a document with exactly one logical paragraph whose plaintext is that string processed under the given (or default) parameters, whatever markup-like characters it contains. Rebuilding an AMS paragraph splits it at line feeds (and nowhere else), drops empty lines, replaces every maximal run of math lexemes (NUM or underscore-joined words) by a single mathformula, capitalises each line's first character if it is an ASCII letter and joins lines with ' . '.",
  ["inputs"], "all strings representable in XML",
  "two fixed strings are tested.",
  ["src/dnm/mod.rs","src/dnm/c14n.rs"], [("DNM::from_str","src/dnm/mod.rs"),("rebuild_normalized_text","src/dnm/c14n.rs")], ["DNM::from_str, DNM::from_ams_paragraph_str"])
p("C14", "Math lexemes come from the annotations in order, one lexeme per word",
  "The lexemes of a node are those of all its descendant application/x-llamapun annotations in document order, split at whitespace and also where a :start or :end marker was glued to the next lexeme or a closing :end marker of a known role to the one before it, joined by single spaces; NUM, ARRAY, ATOM and SUPERSCRIPTOP lexemes reduce to that name and elsewhere ':' and '-' become '_'. If there are none the result is mathformula; the result never contains whitespace other than single spaces between lexemes.",
  ["inputs"], "all trees, all annotation contents",
  "no test covers lexematization directly.",
  ["src/dnm/node.rs"], [("lexematize_math","src/dnm/node.rs")], ["lexematize_math return value"])
p("C15", "Anchored n-grams are counted for exactly the words within reach of an anchor",
  "With anchor word A, window W>0 and size n, a word takes part if and only if some occurrence of A is at most W words away (words are whitespace-separated tokens starting with an alphanumeric character); the n-grams counted for a content are exactly all n-word windows of each maximal run of consecutive participating words, and counts of successive contents add up.",
  ["inputs","histories"], "all word sequences, anchor positions, window sizes and n",
  "no test covers n-grams at all.",
  ["src/ngrams.rs"], [("add_anchored_content","src/ngrams.rs"),("record_words","src/ngrams.rs")], ["Ngrams.counts"])
p("C16", "Count tables never lose, duplicate or misorder entries",
  "For any history of insertions, an n-gram table reports for each phrase exactly how often it was inserted or recorded (0 if never), its distinct count is the number of different phrases, and recording a word list adds exactly its max(0, len-n+1) n-word windows; its report lists every phrase once by descending count. A dictionary gives each distinct word the 1-based position of its first insertion, never changes it, counts the distinct words and lists every entry once by descending position.",
  ["histories"], "all insertion histories",
  "no test covers these containers.",
  ["src/ngrams.rs"], [("Dictionary::insert","src/ngrams.rs"),("Ngrams::insert/sorted/record_words","src/ngrams.rs")], ["get, sorted, distinct_count, count, map"])
p("C17", "A parallel corpus walk processes each document once and sums all reports",
  "For any corpus directory, thread count and delivery order, the parallel walk calls the closure exactly once for every non-hidden regular file (or symbolic link to one) whose name ends in the selected extension (.html or .xhtml by default) and that can be parsed, and for nothing else (no directories), and the returned catalog maps every key to the sum of the closure's values for it; the two-catalog variant does so for both catalogs separately. A file that cannot be parsed neither ends the walk nor affects the others.",
  ["schedules","inputs","configurations","fault_sequences"], "all directory trees x thread counts x delivery orders x reports x unparseable files",
  "the tests walk one flat directory of four good documents and compare totals of one run.",
  ["src/parallel_data/corpus.rs"], [("catalog_with_parallel_walk / catalogs_with_parallel_walk","src/parallel_data/corpus.rs")], ["closure calls, returned maps"])
p("C18", "Document selections return exactly the matching nodes, in document order",
  "On every document, paragraphs are the div elements of class ltx_para with no error markup inside or as an earlier sibling; headings are h1-h6 with an ltx_title class other than the document title and without error markup; the extended selection lists, in this order, the first abstract paragraph, the first keywords, the paragraphs, the first acknowledgement and the captions, each error-free; math nodes, reference nodes (span or a whose class attribute is ltx_ref or contains 'ltx_ref '), XPath selections and filter selections return all and only the matching nodes. Every other selection is in document order, none has duplicates, and the iterators yield one standard-normalized DNM per selected node.",
  ["inputs"], "all documents",
  "the tests count a few node kinds on one document.",
  ["src/parallel_data/document.rs","src/data.rs","src/parallel_data.rs"], [("XPath selectors","src/parallel_data/document.rs"),("dfs_filter_nodes","src/parallel_data/document.rs")], ["get_*_nodes, *_iter"])
p("C19", "The sequential corpus API visits every document and agrees with the parallel one",
  "Iterating a corpus sequentially yields each parseable file (never a directory) with the selected extension exactly once, and an unparseable file does not end the iteration. For every document the sequential and parallel interfaces give the same paragraphs, formulas, references, sentences and words, and words delivered through the external-parser interface carry the range of exactly the text the parser reported for any script.",
  ["inputs","fault_sequences"], "all corpora with non-hidden files x all documents x all parser analyses",
  "the tests iterate four good documents and compare totals only.",
  ["src/data.rs","src/parallel_data.rs"], [("DocumentIterator::next","src/data.rs"),("SentenceIterator, SimpleWordIterator, SennaWordIterator","src/data.rs")], ["iterators"])
p("C20", "A pattern file is accepted exactly when it obeys the pattern language",
  "Loading any path (broken XML, arbitrary bytes, a missing file or a directory included) returns the rules or an error, without panicking. A file of well-formed XML is accepted if and only if, below its root element, every rule has a name and exactly one pattern of its kind, all elements, attribute values, tags and child counts are those the pattern language knows, stray text is absent, no rule of a kind is defined twice and every referenced rule of a kind is defined; on acceptance each named rule is available under its name.",
  ["inputs"], "all XML files (and arbitrary bytes)",
  "no test loads a pattern file.",
  ["src/patterns/rules.rs","src/patterns/utils.rs"], [("PatternFile::load, load_from_node, verify","src/patterns/rules.rs")], ["Result of PatternFile::load"])
p("C21", "Text patterns match exactly the sentences their definition describes",
  "For every loaded rule file without left-recursive references and every analysed sentence, matching a sequence rule tries it at each word in turn and returns exactly the matches the definition prescribes: literal words compare exactly, word/pos alternatives, negations and references mean or/not/substitution, sequences match consecutively, sequence alternatives honour first/longest/atleastone/any, and phrases match a syntax phrase starting at that word, shortest or longest first, subject to the start and end conditions. Unknown rule names and sentences without a syntax tree give an error.",
  ["inputs","programs"], "all rule files x all sentence analyses",
  "no test exercises the matcher.",
  ["src/patterns/matching.rs"], [("match_seq, match_word, match_pos, get_phrase_matches","src/patterns/matching.rs")], ["match_sentence result"])
p("C22", "Math patterns match exactly the formula trees their definition describes",
  "A word pattern over math matches a word if it is a math element whose content root (below semantics if present) satisfies the math pattern: node name, symbol text pattern, children constraint (exact, starts_with, ends_with, arbitrary position), alternatives in order, references, and descendant patterns, which search the node and everything below it depth-first (first match only, at least one, or any number).",
  ["inputs","programs"], "all math patterns x all formula trees",
  "no test exercises the matcher.",
  ["src/patterns/matching.rs","src/patterns/utils.rs"], [("match_math, match_mtext","src/patterns/matching.rs"),("fast_get_non_text_children, get_simple_node_content","src/patterns/utils.rs")], ["match_sentence result"])
p("C23", "Markers mirror the pattern's structure and cover exactly the matched text",
  "Each match carries its markers as a tree that follows the nesting of markers in the pattern, with the name and trimmed comma-separated tags from the file; a text marker covers exactly the characters from the first to the last matched word in the document for any script (and is empty for an empty match), a math marker names the matched node, and the marker list is the pre-order of that tree.",
  ["inputs","programs"], "all rule files x all analysed sentences in any script",
  "no test exercises the matcher.",
  ["src/patterns/matching.rs"], [("Marked arms, get_marker_list","src/patterns/matching.rs")], ["Match tree, get_marker_list"])
p("C24", "Heading normalization terminates, is idempotent and never fuses words",
  "For every string, normalizing a heading terminates without panicking, gives the same result when applied twice, and yields either the empty string, a fixed canonical category name, or words of the heading (up to the known plural forms) with numbering, section labels and fixed filler removed but never two words fused into one. Every structural environment prints to a heading that maps back to the same environment, regardless of letter case.",
  ["inputs"], "all heading strings",
  "no test covers heading normalization.",
  ["src/util/data_helpers.rs","src/ams.rs"], [("normalize_heading_title","src/util/data_helpers.rs"),("StructuralEnv From/Display","src/ams.rs")], ["normalize_heading_title, StructuralEnv::from"])
p("C25", "AMS class names map consistently to the canonical environments",
  "A class attribute without ltx_theorem maps to no environment, except that exactly ltx_proof is Proof; ltx_theorem alone is Theorem; otherwise the environment is that of the first ltx_theorem_<name>, a name being a run of word characters, where every canonical environment name other than the catch-all 'other' is a fixed point, every synonym of the fixed table maps to its environment and unknown names give Other. A document has AMS markup if and only if it contains a div of an ltx_theorem class.",
  ["inputs"], "all class strings, all documents",
  "no test covers the mapping.",
  ["src/ams.rs"], [("class_to_env, normalize_env, has_markup","src/ams.rs")], ["class_to_env, normalize_env, has_markup"])
p("C26", "Word normalization classifies every word as number, citation, math or text",
  "For every word range and option set: the word is lowercased when case is discarded and, when punctuation is discarded, reduced to its alphanumeric characters; if longer than 25 bytes it is an error; if it contains mathformula it becomes the lexemes of the formula at its start (empty when math is discarded); if it contains citationelement it becomes citationelement; if it is an integer, decimal or subfigure number it becomes NUM; otherwise it stays as is; mathformula and citationelement are recognised regardless of case. A heading is the space-terminated sequence of its normalized words without numbers and empties, and is absent if a word is too long.",
  ["inputs","configurations"], "all words x option sets, all headings",
  "no test covers these helpers.",
  ["src/util/data_helpers.rs"], [("ams_normalize_word_range, heading_from_node_aux","src/util/data_helpers.rs")], ["returned strings"])
p("C27", "The token model holds each valid paragraph once and its counts match the corpus",
  "For any corpus, thread count and delivery order, the token model file contains exactly one line per extended paragraph that has no overlong word, made of that paragraph's normalized tokens in order, with each document's lines contiguous and in document order; overlong paragraphs are left out entirely. The returned counts are the exact totals of documents, paragraphs, words, overflows, formulas, citations and numbers over the whole corpus (in an overlong paragraph only the words read up to the overlong one count), with formulas lexematized or dropped as requested.",
  ["schedules","inputs","configurations"], "all corpora x thread counts x orders x both math modes",
  "the token model test file is empty.",
  ["src/util/token_model.rs"], [("extract: per-thread buffer, shared writer lock, count reduction","src/util/token_model.rs")], ["token model file, returned counts"])
p("C28", "Path and C-string interfaces return the document's normalized words line by line",
  "For every readable document path, the result is one line per sentence with at least one word, for all logical paragraphs in order, each word normalized and followed by a space, omitting paragraphs with an overlong word entirely. The C interface returns the same bytes as an owned NUL-terminated string, the empty string for a non-UTF-8 path, and never unwinds or aborts on an unreadable or unparseable path.",
  ["inputs","fault_sequences"], "all paths and documents",
  "no test calls either interface.",
  ["src/util/path_helpers.rs","src/extern_use.rs"], [("path_to_words","src/util/path_helpers.rs"),("word_tokenize_for_vec2doc","src/extern_use.rs")], ["returned strings"])
p("C29", "The stopword set holds lowercase function words and no content words",
  "Every stopword is a non-empty lowercase string without whitespace, so that membership can be tested by lowercasing; the closed classes of English function words (articles, pronouns, prepositions, conjunctions, auxiliaries) are all in the set; technical content nouns and the placeholders for formulas, citations and references are not. Loading always gives the same set.",
  ["inputs","histories"], "all words of the closed classes, a sample of content words, repeated loads",
  "the two tests check the set is loadable and three words.",
  ["src/stopwords.rs"], [("stopwords::load","src/stopwords.rs")], ["stopwords::load()"])
p("C30", "The language filter judges only the prose and rejects only confident non-English",
  "Language detection sees the document's plaintext with formula, citation and reference placeholders blanked out and trimmed, never the placeholders themselves. A document is invalid exactly if detection reports a non-Latin script, or a non-English language with confidence above 0.93; text without a detectable language is valid.",
  ["inputs","fault_sequences"], "all plaintexts x all detector verdicts",
  "no test covers the filter.",
  ["src/util/data_helpers.rs"], [("invalid_for_english_latin","src/util/data_helpers.rs")], ["detector input, returned verdict"])
p("C31", "The test-resource list and frequency plots reflect exactly their inputs",
  "The resource list names (without directory and extension) every .html and .xhtml file below the resource directory, at any depth, and nothing else. A frequency plot hands the plotting program exactly one point per entry, with the given key and the base-2 logarithm of its count, in the given order, with the given labels, title and output path.",
  ["inputs"], "all directory trees; all (key,count) tables",
  "no test checks either against a known input.",
  ["src/util/test.rs","src/util/plot.rs"], [("RESOURCE_DOCUMENTS","src/util/test.rs"),("plot_simple","src/util/plot.rs")], ["RESOURCE_DOCUMENTS, command stream of the plotting program"])
p("C32", "XML helper queries classify children exactly and report misuse as errors",
  "For every node: the simple content is the text of its only child if that is a text node, empty if there is none, and an error otherwise; the strict child listing returns the children other than comments and blank text and is an error if non-blank text occurs, while the fast listing returns exactly the child elements; the only-child and no-child queries succeed exactly for one respectively zero such children; a required attribute is returned verbatim or reported missing.",
  ["inputs"], "all nodes of all trees (observed through pattern loading and matching, which is their only public use)",
  "no test reaches these helpers.",
  ["src/patterns/utils.rs"], [("get_simple_node_content, get_non_text_children, fast_get_non_text_children, get_only_child, assert_no_child, require_node_property","src/patterns/utils.rs")], ["PatternFile::load and match_sentence outcomes"])
p("C33", "Processing is free of memory errors and data races",
  "Whatever documents, patterns and word lists are processed, on one thread or many, no execution reads or writes memory out of bounds, after free or uninitialised, leaks the strings handed over the C interface, or contains a data race.",
  ["inputs","schedules"], "all documents and thread schedules reached by the workloads of the other properties",
  "tests run uninstrumented, so such errors are invisible unless they crash.",
  ["src/dnm/mod.rs","src/dnm/c14n.rs","src/parallel_data/corpus.rs","src/extern_use.rs","src/util/token_model.rs"],
  [("safe Rust over libxml raw nodes, shared hasher lock, unsafe C interface","src/")], ["sanitizer and valgrind reports"])

p("C34", "No document brings any operation down",
  "For every file, well-formed or broken, read as XML or HTML: opening it either reports an error or gives a document on which every operation returns without panicking, crashing or hanging: building DNMs with any supported parameters, canonical forms and hashes of any node, sentence, word and token iteration over the document, its paragraphs and headings, serialization of sentences, node ranges and their trimming and subranges, selections and filters, lexemes of any node, heading and environment classification, pattern matching, the language check, n-grams, and the token model of a corpus containing it. This includes documents without a root element or without text. The sequential and the parallel interface accept the same files, and the words obtained by path and over the C interface are equal.",
  ["inputs"], "all byte sequences as files x all operations of the library",
  "tests process four well-formed documents; arXiv-scale corpora contain empty, truncated and broken files, and one panic in a walk loses the whole run.",
  ["src/data.rs","src/parallel_data/document.rs","src/dnm/mod.rs","src/dnm/range.rs","src/dnm/c14n.rs","src/tokenizer.rs","src/util/data_helpers.rs","src/util/path_helpers.rs","src/util/token_model.rs"],
  [("Document::new, load_doc","src/parallel_data/document.rs, src/data.rs"),("sentence_iter, paragraph_iter, filter_iter","src/parallel_data/document.rs"),("serialize, get_range_of_node","src/dnm/range.rs")],
  ["return of every public operation on documents opened from files"])
p("C35", "Operations are pure: no history changes an answer or a document",
  "For every history of operations (flattening, canonical forms, tokenization, serialization, headings, paragraphs, selections, lexemes, pattern matching, language check, n-grams, node ranges, environment classification) on documents that share a corpus and a tokenizer, each operation answers what it answers as the first operation ever on a freshly opened copy of the document with a fresh tokenizer; repeating it gives the same answer, and no operation changes a document.",
  ["inputs","histories"], "all histories of operations over all sets of documents",
  "tests call each operation once, on its own document; state kept between calls or edits of the shared tree would go unnoticed.",
  ["src/dnm/mod.rs","src/dnm/c14n.rs","src/dnm/range.rs","src/dnm/node.rs","src/tokenizer.rs","src/parallel_data/document.rs","src/util/data_helpers.rs","src/patterns/matching.rs"],
  [("read-only nodes shared between DNMs, reused XPath contexts, shared tokenizer and hasher","src/")], ["answers of repeated operations, serialized documents before and after"],
  )

p("C36", "The settings of a corpus govern each of its documents, in both interfaces",
  "For every setting of a corpus - file extension, the parsers for XHTML and for other files, default DNM parameters, and the tokenizer with any stopwords and abbreviations - every document obtained from it (walked in parallel on any number of threads with one or two catalogs, iterated sequentially, or loaded by path) is read with the parser for its file name; its sentence iteration flattens the root element with exactly the corpus' DNM parameters and splits it with exactly the corpus' tokenizer; its paragraphs always use the standard normalization, and their sentences the corpus' tokenizer. Asking again gives the same.",
  ["inputs","schedules","configurations"], "all corpora x all settings x thread schedules",
  "tests use default settings only; a setting that one of the two duplicated interfaces ignores goes unnoticed.",
  ["src/data.rs","src/parallel_data.rs","src/parallel_data/corpus.rs","src/parallel_data/document.rs"],
  [("Corpus fields tokenizer, dnm_parameters, extension, xml_parser, html_parser","src/parallel_data/corpus.rs, src/data.rs"),("sentence_iter, to_sentences","src/parallel_data/document.rs, src/parallel_data.rs, src/data.rs")], ["text, sentences and paragraphs of every document under every setting"])

p("C37", "The corpus tools report exactly what the documents of a corpus contain",
  "For every corpus, number of threads and order of delivery, each of the corpus tools under examples/ ends normally, processes each document with the tool's extension once and reports exactly what the documents contain: the node model counts every element, attribute and parent-child pair; the MathML statistics every element, attribute and value class in formulas; the formula count every formula; the word report the word before every reference; the heading statistics every heading and the environment it denotes; the statement archive every labelled paragraph of the documents that qualify, under its label, with the discarded ones counted once; the citation n-grams every n-gram around citations; the token model and the tokenizers every sentence and word. Tables are ordered by frequency. Text, entity references included, is not an element.",
  ["inputs","schedules"], "all corpora x thread schedules x tools",
  "no test runs the tools; they are the library's users, and their catalogs, merges and limits matter at corpus scale only.",
  ["src/parallel_data/corpus.rs","src/parallel_data/document.rs","src/dnm/mod.rs","src/dnm/node.rs","src/tokenizer.rs","src/ams.rs","src/util/data_helpers.rs","src/util/token_model.rs","src/ngrams.rs","examples/"],
  [("catalog_with_parallel_walk and its merge","src/parallel_data/corpus.rs"),("the tools","examples/*.rs")], ["exit status, report files and output of the tools run as processes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P: f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P), "properties")
