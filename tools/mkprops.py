#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the text is reviewable in one place)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
DOC="every XML/HTML tree, every parameter setting without word stemming"
p("C01","Plaintext, character list, byte offsets and back map always agree",
  "Whenever a document model is built, its plaintext is exactly the collected character sequence, and its byte-offset table has one entry per character plus a final one, entry i being the number of UTF-8 bytes before character i (so the last entry is the byte length of the plaintext). With back mapping enabled the back map has exactly one entry per plaintext character; with it disabled it is empty.",
  ["inputs","configurations"],DOC,"Tests build a handful of mostly ASCII files; the alignment must hold for every tree, every multi-byte character and every option combination.",
  ["src/dnm/mod.rs"],[("DNM::new","src/dnm/mod.rs"),("text_node_create","src/dnm/mod.rs"),("push_token!/push_whitespace!","src/dnm/mod.rs")],["DNM.plaintext","DNM.byte_offsets","DNM.back_map"])
p("C02","Recorded node ranges are in bounds, nested and tile their parent in order",
  "Every node visited while building a document model is recorded with a range start <= end <= text length; the ranges of the children of an entered element follow one another in document order without gap or overlap and together make up exactly the parent's range, and the root's range is the whole text. A skipped element has an empty range, and nodes below a skipped or replaced element are not recorded; asking for the range of an unrecorded node is an error.",
  ["inputs","configurations"],DOC,"Existing tests look up two or three nodes in fixed files; nesting depth, empty nodes and mixed policies are unbounded.",
  ["src/dnm/mod.rs"],[("record_node_map!","src/dnm/mod.rs"),("intermediate_node_create","src/dnm/mod.rs"),("get_range_of_node","src/dnm/mod.rs")],["DNM.node_map","DNM::get_range_of_node"])
p("C03","Whitespace normalisation collapses runs to one space and changes nothing else",
  "With whitespace normalisation on, text contributed by text nodes keeps every non-whitespace character in order, turns every whitespace run into a single space even when it continues from the preceding text, and drops whitespace at the very start of the document; the space keeps the source position of the first character of the run. With it off, text is passed through unchanged.",
  ["inputs","configurations","histories"],"every text content and every sequence of text nodes and tokens (the pending-whitespace state carries over between nodes)",
  "The state spans nodes; a handful of fixed files cannot cover the run/boundary combinations.",
  ["src/dnm/mod.rs"],[("normalize_whitespace","src/dnm/mod.rs"),("RuntimeParseData.had_whitespace","src/dnm/parameters.rs")],["DNM.plaintext","DNM.back_map"])
p("C04","The back map names the true source of every plaintext character",
  "With back mapping on, the plaintext character produced from the k-th character of a text node is mapped to exactly that node and k, also when one source character expands to several (transliteration, lowercasing) or to none; characters of a replacement token are mapped to the replaced element with offset -1. Within one text node the recorded offsets never decrease.",
  ["inputs","configurations"],DOC+", back mapping on","The one existing test checks two ranges of an ASCII file; expansion and deletion during normalisation shift every later offset.",
  ["src/dnm/mod.rs"],[("normalize_unicode","src/dnm/mod.rs"),("text_node_create","src/dnm/mod.rs"),("push_token!","src/dnm/mod.rs")],["DNM.back_map"])
p("C05","Element policies: class rules in class order first, then the tag name",
  "Whether an element is entered, skipped or replaced is decided by the first of its class names that has a rule and, only if none has one, by the rule for its tag name; without any rule its children are processed in document order. A replaced element contributes exactly its token (or the function's result for that element), surrounded by a space on each side when token wrapping is on except where whitespace normalisation already has a pending space, and a skipped one contributes nothing.",
  ["inputs","configurations"],"every element, every pair of rule tables","Tests cover one rule per file; precedence and interplay between several matching rules are not exercised.",
  ["src/dnm/mod.rs"],[("intermediate_node_create","src/dnm/mod.rs")],["DNM.plaintext"])
p("C06","A range's text is exactly the characters it addresses",
  "For every range with start <= end <= number of characters, its plaintext is characters start..end of the document's text, a relative subrange addresses the same characters as slicing that text, a range is empty exactly when its text is, and cutting trailing whitespace yields the longest prefix not ending in whitespace. The node reported for a range is the one the first character came from.",
  ["inputs"],"every text including multi-byte characters, every start/end pair","Tests use ASCII text, where byte and character positions coincide.",
  ["src/dnm/range.rs"],[("get_plaintext","src/dnm/range.rs"),("get_subrange","src/dnm/range.rs")],["DNMRange"])
p("C07","Trimming a range removes exactly the surrounding whitespace",
  "Trimming a range yields the subrange whose text is the original text without leading and trailing whitespace, whatever the width of the whitespace characters, and always stays within the original range. A range of whitespace only becomes the empty range at the original end.",
  ["inputs"],"every text and range, including multi-byte whitespace","Tests never place a multi-byte whitespace character at a range border.",
  ["src/dnm/range.rs"],[("trim","src/dnm/range.rs")],["DNMRange::trim"])
p("C08","Byte-offset subranges select the characters holding those bytes",
  "Given relative byte offsets b1 < b2 inside a range, the byte-offset subrange runs from the character containing byte b1 through the character containing byte b2-1 of the range's text. In particular, for offsets on character boundaries its text is exactly that byte slice.",
  ["inputs"],"every text, every range, every pair of byte offsets within it","The tests do not call it on non-ASCII text; the search must be right for every position.",
  ["src/dnm/range.rs"],[("get_subrange_from_byte_offsets / byte_offset_bisection","src/dnm/range.rs")],["DNMRange::get_subrange_from_byte_offsets"])
p("C09","Sentence splitting yields ordered, disjoint, trimmed, non-empty ranges",
  "For every document text the sentences returned are non-empty ranges within the text, in increasing order and not overlapping, none starting or ending with whitespace, and only whitespace lies before the first and between consecutive ones. Splitting never panics, whatever characters the text contains.",
  ["inputs"],"every text (any Unicode content)","The tokenisation tests compare fixed English paragraphs; ordering, coverage and bounds must hold for any text.",
  ["src/tokenizer.rs"],[("Tokenizer::sentences","src/tokenizer.rs"),("next_word_with_length","src/tokenizer.rs")],["Tokenizer::sentences"])
p("C10","Word tokenisation returns exactly the maximal word runs",
  "The words of a range are exactly the maximal runs of word characters of its text, in order, where a word character is an alphanumeric character or an apostrophe (straight or typographic) directly followed by the letter s. Each returned range addresses exactly the characters of its run, for any Unicode text.",
  ["inputs"],"every text and range","Tests compare fixed ASCII sentences; any Unicode text must give the same exact runs.",
  ["src/tokenizer.rs"],[("Tokenizer::words","src/tokenizer.rs")],["Tokenizer::words"])
p("C11","Word-and-punctuation tokens partition the non-whitespace characters",
  "The word-and-punctuation tokens of a range are non-empty, in order and disjoint, and together contain every non-whitespace character of its text exactly once and no whitespace. Every token is a run of alphanumeric characters, a single other character, or an apostrophe joined to a following alphanumeric run of the closed contraction list (t s un th ll d ve il re m); an apostrophe is joined to the run after it whenever that run is in the list and detached otherwise.",
  ["inputs"],"every text and range","Tests compare a few fixed sentences; loss, duplication or panics on other punctuation patterns go unseen.",
  ["src/tokenizer.rs"],[("Tokenizer::words_and_punct","src/tokenizer.rs")],["Tokenizer::words_and_punct"])
p("C12","N-gram recording counts every window exactly once",
  "After recording a word sequence, the count of every phrase has grown by exactly the number of positions at which the phrase is the space-joined window of n consecutive words, and no other count changes; sequences shorter than n change nothing. Looking up a phrase returns its recorded count and 0 if never recorded, and single insertions add exactly one to that phrase. A recorder made with the defaults starts empty and counts single words.",
  ["inputs","histories"],"every word sequence, every n >= 1, every history of insertions","There is no test of n-gram counting in the stable suite; repeated words and sequence lengths are unbounded.",
  ["src/ngrams.rs"],[("Ngrams::record_words","src/ngrams.rs"),("Ngrams::insert/get","src/ngrams.rs")],["Ngrams.counts"])
p("C13","Anchored n-gram collection records exactly the justified word runs",
  "With an anchor word and window size W, adding content counts the n-grams of exactly the maximal runs of words that lie within W words of some occurrence of the anchor (to its left or right), where words are the whitespace-separated tokens starting with an alphanumeric character. Content without the anchor adds nothing.",
  ["inputs","configurations"],"every content, anchor, window size >= 1 and n >= 1","No test covers it; anchor spacing relative to W produces unboundedly many cases.",
  ["src/ngrams.rs"],[("Ngrams::add_anchored_content","src/ngrams.rs"),("Ngrams::add_content","src/ngrams.rs")],["Ngrams.counts"])
p("C14","The dictionary numbers distinct words 1,2,3,... in order of first insertion",
  "After any sequence of insertions the dictionary maps each distinct inserted word to its rank in order of first insertion, starting at 1, and its count is the number of distinct words. Re-inserting a known word changes nothing.",
  ["histories"],"every sequence of insertions starting from an empty dictionary","Quantifies over all insertion histories.",
  ["src/ngrams.rs"],[("Dictionary::insert","src/ngrams.rs")],["Dictionary.map","Dictionary::count"])
p("C15","Frequency reports list every entry once, in descending order",
  "The sorted report of an n-gram collection or a dictionary contains every recorded entry exactly once with its exact number, nothing else, and the numbers never increase along the list. Producing it does not change the collection.",
  ["inputs","histories"],"every reachable collection","Quantifies over all collections.",
  ["src/ngrams.rs"],[("Ngrams::sorted","src/ngrams.rs"),("Dictionary::sorted","src/ngrams.rs")],["Ngrams::sorted","Dictionary::sorted"])
p("C16","Math lexemes come out normalised and never blank",
  "The lexeme string of a math node lists, in document order and separated by single spaces, the words of its lexeme annotations after splitting around begin/end markers; number, array, atom and superscript-operator words are reduced to their kind, and in all other words every colon and hyphen is an underscore. If no annotation contains any word the result is the fallback word for formulas, so it is never blank and never has leading, trailing or double spaces.",
  ["inputs"],"every math node and annotation content","Only indirectly touched by the tests, with a few well-formed annotations.",
  ["src/dnm/node.rs"],[("lexematize_math","src/dnm/node.rs")],["lexematize_math"])
p("C17","XML navigation helpers return exactly the element children, or an error",
  "Listing non-text children returns exactly the children that are neither text nor comment, in document order, and the strict variant fails exactly when some text child is not whitespace-only. The only-child, no-child, simple-content and required-attribute helpers succeed exactly when the node has that shape and then return exactly that child, content or attribute value.",
  ["inputs"],"every node","No test covers them; they are the input validation for all pattern files.",
  ["src/patterns/utils.rs"],[("get_non_text_children, get_only_child, ...","src/patterns/utils.rs")],["PatternFile::load"])
p("C18","Word, part-of-speech and math-symbol patterns mean what their operators say",
  "A word, part-of-speech or math-symbol pattern matches exactly when its logical reading is true: 'any' always, a literal on equality, 'or' iff some alternative matches, 'not' iff the inner pattern does not match, a reference iff the referenced rule matches, a part-of-speech restriction iff both parts match. A marker never changes whether something matches and reports exactly the marked word together with the matches below it.",
  ["inputs","programs"],"every (non-circular) pattern file and every tagged sentence","The pattern module has no tests at all; patterns are programs of unbounded shape.",
  ["src/patterns/matching.rs"],[("match_word, match_pos, match_mtext","src/patterns/matching.rs")],["match_sentence"])
p("C19","Math patterns match by node name, text, children and descendants",
  "A math-node pattern matches exactly when its name, symbol and children requirements all hold, child patterns being compared with consecutive element children at the start, at the end, exactly, or at the first position where all match; a descendant pattern considers the node and all of its descendants in depth-first order. Markers report exactly the matched node.",
  ["inputs","programs"],"every (non-circular) pattern file and math tree","No tests; tree and pattern shapes are unbounded.",
  ["src/patterns/matching.rs"],[("match_math","src/patterns/matching.rs")],["match_sentence"])
p("C20","Sequence and phrase patterns consume exactly the words they claim",
  "A sequence pattern starting at a word position matches iff its parts match one after the other, each where the previous one ended; a word consumes one position, an alternative follows its selection mode (first, longest, at least one, any), a phrase ends exactly at the end of a phrase node of that type starting there and satisfies its start and end conditions, preferring the shortest or longest as requested. Matching a sentence reports the matches of the rule at every start position in order and fails for unknown rules or missing parses.",
  ["inputs","programs"],"every (non-circular) pattern file, sentence and phrase structure","No tests; patterns and parse trees are unbounded.",
  ["src/patterns/matching.rs"],[("match_seq, get_phrase_matches, PhraseTree::from_psg, match_sentence","src/patterns/matching.rs")],["match_sentence"])
p("C21","A loaded pattern file is complete and unambiguous",
  "Loading a pattern file succeeds only if every referenced rule is defined exactly once, and then every rule name maps to the rule defined under that name and every reference points to it, independent of definition order. A duplicate definition, an undefined reference, an unknown element or option value, a missing required attribute or child makes loading fail with an error rather than a panic.",
  ["inputs","programs"],"every pattern file","No tests; pattern files are programs of unbounded size.",
  ["src/patterns/rules.rs"],[("get_rule_position, PCtx::verify, PatternFile::load","src/patterns/rules.rs")],["PatternFile::load"])
p("C22","The canonical form is determined by names, sorted classes and text",
  "The canonical string of a node consists of its element tags with whitespace-separated classes in sorted order and its recorded non-blank text, in document order; annotation elements vanish with their content, semantics wrappers vanish but keep their content, comments and whitespace-only text vanish. Class order, identifiers and other attributes never influence it, computing it changes nothing, and the hash is the MD5 of that string.",
  ["inputs","histories"],"every tree; every order of previous hash computations","Tests compare a few files; the statement quantifies over all trees and over repeated hashing.",
  ["src/dnm/c14n.rs"],[("canonical_internal, node_hash_basic","src/dnm/c14n.rs")],["DNM::to_c14n_basic","DNM::to_hash_basic"])
p("C23","XPointer serialisation counts siblings right and round-trips text positions",
  "A position inside a text node is serialised as the path of that node, with each step numbered by its rank among like siblings, and its one-based character index; deserialising the pointer of a range inside the text of a document model of a whole document gives the same range back. A range pointer is the pair of its two end pointers.",
  ["inputs"],"every whole-document model built without transliteration or lowercasing, every range starting and ending in text","One test round-trips a single range.",
  ["src/dnm/range.rs"],[("serialize_node, get_node_number, xpointer_to_offset","src/dnm/range.rs")],["DNMRange::serialize","DNMRange::deserialize"])
p("C24","Merging per-document catalogues is exact and independent of scheduling",
  "The catalogue returned by a parallel corpus walk assigns each key the exact sum of the values the per-document reports gave it, whatever the order or grouping in which worker threads merge partial results, and contains no other key. The two-catalogue walk does so for each component independently.",
  ["schedules","inputs"],"every multiset of per-document reports, every grouping/order of pairwise merges","A test run sees one schedule; merging must be an associative, commutative pointwise sum with identity.",
  ["src/parallel_data/corpus.rs"],[("catalog_with_parallel_walk / catalogs_with_parallel_walk reduce","src/parallel_data/corpus.rs")],["Corpus::catalog_with_parallel_walk","Corpus::catalogs_with_parallel_walk"])
p("C25","Corpus walks select exactly the files with the configured extension",
  "Among non-hidden files, a corpus walk processes a file exactly when its name ends with the configured extension or, if none is configured, with .html or .xhtml; the sequential and both parallel walks agree. Each selected document is processed exactly once.",
  ["inputs","configurations"],"every file name and extension setting, over parseable document files","Tests walk one fixed directory.",
  ["src/parallel_data/corpus.rs","src/data.rs"],[("filter_map closures, DocumentIterator::next","src/parallel_data/corpus.rs, src/data.rs")],["Corpus walks"])
p("C26","Environment names print and parse back to the same environment",
  "The printed name of every structural environment is recognised, in any letter case, as that same environment, and printed names are pairwise distinct for structural and for AMS environments. The class of an AMS theorem element maps to the environment named in it, where the printed name of every environment but the catch-all names that environment; a bare theorem class maps to the theorem environment, the proof class to proof, and a class without such markup to none.",
  ["inputs"],"every environment and every class attribute","No test enumerates the enumerations.",
  ["src/ams.rs"],[("Display/From, class_to_env","src/ams.rs")],["StructuralEnv","AmsEnv","class_to_env"])
p("C27","Word normalisation yields a bounded word, marker or lexeme, or an error",
  "Normalising a word range lowercases it unless its case is to be kept, drops non-alphanumeric characters when punctuation is discarded, and fails exactly when the result is longer than 25 bytes. Otherwise a word containing the formula placeholder in any case becomes its math lexemes (empty when math is discarded), else one containing the citation placeholder becomes exactly that placeholder, else a numeric literal becomes NUM, and every other word is returned as is.",
  ["inputs","configurations"],"every word range and option setting","Only exercised through example programs.",
  ["src/util/data_helpers.rs"],[("ams_normalize_word_range","src/util/data_helpers.rs")],["ams_normalize_word_range"])
p("C28","Document iterators deliver every selected item once, in order, and nothing empty",
  "Sentence and word iterators deliver exactly the non-empty ranges they were given, in order; node iterators deliver one document model per selected node, in order. Filtered iteration delivers exactly the nodes satisfying the filter in depth-first document order, and extended paragraphs come as abstract, keywords, paragraphs, acknowledgement, captions.",
  ["inputs","histories"],"every document, every filter, every sequence of calls","Tests count items of one document.",
  ["src/parallel_data.rs","src/parallel_data/document.rs","src/data.rs"],[("Iterator impls, dfs_filter_nodes, extended_paragraph_iter","src/parallel_data.rs")],["iterators"])
p("C29","The preset parameters configure exactly the documented policies",
  "The default parameters have no element rules, normalise whitespace and support back mapping with everything else off; the standard preset replaces math, citations, references and equations by their placeholders, skips exactly the documented non-text elements and classes, wraps tokens, transliterates and keeps whitespace raw. Checking parameters never alters them.",
  ["configurations"],"the complete rule tables of both presets","Tests exercise a few of the rules through sample files.",
  ["src/dnm/parameters.rs"],[("DNMParameters::default / llamapun_normalization","src/dnm/parameters.rs")],["DNMParameters"])
p("C30","Tokenising a document path drops exactly the paragraphs with overlong words",
  "Tokenising a document yields, paragraph by paragraph and sentence by sentence in document order, one line per sentence that has words, each normalised word followed by a space; a paragraph in which some word normalises to an error contributes nothing at all and never affects other paragraphs.",
  ["inputs"],"every document","Only one FFI entry point and no test of it.",
  ["src/util/path_helpers.rs","src/extern_use.rs"],[("path_to_words","src/util/path_helpers.rs")],["path_to_words","word_tokenize_for_vec2doc"])
p("C31","The text of a heading is its normalised words without the numbers",
  "The text of a heading node is read from its document model under the standard preset: each word of the model's plaintext, in order, normalised with the default options and followed by one space, leaving out numbers and words of which nothing is left. There is no text exactly when some word normalises to an error; nothing after or before the node contributes.",
  ["inputs"],"every node of every document","No test calls it.",
  ["src/util/data_helpers.rs"],[("heading_from_node_aux","src/util/data_helpers.rs")],["heading_from_node_aux"])
p("C32","Title normalisation terminates at a fixed point of the heading types",
  "Normalising a heading title terminates for every text. Surrounding white space, roman numerals and the white space around them, NUM placeholders, single letters, lead-in phrases, trailing words and the plural of the known types are stripped repeatedly until nothing changes; if nothing is left the result is empty; otherwise the rest is replaced by the type the table gives it - exact synonyms before beginnings, beginnings before endings - or returned as it is. The result is itself left alone by normalisation.",
  ["inputs"],"every text","Tests fix no title at all, and termination and idempotence are claims about all texts.",
  ["src/util/data_helpers.rs"],[("normalize_heading_title","src/util/data_helpers.rs")],["normalize_heading_title"])
p("C33","A token model holds every paragraph's tokens once, and its counts say what it holds",
  "Extracting the token model of a corpus reports, as exact sums over its documents, how many documents, extended paragraphs, words, formulas, citations, numbers and overlong tokens there are. Of each document it writes, in one piece, one line per paragraph without an overlong token: every word or punctuation token of the paragraph's standard model in order, lowercased, formulas as their lexemes (or nothing when math is discarded), citations and numbers as their placeholders, each followed by a space. An overlong token is counted, ends its paragraph and drops its line; nothing else is left out, and everything is flushed.",
  ["inputs","schedules","configurations"],"every corpus, document, schedule of the walk and math setting","No test calls it.",
  ["src/util/token_model.rs","src/parallel_data.rs","src/parallel_data/corpus.rs"],[("extract","src/util/token_model.rs")],["util::token_model::extract"])
p("C34","A plain string becomes the document model of one paragraph with exactly that text",
  "Making a document model from a string always succeeds for a string without NUL. It builds the document html > body > div of class ltx_para > one text node holding exactly the string (none for the empty string) and returns it together with the model of its root under the given parameters, or under the default ones (no rules, white space normalised, back mapping) if none are given; so with plain parameters the model's text is the string itself, with white space collapsed if that is asked for. Making one from a tokenized paragraph does the same with the rebuilt text: the non-empty lines in order, joined by ' . ', in each of which every run of formula lexemes (NUM, or text joined by underscores, up to the white space after it) is replaced by 'mathformula ' and the first character is put in upper case if it is an ASCII letter; nothing else is changed.",
  ["inputs","configurations"],"every string without NUL, every consistent parameter setting","Tests make models of one two-word string and one file and count paragraphs and sentences; they look at no text.",
  ["src/dnm/mod.rs","src/dnm/c14n.rs"],[("DNM::from_str","src/dnm/mod.rs"),("DNM::from_ams_paragraph_str","src/dnm/mod.rs"),("rebuild_normalized_text","src/dnm/c14n.rs"),("make_ascii_titlecase","src/dnm/c14n.rs")],["DNM::from_str","DNM::from_ams_paragraph_str"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: pass
