#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements are easy to review)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":observe,"hook_needed":None}})

p("C01","Grapheme clusters are those of UAX #29 (Unicode 10)",
 "For every string, the extended and the legacy grapheme cluster iterators yield exactly the segments that the Unicode 10.0 grapheme cluster boundary rules prescribe, and these concatenate to the string. Going forwards, backwards, or taking from both ends in any order gives the same segments, each reported with its true byte offset, and the unconsumed remainder and the size hint stay correct throughout.",
 ["inputs","histories"],"every string over all code points; every interleaving of next and next_back",
 "The tests sample the conformance file (768 short strings) forwards and backwards, with few mixed histories; regional indicator runs, emoji/ZWJ sequences and prepend characters in arbitrary contexts are not reached.",
 ["unic/segment/src/grapheme.rs","unic/ucd/segment/src/grapheme_cluster_break.rs"],
 [("check_pair, GraphemeCursor::{next_boundary,prev_boundary,is_boundary}","unic/segment/src/grapheme.rs"),("GCB table","unic/ucd/segment/tables/grapheme_cluster_break.rsv")],
 ["Graphemes::new","Graphemes::new_legacy","GraphemeIndices","as_str","size_hint"])

p("C02","A grapheme cursor finds the same boundaries however the text is chunked",
 "For every string, every way of cutting it into chunks and every sequence of cursor moves, boundary queries, next and previous requests that answers each request for context or for another chunk as documented, the cursor reports exactly the grapheme boundaries of the whole string. It never panics and never asks for ever for more input. A chunk that does not contain the cursor is answered with InvalidOffset, and the cursor stays as it was.",
 ["inputs","histories"],"every string, chunking and sequence of cursor operations that follows the documented protocol",
 "The tests feed the cursor the whole string, or a few hand-made chunkings; the state carried between calls (counted flags, pending context) is reached only by multi-step histories.",
 ["unic/segment/src/grapheme.rs"],
 [("GraphemeCursor state machine: state, cat_before, cat_after, pre_context_offset, ris_count, resuming","unic/segment/src/grapheme.rs")],
 ["GraphemeCursor::{set_cursor,provide_context,is_boundary,next_boundary,prev_boundary}","GraphemeIncomplete"],
 [{"name":"GraphemeCursor","meaning":"position plus everything known about its neighbourhood","where":"unic/segment/src/grapheme.rs"}])

p("C03","Word segments are those of UAX #29 (Unicode 10)",
 "For every string, forward word-boundary iteration yields exactly the segments the Unicode 10.0 word boundary rules prescribe; they are non-empty, concatenate to the string, and carry their true byte offsets. The word iterator yields exactly those segments that the given predicate accepts, in order.",
 ["inputs"],"every string over all code points; every character predicate",
 "The tests sample the conformance file and a few sentences; long runs of format/extend/ZWJ characters between letters, numbers, quotes and regional indicators are not reached.",
 ["unic/segment/src/word.rs","unic/ucd/segment/src/word_break.rs"],
 [("FormatExtendType / UWordBoundsState automaton","unic/segment/src/word.rs"),("WB table","unic/ucd/segment/tables/word_break.rsv")],
 ["WordBounds::new","WordBoundIndices::new","Words::new"])

p("C04","Word iteration from the back agrees with iteration from the front",
 "For every string and every interleaving of taking words from the front and from the back, the word-boundary iterators yield the same segments with the same offsets as plain forward iteration, each exactly once, and the remaining text is always the part not yet yielded.",
 ["inputs","histories"],"every string and every sequence of next / next_back / remaining-text calls",
 "The backward automaton is separate code; tests run it on conformance strings only, purely backwards.",
 ["unic/segment/src/word.rs"],
 [("WordBounds::next_back, get_next_cat/get_prev_cat","unic/segment/src/word.rs")],
 ["WordBounds::{next,next_back,as_str}","WordBoundIndices","Words (DoubleEndedIterator)"])

p("C05","NFD, NFC, NFKD and NFKC are the forms defined by UAX #15",
 "For every string, the four normalization iterators produce exactly the character sequence that the Unicode 10.0 definitions of NFD, NFC, NFKD and NFKC prescribe: full (canonical or compatibility) decomposition, canonical ordering, and for the C forms canonical composition with its exclusions and blocking rule, including algorithmic Hangul.",
 ["inputs"],"every string of Unicode scalar values, including long runs of combining marks, jamo and starters that compose",
 "The repository's normalization conformance test needs data files that are absent; the remaining tests hold a few dozen strings.",
 ["unic/normal/src/decompose.rs","unic/normal/src/recompose.rs","unic/ucd/normal/src/"],
 [("Decompositions::sort_pending/ push_back","unic/normal/src/decompose.rs"),("Recompositions state machine","unic/normal/src/recompose.rs"),("mapping tables","unic/ucd/normal/tables")],
 ["StrNormalForm::{nfd,nfkd,nfc,nfkc}"])

p("C06","Normalization is idempotent, confluent and independent of how it is consumed",
 "For every string, normalizing an already normalized string changes nothing, canonically equivalent strings have equal NFC and equal NFD, and the C forms of the D forms (and vice versa) agree. The result does not depend on whether the source is a string or any character iterator, whether the normalizing iterator is cloned, printed, or consumed step by step, and its size hint is always true. The source is read no further than is needed to decide the next characters, so that endless sources can be normalized.",
 ["inputs","histories"],"every string, every canonically equivalent rewriting of it, every split of the consumption into steps and clones",
 "Tests compare fixed pairs and never clone or partially consume the iterators.",
 ["unic/normal/src/lib.rs","unic/normal/src/decompose.rs","unic/normal/src/recompose.rs"],
 [("StrNormalForm for &str and for char iterators, Display, Clone","unic/normal/src")],
 ["nfd/nfkd/nfc/nfkc","Display","Clone","size_hint"])

p("C07","Single-character composition and decomposition obey the Unicode definitions",
 "For every character the canonical and compatibility decomposition callbacks deliver its full decomposition, and for every ordered pair of characters composition yields exactly the primary composite that Unicode 10.0 defines for the pair, or nothing. Hangul syllables decompose and compose by the standard's arithmetic, and composition inverts canonical pair decomposition for every character not excluded from composition.",
 ["inputs"],"every character; every pair of characters; every Hangul syllable and jamo pair, also just outside the jamo ranges",
 "Tests hold a handful of characters; the pair space is 10^12 and its interesting points lie at table and jamo-range boundaries.",
 ["unic/ucd/normal/src/decomposition.rs","unic/ucd/normal/src/composition.rs","unic/ucd/hangul/src/hangul.rs"],
 [("decompose_*, compose, compose_syllable, decompose_syllable","unic/ucd/normal, unic/ucd/hangul")],
 ["compose","decompose_canonical","decompose_compatible","compose_syllable","decompose_syllable","DecompositionType::of"])

p("C08","Bidi analysis splits paragraphs and picks base levels by P1-P3",
 "For every text, bidi analysis splits it into consecutive paragraphs that each end after a paragraph separator, cover the text exactly, and have the given base level or else the one from the first strong character outside isolates. It reports for every byte the bidi class of its character, with first-strong isolates replaced by the directional isolate their contents call for. The constants for directional formatting characters are the characters of those names.",
 ["inputs"],"every text, with and without a given base level",
 "Tests hold some twenty hand-written strings; nesting of isolates around strong characters and unmatched isolate controls are barely touched.",
 ["unic/bidi/src/bidi_info.rs"],
 [("BidiInfo::new -> InitialInfo::new","unic/bidi/src/bidi_info.rs")],
 ["BidiInfo::{paragraphs,original_classes,text}","ParagraphInfo"])

p("C09","Bidi embedding levels are resolved by the rules of UAX #9",
 "For every text and base direction, the level resolved for each character is the one that UAX #9 rules X1 to I2 prescribe (all bytes of a character have one level, levels stay within the permitted depth, and processing of one paragraph never influences another). Analysis never panics or hangs, whatever the nesting of embeddings, overrides and isolates.",
 ["inputs"],"every text over all bidi classes, nesting depths beyond the limit of 125 included, and every base direction",
 "The bidi conformance tests need data files that are absent here and are expected to fail in thousands of cases; the unit tests sample a few strings, so nearly all combinations of classes are unchecked.",
 ["unic/bidi/src/explicit.rs","unic/bidi/src/implicit.rs","unic/bidi/src/prepare.rs","unic/bidi/src/bidi_info.rs"],
 [("explicit::compute, prepare::isolating_run_sequences, implicit::resolve_weak/resolve_neutral/resolve_levels, assign_levels_to_removed_chars","unic/bidi/src")],
 ["BidiInfo::levels","BidiInfo::has_rtl"])

p("C10","Bidi line reordering is the L1/L2 permutation of the line",
 "For every analysed text and every line within a paragraph, the reordered levels apply rule L1 to that line, the visual runs are the level runs of the line in the order rule L2 prescribes and cover the line exactly once, and the reordered line is the concatenation of these runs with right-to-left runs reversed by character. Text without right-to-left content comes out unchanged.",
 ["inputs"],"every text, base direction, paragraph and line range on character boundaries, also lines that do not start at the beginning of the text",
 "Tests only reorder lines that are whole texts of one paragraph.",
 ["unic/bidi/src/bidi_info.rs"],
 [("reordered_levels, reordered_levels_per_char, reorder_line, visual_runs","unic/bidi/src/bidi_info.rs")],
 ["BidiInfo::{reordered_levels,reordered_levels_per_char,reorder_line,visual_runs}"])

p("C11","Bidi level arithmetic stays within bounds and reports every overflow",
 "For every level and amount, creating, raising, lowering and stepping a level yields the mathematically exact level when it lies within the (explicit or implicit) limit and an error otherwise, leaving the level unchanged on error. Next-LTR and next-RTL levels are the smallest greater level of that direction, and a serialized level reads back as itself while out-of-range numbers are refused.",
 ["inputs","histories"],"every level, every amount 0..=255, every sequence of operations",
 "Tests check a few boundary values; the statement ranges over 127 x 256 pairs per operation and over sequences.",
 ["unic/bidi/src/level.rs"],
 [("Level::{new,new_explicit,raise,raise_explicit,lower,new_explicit_next_ltr,new_explicit_next_rtl,new_lowest_ge_rtl,vec}","unic/bidi/src/level.rs")],
 ["Level methods","serde of Level"])

p("C12","Punycode encoding is RFC 3492 and decodes back to the input",
 "For every string whose encoding is possible, punycode encoding gives exactly the RFC 3492 output, and decoding that output gives back the input (or reports overflow, for strings far longer than a domain label). Encoding either succeeds or reports overflow; it never panics.",
 ["inputs"],"every string of Unicode scalar values, from empty to thousands of characters with extreme code points",
 "Tests hold the published vectors; overflow and bias adaptation at extreme deltas need long or extreme inputs.",
 ["unic/idna/punycode/src/lib.rs"],
 [("encode, adapt, encode_digit","unic/idna/punycode/src/lib.rs")],
 ["punycode::{encode,encode_str,decode,decode_to_string}"])

p("C13","Punycode decoding accepts exactly well-formed input",
 "For every string, punycode decoding returns what RFC 3492 decoding prescribes, case-insensitively in the digits, and returns an error for bad digits, non-ASCII input, truncated integers, overflow and values that are no Unicode scalar value. It never panics.",
 ["inputs"],"every string, in particular almost well-formed ones",
 "Tests decode valid vectors and a few invalid ones; the error conditions are numeric boundaries.",
 ["unic/idna/punycode/src/lib.rs"],
 [("decode, decode_digit, adapt","unic/idna/punycode/src/lib.rs")],
 ["punycode::decode","punycode::decode_to_string"])

p("C14","IDNA processing is UTS #46 processing",
 "For every domain string and every combination of flags, conversion to ASCII and to Unicode returns the domain that UTS #46 (Unicode 10) processing gives: map, normalize, break into labels, decode and validate each label (mapping status, normalization, leading combining mark, leading and trailing hyphen, bidi rule; hyphens in positions 3 and 4 and joiner contexts are documented as unchecked), and reports an error exactly when one of these steps, the encoding, or the requested length check fails.",
 ["inputs","configurations"],"every string, every combination of the STD3, transitional and DNS-length flags",
 "The IDNA conformance test needs a data file that is absent here; the unit tests hold a few domains.",
 ["unic/idna/src/process.rs","unic/idna/mapping/src/mapping.rs"],
 [("processing, validate, passes_bidi, map_char, to_ascii, to_unicode","unic/idna/src/process.rs")],
 ["idna::to_ascii","idna::to_unicode","Flags","Errors"])

p("C15","IDNA results are stable, pure ASCII, and survive the round trip",
 "Whenever conversion to ASCII succeeds the result is ASCII without upper-case letters, converts to itself again, satisfies the DNS length limits if these were requested, and (in non-transitional processing) has the same Unicode form as the input. Whenever conversion to Unicode succeeds, its result converts to itself; letter case, fullwidth forms and the alternative full stops of the input make no difference; neither conversion panics on any input.",
 ["inputs","configurations"],"every string, every combination of flags",
 "These relations between calls hold for all inputs; tests only compare fixed input/output pairs.",
 ["unic/idna/src/process.rs"],
 [("to_ascii, to_unicode","unic/idna/src/process.rs")],
 ["idna::to_ascii","idna::to_unicode"])

p("C16","Character ranges are the sets of characters they denote",
 "For every pair of characters and every kind of bounds, a character range contains exactly the scalar values between the bounds, and its length, emptiness, membership, comparison with a character, equality, and iteration all agree with that set; iteration skips the surrogate gap.",
 ["inputs"],"every pair of bound characters (in either order), every kind of bound, every probe character",
 "Tests check a few dozen ranges; the off-by-one risks sit at the surrogate gap and the ends of the code space.",
 ["unic/char/range/src/range.rs","unic/char/range/src/macros.rs","unic/char/range/src/step.rs"],
 [("CharRange constructors, contains, cmp_char, len, eq; chars! macro","unic/char/range/src")],
 ["CharRange::{closed,open,open_left,open_right,bound,all,assigned_normal_planes}","chars!"])

p("C17","Character iterators are exact under every history of calls",
 "For every character range and every sequence of forward, backward, nth and fold-like steps, the iterator yields exactly the remaining characters of the range in order from either end, each once, reports its exact remaining length, and stays exhausted once empty. Parallel iteration visits the same characters in the same order.",
 ["inputs","histories"],"every range and every sequence of iterator calls; every split of the parallel iterator",
 "Tests iterate a few ranges from one end to the other; the histories that cross the surrogate gap from both ends are not sampled.",
 ["unic/char/range/src/iter.rs","unic/char/range/src/step.rs","unic/char/range/src/par_iter.rs"],
 [("CharIter: low/high cursor with step::forward/backward","unic/char/range/src/iter.rs")],
 ["CharIter (Iterator, DoubleEndedIterator, ExactSizeIterator)","IntoParallelIterator"])

p("C18","Table lookup finds exactly the entry that covers the character",
 "For every sorted table of single characters or of disjoint ranges and every character, lookup returns the value of the entry containing the character (with that entry's range if asked for), or nothing or the default if there is none; iterating the table yields every entry in order.",
 ["inputs"],"every well-formed table (direct or range kind, empty included) and every character",
 "Tests look up a few characters in shipped tables; search errors show at particular table sizes and entry positions.",
 ["unic/char/property/src/tables.rs","unic/char/range/src/range.rs"],
 [("CharDataTable::{find,find_with_range,find_or_default,contains,iter}","unic/char/property/src/tables.rs")],
 ["CharDataTable"])

p("C19","Every character property has its Unicode 10.0 value",
 "For every character, each property the crates offer (general category, bidi class and mirroring, combining class, decompositions and their types, case properties, alphabetic and other common properties, identifier and pattern properties, segmentation classes, emoji properties, age, block, IDNA mapping, noncharacter and private-use status) has the value that the Unicode 10.0 data (Emoji 5.0) gives it. The same value is returned by every way the library offers to ask for it.",
 ["inputs"],"every Unicode scalar value, every property, every access path (type, function, trait method)",
 "Tests probe a few dozen characters per property out of 1.1 million; the conformance data is not in the tree.",
 ["unic/ucd","unic/emoji/char","unic/idna/mapping","unic/char/basics","unic/char/property/src/macros.rs"],
 [("generated tables","unic/ucd/*/tables, unic/emoji/char/tables, unic/idna/mapping/tables"),("char_property! macro","unic/char/property/src/macros.rs")],
 ["all property types and is_* functions"])

p("C20","Derived helpers and related properties are consistent with each other",
 "For every character the grouping helpers (category groups, bidi class categories, direction tests, combining-class tests) agree with the underlying property value, properties that Unicode defines in terms of others satisfy their definitions, and the string-level helpers hold exactly when some character of the string satisfies the character-level one. This holds for every string.",
 ["inputs"],"every character and every string",
 "Tests check some values of some helpers; the string helpers for direction are tested on single strings.",
 ["unic/ucd/category/src/category.rs","unic/ucd/bidi/src/bidi_class.rs","unic/ucd/normal/src/canonical_combining_class.rs","unic/ucd/common/src"],
 [("is_* helper methods, CharBidiClass, StrBidiClass","unic/ucd")],
 ["GeneralCategory::is_*","BidiClass::{category,is_ltr,is_rtl}","StrBidiClass","CanonicalCombiningClass"])

p("C21","Character names and aliases are those of Unicode 10.0",
 "For every character, its name is the Unicode 10.0 name, printed in full, with the length the name reports, including the algorithmic names of Hangul syllables and ideographs; unnamed characters have none. Names are distinct for distinct characters, names compare and sort like the strings they print, and the formal aliases of every kind are those of NameAliases.txt.",
 ["inputs"],"every character; every pair and triple of named characters",
 "Tests check some tens of names; each of the 130,000 names is assembled from pieces, and comparison is hand-written.",
 ["unic/ucd/name/src/name.rs","unic/ucd/name_aliases/src/name_aliases.rs","unic/ucd/hangul/src/hangul.rs"],
 [("Name::{NR1,NR2,NR3}, len, Display, Ord","unic/ucd/name/src/name.rs")],
 ["Name::of","Display","Name::len","Ord","name_aliases_of","NameAliasType::of"])

p("C22","Ages, blocks and versions are ordered and partitioned consistently",
 "Blocks are disjoint, listed in ascending order, and a character's block is the listed one that contains it. Comparing ages is a total order consistent with equality in which a character introduced in an earlier version has the greater age, and Unicode versions compare, print and convert as their (major, minor, micro) triples. Every component reports Unicode 10.0.0 (emoji: 5.0.0) as the version of its data.",
 ["inputs"],"every character, every pair and triple of ages and versions",
 "Tests compare a few values; laws of comparison range over pairs and triples.",
 ["unic/ucd/age/src/age.rs","unic/ucd/block/src/block.rs","unic/common/src/version.rs"],
 [("Age: PartialOrd/Ord; BlockIter; UnicodeVersion","unic/ucd/age, unic/ucd/block, unic/common")],
 ["Age (all comparison operators, sort)","Block::of","BlockIter","UnicodeVersion"])

p("C23","Property values print and parse as their Unicode names",
 "For every enumerated or binary property, every value's abbreviated and long Unicode names (in any ASCII letter case) parse back to that value, every other string is refused, and values print as their human-readable name. The listing of all values is complete and free of duplicates, abbreviated and long names are the ones PropertyValueAliases.txt defines, and human-readable names are distinct and describe their value.",
 ["inputs"],"every property value and every string",
 "Tests parse some names; refusal ranges over all other strings.",
 ["unic/char/property/src/macros.rs"],
 [("char_property! generated FromStr, Display, all_values","unic/char/property/src/macros.rs")],
 ["FromStr","Display","EnumeratedCharProperty","BinaryCharProperty"])

p("C24","Text formats of the command line tools parse back to what was written",
 "For every text, the code point, UTF-8, UTF-16 and escape writers print exactly the documented notation of its characters or code units, and parsing what the code point, UTF-8 hex and UTF-16 hex writers print gives back the text. The parsers accept every documented spelling of code points and code units, in either letter case and with or without prefix, and refuse anything else instead of returning some other text. An output that fails part-way makes the writers report an error after writing a prefix of the right text.",
 ["inputs","fault_sequences"],"every text (supplementary characters included), every argument string, every output that fails at some point",
 "Tests hold one example per format.",
 ["apps/cli/src/parsers.rs","apps/cli/src/writers.rs"],
 [("parsers::*, writers::*","apps/cli/src")],
 ["unic_cli::parsers","unic_cli::writers"])

p("C25","unic-echo converts its arguments faithfully in every format pair",
 "For every combination of input and output format and every list of arguments, the echo tool writes exactly the rendering, in the output format, of the text that its arguments, joined by single spaces, denote in the input format, with a newline unless told otherwise, and exits with success. Malformed input and unknown formats give a message, a failing exit status and no output. Output that cannot be written gives a failing exit status.",
 ["inputs","configurations","fault_sequences"],"every text, every pair of formats, every order of options and arguments",
 "Tests run a few fixed command lines.",
 ["apps/cli/src/bin/unic-echo.rs"],
 [("run","apps/cli/src/bin/unic-echo.rs")],
 ["the unic-echo program"])

p("C26","Generated tables represent exactly the source data",
 "For every set of well-formed Unicode source data files, the table generator writes tables which, read back, give every character exactly the value the data gives it (First/Last pairs, character ranges and default bidi classes included) and no value to any other character, in ascending non-overlapping entries; from the data of Unicode 10 it reproduces the tables of the repository. It writes the tables of the components asked for, removes stale ones, leaves every other file alone, and gives the same result when run again. A missing source file or an unknown component makes it fail.",
 ["inputs","configurations"],"every well-formed set of source files and every choice of components",
 "No test runs the generator; its inputs are not in the tree.",
 ["gen/src/writer/utils/tables.rs","gen/src/writer","gen/src/source"],
 [("ToRangeCharTable, ToDirectCharTable, ToRangeCharSet; source parsers","gen/src")],
 ["the unic-gen program"])

p("C27","Code point notation is U+ and at least four upper-case hex digits",
 "For every character the Unicode notation prints as U+ followed by its code point in upper-case hexadecimal with at least four digits and no superfluous leading zeros, and it parses back to that character. This holds whatever formatting context it is printed in.",
 ["inputs"],"every character",
 "Tests print three characters.",
 ["unic/char/basics/src/notation.rs"],
 [("UnicodeNotation: Display","unic/char/basics/src/notation.rs")],
 ["unicode_notation"])

p("C28","Types declared with char_property! are what was declared",
 "Every type declared with the char_property! macro has exactly the declared values in the declared order, its modules and its naming methods give every value its declared names, and it prints as its human-readable name. Parsing accepts exactly the abbreviated and long names in any ASCII letter case (Y, Yes, T, True, N, No, F, False for a binary property), and a string that is exactly a name of one value means that value. A declared binary property is true for exactly the characters in its table, through its function, its type and its traits alike.",
 ["programs","inputs"],"every declaration (values, names, tables) and every string or character given to the declared type",
 "The tests declare one enumeration of three values and one binary property with one range, and look at a handful of strings and characters.",
 ["unic/char/property/src/macros.rs","unic/char/property/src/property.rs","unic/char/property/src/range_types.rs","unic/char/property/src/tables.rs"],
 [("char_property!: the modules, FromStr, Display, EnumeratedCharProperty, BinaryCharProperty","unic/char/property/src/macros.rs")],
 ["FromStr","Display","all_values","abbr_name/long_name/human_name","prop_*_name","of","as_bool"])

p("C29","What prints gives its whole text, or reports that it could not",
 "Every value that prints (a character's name and notation, a property value, combining class, version, embedding level, bidi summary, or normalizing iterator) prints its whole text, the same every time, and printing changes nothing about it. If the sink refuses any piece of the text, printing returns the error, and a sink that has become full has received a prefix of the text. Combining classes, levels and the parts of versions are in plain decimal.",
 ["inputs","fault_sequences"],"every printable value, and every point at which a sink may refuse the text",
 "Tests print a few values into strings, which never refuse anything.",
 ["unic/ucd/name/src/name.rs","unic/char/basics/src/notation.rs","unic/normal/src/decompose.rs","unic/normal/src/recompose.rs","unic/common/src/version.rs","unic/ucd/normal/src/canonical_combining_class.rs","unic/bidi/src/level.rs","unic/bidi/src/bidi_info.rs","unic/char/property/src/macros.rs"],
 [("impl fmt::Display for Name, UnicodeNotation, Decompositions, Recompositions, UnicodeVersion, CanonicalCombiningClass, Level, BidiInfo, property values","the files above")],
 ["Display"])

p("C30","Calls do not influence one another",
 "Every call of the library gives the same result for the same arguments, whatever calls were made before it, in whatever order, in the same process or another, and whatever other threads are calling at the same time. Iterators, cursors and analyses that are alive at the same time do not disturb one another.",
 ["histories","schedules"],"every sequence and interleaving of calls, on any number of threads",
 "Tests make each call once, in a fixed place; state that outlives a call (a cache, a static, a buffer used again) shows only in a later call that differs.",
 ["unic/segment/src","unic/normal/src","unic/bidi/src","unic/idna/src","unic/ucd","unic/char"],
 [("all public functions and iterators","unic")],
 ["Graphemes","WordBounds","GraphemeCursor","nfd/nfkd/nfc/nfkc","BidiInfo","to_ascii","to_unicode","Name::of","CharProperty::of"])

p("C31","Work grows in proportion to the length of the text",
 "Normalizing, segmenting in either direction, analysing and reordering bidirectional text, converting domain names and encoding punycode (of a limited number of different characters) take a time that grows in proportion to the length of the text, whatever it consists of. No text makes the time grow with the square of its length.",
 ["inputs","resources"],"every text, in particular long runs of marks, flags, joiners, quotes, brackets, embeddings, isolates and separators",
 "Tests use short strings and do not look at the time; what makes the work grow faster is a particular long run.",
 ["unic/normal/src/decompose.rs","unic/normal/src/recompose.rs","unic/segment/src/grapheme.rs","unic/segment/src/word.rs","unic/bidi/src","unic/idna/src/process.rs","unic/idna/punycode/src/lib.rs"],
 [("canonical_sort, Recompositions::next, GraphemeCursor, WordBounds, explicit/prepare/implicit, process","the files above")],
 ["nfd/nfkd/nfc/nfkc","Graphemes","WordBounds","BidiInfo","to_ascii","to_unicode","encode_str"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title'])); assert x['statement'].count('. ')<=2
print(len(P))
