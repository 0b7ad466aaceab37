NOTES = 'Static analysis only: every check compiles the current /repo sources to LLVM IR, and decides its property by abstract interpretation / dataflow over that program against an independently parsed reference. Nothing of the library is executed; see DESIGN.md.'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                      anchors={'files': ['src/libunicode/' + f for f in files], 'mechanism': [{'name': n, 'where': 'src/libunicode/' + w} for n, w in mech]},
                      technique=technique, note=note, na=na))


AI = 'abstract interpretation of the compiled program (value-set partition of the code point domain), compared with the published character data'
TR = 'Sound for every code point: any path the analysis cannot resolve makes the check fail to answer rather than pass. Trusts clang 18 to lower the sources as the build\'s compiler does, the analyser, and the published files under /usr/share/unicode.'

P('C01', 'Grapheme cluster boundaries follow UAX #29 for every text',
  'For every sequence of code points, segmenting with the grapheme segmenter\'s start and step functions puts a boundary between two neighbours exactly where the extended grapheme cluster rules GB3 to GB999 of UAX #29 put one, whatever came before. '
  'The decision never depends on state left over from an earlier segment, and every table access is inside its table.',
  ['inputs', 'histories'], 'every finite sequence of 32-bit code points, every pair of neighbours in it, every history before them',
  'The decision between two code points depends on an unbounded history (flag parity, conjuncts, emoji chains); tests run fixed sequences.',
  ['grapheme_segmenter.cpp', 'grapheme_segmenter.h', 'codepoint_properties.h'],
  [('segmentation step', 'grapheme_segmenter.cpp'), ('segmentation start', 'grapheme_segmenter.cpp')],
  'abstract interpretation of the step function into a finite transducer, product automaton with the UAX #29 rules',
  'Sound for every sequence: the product of the reachable segmenter states and the rule histories is enumerated completely; the code points are covered as value sets. Trusts clang 18\'s lowering, the analyser, and the published files under /usr/share/unicode.')
P('C02', 'Word boundaries follow UAX #29 for every text',
  'For every sequence of code points, the word segmenter\'s start and step functions, given the text that follows as lookahead, put a boundary between two neighbours exactly where the word boundary rules WB3 to WB999 of UAX #29 put one, whatever came before and however far the lookahead has to skip. '
  'Starting over after a boundary (as the iterator does) never changes a later decision, and no code point outside the text is read.',
  ['inputs', 'histories'], 'every finite sequence of 32-bit code points, every history, every lookahead text of any length',
  'A decision depends on an unbounded history and an unbounded lookahead (skipped Extend/Format/ZWJ); tests run fixed sequences.',
  ['word_segmenter.cpp', 'word_segmenter.h', 'codepoint_properties.h'],
  [('segmentation step with lookahead', 'word_segmenter.cpp'), ('segmentation start', 'word_segmenter.cpp')],
  'abstract interpretation of the step function (lookahead loop summarised) into a finite transducer, product automaton with the UAX #29 rules',
  'Sound for every sequence: the product of the reachable segmenter states, rule histories and lookahead classes is enumerated completely; code points are covered as value sets. Trusts clang 18\'s lowering, the analyser, and the published files under /usr/share/unicode.')
P('C03', 'Character property record agrees with the Unicode data',
  'For every code point U+0000..U+10FFFF, the property record the library returns carries exactly the published script, general category, age, grapheme break, word break, '
  'Indic conjunct break, emoji and extended-pictographic flags, grapheme-extend, virama and emoji-variation-base values, the emoji segmentation category that follows from them, and the published East Asian width wherever one is listed. '
  'The lookup stays inside its tables for any 32-bit value.',
  ['inputs'], 'every 32-bit code point value, every field of the record',
  'Tests sample a few dozen code points; the record has 17 fields over 1.1 million code points and is produced by a generator whose mistakes sit on single code points or block borders.',
  ['codepoint_properties.h', 'multistage_table_view.h', 'multistage_table_generator.h', 'tablegen/ucd_parser.cpp', 'tablegen/multistage_generator.cpp'],
  [('multistage table lookup', 'multistage_table_view.h'), ('table generation', 'multistage_table_generator.h')], AI, TR)
P('C04', 'Stand-alone character queries agree with the Unicode data',
  'For every code point, the stand-alone queries (plane, general category, script, script extensions, block, grapheme cluster break, East Asian width, emoji properties, mirroring and mirror glyph, core properties, and membership of each general category) give exactly the published value. '
  'Code points not listed in the published file get the query\'s documented default, and no query reads outside its tables for any 32-bit value.',
  ['inputs'], 'every code point, every query and every property/category constant',
  'Tests sample single code points per query; range-search and range-table mistakes show up only at individual range borders.',
  ['ucd_private.h', 'tablegen/ucd_api_generator.cpp', 'tablegen/enum_generator.cpp', 'tablegen/ucd_parser.cpp'],
  [('range search', 'ucd_private.h'), ('range table generation', 'tablegen/ucd_api_generator.cpp')], AI, TR)
P('C05', 'Code point names agree with the Unicode data',
  'For every code point the name lookup yields exactly the published name (for ranges published as a pattern, that pattern), and an empty name for code points that have none. The lookup stays inside its tables for any 32-bit value.',
  ['inputs'], 'every 32-bit code point value',
  'Tests look up a handful of names below U+FFFF; the name table is multi-stage, so aliasing between blocks is invisible to samples.',
  ['codepoint_properties.h', 'multistage_table_generator.h', 'tablegen/multistage_generator.cpp'],
  [('name table lookup', 'codepoint_properties.h'), ('name table generation', 'tablegen/multistage_generator.cpp')], AI, TR)
P('C06', 'Column width of every code point follows the width rule',
  'The column width of a code point, whether asked for alone or read from its property record, is 0 for control, mark, format, surrogate and separator categories (except prepended concatenation marks and the soft hyphen, which take 1) and for conjoining vowel and trailing Hangul jamo, 2 for wide, fullwidth and emoji-presentation characters, and 1 otherwise.',
  ['inputs'], 'every code point',
  'Tests check a few characters; the rule interacts across five published data files and must hold at every code point.',
  ['width.cpp', 'codepoint_properties.h', 'tablegen/multistage_generator.cpp'],
  [('width query', 'width.cpp'), ('width computation', 'tablegen/multistage_generator.cpp')], AI, TR)
P('C07', 'Case mappings of every code point agree with the Unicode data',
  'For every code point the simple upper-, lower-, titlecase mapping and case folding equal UnicodeData and CaseFolding, and the full mappings equal the unconditional special-casing entry (or full folding) when there is one and the simple mapping otherwise, reporting identity exactly when nothing changes. '
  'The changes-when queries agree with the full mapping, and the cased and case-ignorable queries with their definitions.',
  ['inputs'], 'every code point, all eight mappings and six predicates',
  'Tests sample ASCII, a few Latin and Greek letters and sharp s; a wrong entry affects one code point of thousands.',
  ['case_mapping.cpp', 'case_mapping.h', 'tablegen/case_norm_generator.cpp', 'tablegen/ucd_parser.cpp'],
  [('sorted table lookup', 'case_mapping.cpp'), ('table generation', 'tablegen/case_norm_generator.cpp')], AI, TR)
P('C08', 'Case mapping of a whole text maps every character exactly once, in order',
  'For every text, converting it to upper case, lower case or its case folding gives exactly the concatenation of the full mappings of its characters in order, nothing lost, repeated or conditional on position or neighbours; '
  'title case gives, word by word as the word segmenter splits the text, the full titlecase mapping of the first cased character of each word, the lowercase mapping of the later cased ones, and everything else unchanged. '
  'The UTF-8 forms decode, convert and encode the whole text, and caseless comparison has the sign (equality: the truth) of comparing the two folded texts. No read or write is out of bounds for any text length.',
  ['inputs'], 'every text of every length, all four conversions in both encodings, both comparisons in both encodings',
  'Texts are unbounded and their characters interact through the word state; tests convert a few short strings.',
  ['case_mapping.cpp', 'case_mapping.h', 'word_segmenter.h', 'convert.h'],
  [('string conversions', 'case_mapping.cpp'), ('titlecase word loop', 'case_mapping.cpp'), ('caseless comparison', 'case_mapping.cpp')],
  'abstract interpretation of the conversion loops in lockstep with a reference transducer (loop invariants by generalisation), term comparison of the UTF-8 and comparison pipelines, per-code-point comparison of the mappings',
  'Sound for every text length: the loops are generalised until stable and the reference position is part of the invariant. std::basic_string is modelled by its contract; the word segmentation step is uninterpreted here (C02 covers it), as are the UTF-8 conversions (C11). Trusts clang 18\'s lowering, the analyser, and the published files.')
P('C09', 'Normalization data of every code point agrees with the Unicode data',
  'For every code point the combining class, canonical and compatibility decomposition mapping, decomposition type, composition-exclusion and full-composition-exclusion status and the four quick-check values equal the published data. '
  'Hangul syllable predicates, decomposition and composition follow the standard\'s arithmetic for every syllable and every (L, V, T) triple, including rejection of everything outside it.',
  ['inputs'], 'every code point; every triple of 32-bit values for Hangul composition',
  'Tests sample under a hundred characters; wrong table entries or off-by-one Hangul borders are invisible to them.',
  ['normalization.cpp', 'normalization.h', 'tablegen/case_norm_generator.cpp', 'tablegen/ucd_parser.cpp'],
  [('normalization tables', 'normalization.cpp'), ('table generation', 'tablegen/case_norm_generator.cpp')], AI, TR)

P('C10', 'Normalizing a text gives exactly the published normalization form',
  'For every text, normalize to NFD/NFKD gives the full canonical/compatibility decomposition of every character, in order, with every run of non-starters stably sorted by combining class; normalize to NFC/NFKC gives the canonical composition of that: each '
  'character not blocked from the last starter is composed with it exactly when a primary composite exists that is not excluded. The to_nfX functions are those forms and the UTF-8 forms decode, normalize and encode the whole text. '
  'No read or write is out of bounds for any text length.',
  ['inputs'], 'every text of every length, all four forms, both encodings; every code point for decomposition; every pair of code points for composition',
  'Ordering and composition interact over unboundedly long runs of marks; tests normalize a few dozen short strings.',
  ['normalization.cpp', 'normalization.h', 'convert.h'],
  [('decomposition', 'normalization.cpp'), ('canonical ordering', 'normalization.cpp'), ('canonical composition', 'normalization.cpp'), ('normalize', 'normalization.cpp')],
  'abstract interpretation in lockstep with reference algorithms (loop invariants by generalisation): per-code-point comparison of decomposition, exchange discipline of the ordering, simulation of the canonical composition algorithm, term comparison of the pipelines',
  'Sound for every text length: each helper is proven for every input by loop invariants that are generalised until stable, and normalize is shown to be their combination. std::basic_string is modelled by its contract; the UTF-8 conversions are uninterpreted here (C11). '
  'A rewrite of the algorithms beyond the shapes the invariants cover (for example a library sort) ends without an answer, not with a pass. Trusts clang 18\'s lowering, the analyser, and the published files.')
P('C11', 'UTF-8 encoding and decoding are exact for every code point and sequence',
  'Every UTF-8 encoder writes exactly the UTF-8 bytes of its argument for every code point up to U+10FFFF. Every UTF-8 decoder returns exactly the encoded code point for every well-formed sequence, consuming exactly its bytes and giving one value, at its last byte, '
  'whatever complete or rejected sequence the decoder saw before. The pull decoder gives no value for a stray continuation byte or a sequence missing a continuation byte; the stateful decoder reports a stray byte or a truncated sequence invalid once and decodes the multi-byte sequence that follows correctly.',
  ['inputs', 'histories'], 'every code point; every byte sequence built from complete, stray and truncated sequences',
  'Tests decode a few literals; the 1.1 million code points, the decoder states and the byte combinations cannot be sampled meaningfully.',
  ['utf8.h', 'utf8.cpp', 'convert.h'],
  [('stateful decoder', 'utf8.cpp'), ('encoder', 'utf8.h'), ('encoder and decoders', 'convert.h')],
  'abstract interpretation on symbolic bytes; decoded values compared as linear forms over input bits, encoders as value-set transfer functions',
  'Sound for every code point and byte value; decoder histories are one complete, stray or truncated sequence followed by one complete sequence, which reaches every decoder state. Trusts clang 18\'s lowering and the analyser.')
P('C12', 'UTF-16 and UTF-32 encoding and decoding are exact for every code point',
  'The UTF-16 encoder writes the one or two code units of every scalar value, and nothing for surrogates and values beyond U+10FFFF. The UTF-16 decoder returns exactly the encoded code point and consumes exactly its units, and gives no value for a lone low surrogate or a high surrogate not followed by a low one. '
  'UTF-32 and wide-character encoding and decoding are the identity.',
  ['inputs'], 'every 32-bit argument; every pair of 16-bit units',
  'Tests encode a few literals; range borders and bit packing errors hide at single values.',
  ['convert.h'], [('UTF-16 encoder and decoder', 'convert.h')],
  'abstract interpretation on symbolic units; decoded values compared as linear forms over input bits, encoders as value-set transfer functions',
  'Sound for every argument and unit pair. wchar_t is 32 bits wide on this platform. Trusts clang 18\'s lowering and the analyser.')
P('C22', 'No hidden shared state',
  'No library function keeps state of its own between calls: nothing with static or thread storage duration is written outside its once-only initialisation, no const operation writes to its object, and no function consults process-wide state such as the locale, the environment or the clock. '
  'So results depend on the arguments alone and calls on distinct objects may run concurrently without locks.',
  ['histories', 'schedules'], 'every library function, every call history, every interleaving of threads',
  'A data race or a stale cache needs a particular interleaving or call order; single-threaded unit tests cannot show their absence.',
  ['codepoint_properties.h', 'scan.cpp', 'convert.cpp', 'normalization.cpp', 'case_mapping.cpp', 'width.cpp', 'script_segmenter.cpp', 'emoji_segmenter.cpp', 'ucd_private.h'],
  [('dispatch initialised once', 'convert.cpp'), ('dispatch initialised once', 'scan.cpp')],
  'interprocedural write-effect analysis over the LLVM IR of the whole library and its instantiated headers',
  'Sound up to pointers hidden in integers; external functions are assumed to write through every pointer argument not marked read-only. Trusts clang 18\'s lowering and the analyser.')

P('C23', 'The segmenter iterators split every text completely, at exactly the boundaries',
  'For every text, walking over it with grapheme_segmenter or word_segmenter yields segments that are non-empty, contiguous and together are the whole text, each ending exactly where the segmentation rules, started at its first character and asked once for every following '
  'character in order with the state carried on (for words, with exactly the rest of the text to look ahead at), first report a boundary, or at the end of the text. An empty text yields one empty segment; advancing at the end stays there; '
  'codepointsAvailable and operator bool tell whether text is left, size and empty describe the current word. No character outside the text is read.',
  ['inputs', 'histories'], 'every text of every length, every pattern of boundaries in it, all constructors',
  'A segment limit, a lost look-ahead character or a state that is not carried on shows only for particular lengths and positions.',
  ['grapheme_segmenter.h', 'word_segmenter.h'],
  [('grapheme_segmenter', 'grapheme_segmenter.h'), ('word_segmenter', 'word_segmenter.h')],
  'abstract interpretation of the whole walk with loop invariants and an ordered-protocol monitor; the boundary decisions are uninterpreted (any pattern of boundaries)',
  'Sound for texts of any length and any boundary decisions; the decisions themselves are C01 and C02. Equality of segmenters is not claimed. Trusts clang 18\'s lowering and the analyser.')

P('C24', 'Width of a grapheme cluster follows the documented cluster rules',
  'For every sequence of code points, the width a fresh or reset accumulator reports after each of them is the sum of the widths of the segments by the documented rules: a ZWJ hides the next code point unless a virama came before; VS16 widens an open emoji variation base of width 1 to 2; '
  'VS15 takes one column off an open variation base recorded as 2; the second of a regional indicator pair and a skin tone after an emoji or indicator add nothing; a consonant after a virama and a spacing mark after an open base make the segment 2 wide; anything else of non-zero width opens a new segment; never less than 0. '
  'Measuring a whole cluster gives 0 for none, and otherwise what a fresh accumulator reports after its code points in order.',
  ['inputs', 'histories'], 'every finite sequence of code points of the code space, with resets anywhere in it (sums below 2^24 columns)',
  'The width depends on an unbounded history (indicator parity, pending joiners, repeated selectors); tests run fixed clusters.',
  ['width.cpp', 'width.h'], [('cluster width accumulator', 'width.cpp'), ('accumulator state', 'width.h')],
  'abstract interpretation of the accumulator step into a transfer relation (sum kept symbolic, counter reduced to parity), product automaton with the cluster rules; loop-invariant check of the whole-cluster fold',
  'Sound for every sequence: the product of the reachable accumulator states and the rules is enumerated completely over character classes that no path of the code splits. Trusts clang 18\'s lowering, the analyser, and the published files under /usr/share/unicode.')
P('C25', 'Every enumeration value is written as its own name',
  'For every value of every public enumeration (planes, ages, categories, scripts, blocks, break classes, widths, emoji segmentation categories, ...) inserting it into a stream writes exactly the name of the enumerator, and formatting it yields that same name. A value that is no enumerator is handled without reading outside any table.',
  ['inputs'], 'every enumerator of 29 enumerations, every other value of their underlying types',
  'The functions are generated for about a thousand enumerators; tests print a handful.',
  ['ucd_ostream.h', 'ucd_fmt.h', 'emoji_segmenter.h', 'tablegen/enum_generator.cpp'],
  [('stream insertion and formatter generation', 'tablegen/enum_generator.cpp'), ('emoji enumerations', 'emoji_segmenter.h')],
  'abstract interpretation of the insertion operators and formatters per enumerator; text compared with the enumerator names in the debug information (exhaustiveness and agreement of siblings)',
  'Complete over all enumerators. The formatter is followed up to the standard library\'s string formatter, which is trusted.')
P('C13', 'Quick check, normalization test and equivalence decide what they claim',
  'For every text and form, quick_check gives what the quick check algorithm of UAX #15 gives: No exactly when some character is out of canonical order or has the quick-check value No, else Maybe when some character has the value Maybe, else Yes. '
  'is_normalized (and is_nfX) is true exactly when the quick check says Yes or, where it does not decide, when the text equals its normalized form; canonical and compatibility equivalence are true exactly when the normalized texts are equal; '
  'the UTF-8 forms decide about the decoded text.',
  ['inputs'], 'every text of every length, all four forms, both encodings; every pair of texts for equivalence',
  'The order test carries state over the whole text; tests use a few short strings.',
  ['normalization.cpp', 'normalization.h', 'convert.h'],
  [('quick_check', 'normalization.cpp'), ('is_normalized', 'normalization.cpp'), ('is_canonically_equivalent', 'normalization.cpp')],
  'abstract interpretation of the quick check in lockstep with the reference algorithm (loop invariants by generalisation), term comparison of the decision functions',
  'Sound for every text length. normalize and the UTF-8 conversions are uninterpreted here (C10, C11); the per-code-point data is compared as in C09. Trusts clang 18\'s lowering, the analyser, and the published files.')
P('C15', 'The vectorised ASCII scan stops exactly where a byte-wise scan would',
  'For every text and every column limit, the scan for plain ASCII text, in each vector width (128, 256, 512 bits) and through the run-time dispatch, returns the length of the longest prefix of bytes 20..7F, cut off at the limit. It reads no byte outside the text.',
  ['inputs'], 'every text of up to 2^31 bytes, every content, every 64-bit column limit, three vector widths',
  'A stop byte can sit in any lane of any vector of any iteration or in the tail; the test machine runs only one of the three widths.',
  ['scan.cpp', 'scan256.cpp', 'scan512.cpp', 'scan_simd_impl.h', 'intrinsics.h'],
  [('vector scan loop', 'scan_simd_impl.h'), ('dispatch', 'scan.cpp')],
  'abstract interpretation with loop invariants over a text of unknown length: at every loop arrival and return each skipped byte must be known to be printable ASCII, and the stopping byte not',
  'Sound for texts up to 2^31 bytes of any content. The vector intrinsics are followed as clang lowers them (compares, lane extraction, mask bits). Trusts clang 18\'s lowering and the analyser.')
P('C16', 'Vector code runs only where processor and system support it',
  'The detected vector width is 256 only if OSXSAVE, AVX, AVX2 and the enabled XMM and YMM state are all present, and 512 only if in addition AVX-512F, AVX-512BW and the enabled opmask and ZMM states are; extended-state queries run only where they are available, and feature leaf 7 counts only where it exists. '
  'Each dispatcher runs exactly one implementation with the caller\'s arguments and result, a wide one only when the detected width is at least as large, and nothing else in the library enters code compiled for a wider unit.',
  ['inputs'], 'every combination of processor identification bits and enabled state bits; every call site in the library',
  'The test machine shows one combination of feature bits; a wrong mask crashes only on other machines.',
  ['simd_detector.cpp', 'scan.cpp', 'convert.cpp', 'scan256.cpp', 'scan512.cpp', 'convert256.cpp', 'convert512.cpp'],
  [('width detection', 'simd_detector.cpp'), ('dispatch', 'convert.cpp'), ('dispatch', 'scan.cpp')],
  'abstract interpretation of the detection over symbolic identification bits; dispatch paths and call-site query over the whole program; per-function target features',
  'Complete over all bit combinations. SSE4.1, which the 128-bit path of the conversion is compiled for, is a build requirement of the library and not detected.')
P('C26', 'Normalizing a stream piece by piece gives the normalization of the whole',
  'For every form and every sequence of feed calls followed by flush, the concatenated results are the normalization of the concatenated input: output is only given up to a character before which a text can be cut without changing its normalization, '
  'and the pending text is neither lost nor repeated. Output is given at every starter whose quick-check value is Yes. After flush or reset the normalizer behaves as newly constructed. The UTF-8 normalizer passes every byte to the decoder, every decoded '
  'character (U+FFFD for a rejected sequence) to the normalizer and every segment, encoded, to its output, once and in order, however the bytes are split into chunks. Returned views stay valid as long as the object is not used.',
  ['histories', 'inputs'], 'every history of calls, all four forms, every code point at every state, chunks of every length',
  'Tests feed a few short texts character by character; a wrong boundary shows only for particular neighbours and a lost segment only for particular splits.',
  ['normalization.cpp', 'normalization.h'],
  [('boundary test', 'normalization.cpp'), ('normalizer::feed', 'normalization.cpp'), ('utf8_normalizer::feed', 'normalization.cpp')],
  'inductive typestate of the normalizer object over an arbitrary pending text (abstract interpretation with uninterpreted normalization), exhaustive comparison of the cut characters with the computed safe set, ordered-protocol monitor over the UTF-8 loop',
  'Sound for every history: each call is analysed from every reachable object state. normalize is uninterpreted here (C10), and so are the UTF-8 decoder and encoder (C11); that cutting at a safe character does not change the normalization is a theorem of the standard, '
  'whose premises are computed from the data. An incomplete sequence pending in the decoder at flush is left open. Trusts clang 18\'s lowering, the analyser, and the published files.')

P('C21', 'The C interface counts, measures and converts text as the C++ library does',
  'u32_gc_count is the number of grapheme clusters of the text (0 for an empty one); u32_gc_width is the sum over all clusters, each exactly once, of the width of the first character in the non-modifiable mode and of the cluster width in any other; '
  'the UTF-8 forms give the same for the decoded text; u32_grapheme_unbreakable(a, b) is true exactly when no cluster boundary lies between a and b. '
  'u32u8_convert writes exactly the encoded characters in order and returns how many bytes, or -1 exactly when they do not fit, and never writes beyond the given size. '
  'The stream converter gives for every byte what its decoder gives, leaves the output alone where there is none, starts fresh when created, and is freed exactly once.',
  ['inputs', 'histories'], 'every text of up to 2^28 characters and every content, every destination size, every boundary pattern, every converter state',
  'A cluster skipped, measured twice or cut off shows only for particular boundary patterns; a buffer overrun only where the last characters do not fit; the tests call each function a few times.',
  ['capi.cpp', 'capi.h'], [('u32_gc_width', 'capi.cpp'), ('u32u8_convert', 'capi.cpp'), ('u8u32_stream_convert_run', 'capi.cpp')],
  'abstract interpretation with loop invariants and an ordered-protocol monitor with ghost counters; boundary decisions, widths and the encoder uninterpreted',
  'Sound for texts of up to 2^28 characters. The boundary decisions, widths and codecs themselves are C01, C03, C11 and C24. Trusts clang 18\'s lowering and the analyser.')

P('C14', 'Bulk conversion between encodings converts the whole text, unit by unit',
  'The vectorised conversions from UTF-8, in every vector width, store exactly the characters that decoding the bytes one after the other gives, in order, as many as they return, reading only the text and writing at most one unit per byte of it. '
  'The generic conversions between all encodings hand every decoded character to the encoder, in order, and end exactly at the end of the text; their decoders read nothing behind the end, and a sequence cut off there gives no character. '
  'The string forms give exactly the units written; converting one character converts the text of that character; equal encodings are copied unchanged.',
  ['inputs'], 'every text of every length and content (up to 2^30 units), three vector widths, all pairs of four encodings',
  'A block of plain ASCII may end at any offset, a sequence may straddle a vector or the end of the text; the test machine runs one of the widths.',
  ['convert.h', 'convert.cpp', 'convert_simd_impl.h', 'convert256.cpp', 'convert512.cpp', 'intrinsics.h'],
  [('convert_utf8_to_utf32_simd', 'convert_simd_impl.h'), ('convert_utf8_to_utf16_simd', 'convert_simd_impl.h'), ('convert_to', 'convert.h')],
  'abstract interpretation with loop invariants and an ordered-output monitor with ghost counters; decoder and encoder uninterpreted, their contracts checked separately',
  'Sound for every text; the decoders and encoders themselves are C11 and C12. The vector intrinsics are followed as clang lowers them. Trusts clang 18\'s lowering and the analyser.')

P('C18', 'Emoji segmentation yields the maximal runs of one presentation, in order',
  'The segments the emoji segmenter reports are non-empty, follow each other without a gap and together cover the text; each is a maximal run of scanner tokens of one presentation, its reported end, presentation, isEmoji, isText and substr agree, and after the last one there is none. '
  'A token is what the published grammar of the scanner gives at that place: the longest match of an emoji presentation sequence (emoji with default emoji presentation, flag, keycap, modifier, ZWJ or tag sequence) or, failing that, of a text sequence, for every sequence of segmentation categories.',
  ['inputs'], 'every text of every length; every sequence of the 17 segmentation categories',
  'The scanner backtracks out of unfinished sequences of any length, and the segmenter scans one token ahead, so a fault shows only for particular neighbours.',
  ['emoji_segmenter.cpp', 'emoji_segmenter.h', 'emoji_presentation_scanner.c'],
  [('emoji_segmenter::consume', 'emoji_segmenter.cpp'), ('scan_emoji_presentation', 'emoji_presentation_scanner.c')],
  'abstract interpretation of the scanner in lockstep with the longest-match automaton of the grammar, and of the segmenter over arbitrary token sequences; states canonicalised relative to named positions until closure',
  'Sound for every text: both explorations close. The category of a code point is C08/C09. The grammar is the one published with the scanner (emoji_presentation_scanner.rl), restated in the check. Trusts clang 18\'s lowering and the analyser.')

P('C19', 'A script run ends exactly where its characters stop sharing a script',
  'The runs of the script segmenter are non-empty, follow each other without a gap and together cover the text; the size reported with a run is the offset of its end. A run ends in front of a character exactly when no script is left that it and all characters of the run so far share, '
  'where a character belongs to its script extensions and its script, and characters that are only Common or Inherited join any run. The script reported is one that all characters of the run share - Common or Inherited only if there is no other, '
  'and the own script of a character if that is among its extensions and still shared. After the last run there is none.',
  ['inputs'], 'every text of every length; every script and script extension list of the data, in every order',
  'The set of shared scripts shrinks over the whole run, so a wrong intersection shows only for particular sequences of characters with overlapping extension lists; tests have a dozen texts.',
  ['script_segmenter.cpp', 'script_segmenter.h', 'support.h'],
  [('script_segmenter::consume', 'script_segmenter.cpp'), ('script_segmenter::mergeSets', 'script_segmenter.cpp')],
  'abstract interpretation of the segmenter in lockstep with the set of shared scripts, one case per class of character (script and extension list; unlisted scripts symbolic); states canonicalised relative to the position until closure',
  'Complete for every text: the exploration closes. Three further entry points are walked with a part of the extension lists. script and script_extensions are C04; the classes come from the published files. Trusts clang 18\'s lowering and the analyser.')

P('C20', 'A run lies in one segment of each segmenter and carries their properties',
  'The runs of the run segmenter are non-empty, follow each other without a gap and together cover the text. Each ends where the first of the script segment and the presentation segment it lies in ends, and carries the script and the presentation of those two segments. '
  'No segment of either segmenter is skipped, both are set up for the whole text, finished is true exactly at the end of the text, and after it there is no run.',
  ['inputs'], 'every text of every length; every pair of sequences of segments of the two segmenters',
  'Segments of the two kinds may end together, inside each other or one after the other many times; tests have a few texts.',
  ['run_segmenter.h'],
  [('basic_run_segmenter::consume', 'run_segmenter.h')],
  'abstract interpretation of the walk over a text of unknown length with both segmenters replaced by arbitrary sequences of segments; states canonicalised relative to the ends of the segments until closure',
  'Complete for every text and every behaviour of the two segmenters that yields contiguous segments (C18, C19). Trusts clang 18\'s lowering and the analyser.')

P('C27', 'The UTF-8 grapheme segmenter gives the clusters of the decoded text',
  'Walking with utf8_grapheme_segmenter over any byte text, with prefix or postfix increment, decodes every byte once and in order and hands out the decoded characters, each exactly once and in order, with U+FFFD for every sequence the decoder rejects and for bytes at the end that do not make a whole character. '
  'Each cluster is non-empty and ends exactly where the cluster rules, started with its first character and asked once for every following one with the state carried on, report a boundary, or at the end of the text. '
  'The walk ends when all text is handed out, not earlier; advancing there changes nothing. No byte outside the text is read.',
  ['inputs', 'histories'], 'every byte text of every length, every result of decoder and rules',
  'The iterator decodes one character ahead; what is lost or doubled by that shows only for particular byte sequences at particular places, such as the end of the text.',
  ['utf8_grapheme_segmenter.h'],
  [('iterator', 'utf8_grapheme_segmenter.h')],
  'abstract interpretation of the whole walk to a fixpoint of finitely many abstract states, with an ordered-protocol monitor; decoder and rules are uninterpreted (any results)',
  'Sound for texts of any length. The decoder itself is C11, the rules are C01. Trusts clang 18\'s lowering and the analyser; std::u32string operations are modelled.')
