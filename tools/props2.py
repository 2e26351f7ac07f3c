X = 'src/daitch_mokotoff.rs'
RP = 'src/rules_parser.rs'
prop('X01', 'Daitch-Mokotoff codes conform to the rules',
     'For every text, the Daitch-Mokotoff encoder ignores whitespace, lower-cases each character and, with folding, replaces accented letters as the rules say. From left to right it takes the longest pattern of the rules that is there, and the code for the start, before a vowel, or otherwise. '
     'A code that the preceding one ends with is not repeated, except between M and N. Every alternative of a code opens a branch, and equal branches are one. Each resulting code has six digits, padded with 0; encode gives the codes of the first alternatives, soundex all codes joined with |.',
     'every text', 'The longest pattern, the context and the branches interact over all neighbourhoods; tests sample names.', [X, 'rules/dmrules.txt'],
     [('rule selection and branching', X + ' inner_soundex'), ('branches', X + ' Branch::process_next_replacement, finish'), ('rules', 'rules/dmrules.txt')],
     'templates x01_*: up to 4 symbolic letters (thorough more), pairs of all rule patterns, characters of 62 Unicode blocks')
prop('X02', 'Daitch-Mokotoff branches are consistent',
     'For every text, all codes have exactly six digits, no code appears twice, the code without branching is the first of the codes with branching, and encode and soundex agree with the inner functions that list the codes.',
     'every text', 'A relation between results over all texts.', [X], [('duplicates', X + ' inner_soundex'), ('public functions', X + ' encode, soundex')], 'templates x02_*: up to 4 symbolic letters, patterns with several alternatives')
prop('X03', 'ASCII folding only replaces characters',
     'For every text, the code with folding is the code without folding of the text in which every character is replaced as the folding rules say; without folding nothing is replaced.',
     'every text', 'A relation between two configurations.', [X], [('folding', X + ' cleanup'), ('option', X + ' DaitchMokotoffSoundexBuilder::ascii_folding')], 'templates x03_*', ('inputs', 'configurations'))
prop('X04', 'Custom Daitch-Mokotoff rules are honoured',
     'For every well-formed text of rules (quadruplets, folding lines, comments of one or several lines, empty lines), the encoder built from it encodes according to these rules: the longest pattern first, the first of equal ones, the last folding line of a character.',
     'every well-formed rule text and every text', 'Rules are user input; tests use the shipped file.', [X, RP], [('parsing', X + ' parse_rules'), ('line parsers', RP), ('ordering', X + ' DaitchMokotoffSoundexBuilder::build')],
     'rule texts of the templates x04_* with symbolic characters in patterns, codes, folding lines, comments and separators', ('inputs', 'configurations'))
prop('X05', 'Malformed Daitch-Mokotoff rules are reported with their line',
     'For every text of rules with a malformed line, building the encoder fails with the number (from 1) and the content of the first such line, whatever comments and line ends precede it; it never panics, and well-formed rules are accepted.',
     'every rule text', 'Errors depend on everything before the line.', [X, RP], [('error position', X + ' parse_rules'), ('line parsers', RP + ' end_of_line, multiline_comment, quadruplet, folding')], 'rule texts of the templates x05_* with symbolic characters anywhere')
B = 'src/beider_morse/engine.rs'
BR = 'src/beider_morse/rule.rs'
prop('B01', 'Beider-Morse codes conform to the embedded rules',
     'For every text, kind of names and kind of rules, the Beider-Morse code is what the embedded rules give: at each place the first rule whose pattern is there and whose left and right contexts hold multiplies the phonemes, restricted to common languages, at most twenty of them; '
     'a character without a rule is dropped. Then the common and the language-specific final rules rewrite every phoneme, keeping characters without a rule; equal phonemes are one, for the languages of both. The phonemes are sorted and joined with |.',
     'every text, kind of names, exact or approximate', 'Hundreds of context rules multiply into many phonemes; tests sample names.', [B, BR, 'src/beider_morse/regex_optim.rs', 'rules/bm'],
     [('rule application', B + ' RulesApplication::invoke, PhonemeBuilder::apply'), ('final rules', B + ' apply_final_rule'), ('rules', BR + ' pattern_and_context_matches, parse_rule')],
     'all kinds of names and rules with templates b01_*: up to 3 symbolic letters (thorough 4), every rule pattern with a symbolic letter before or after it (thorough two), ASCII and Unicode characters', ('inputs', 'configurations'))
prop('B02', 'Sets of languages behave as sets',
     'For every two sets of languages, restriction is the intersection and merging the union, where any language is neutral for the restriction and absorbs in the union. '
     'Emptiness, having a single language, the first language in alphabetical order and the printed form agree with the set, however it was built, also from a list with duplicates.',
     'every pair of sets', 'Algebraic laws over all sets.', ['src/beider_morse/languages.rs'], [('set operations', 'src/beider_morse/languages.rs LanguageSet')], 'all pairs of subsets of four languages, the empty set and any language, built in three ways')
prop('B03', 'Beider-Morse guesses the languages by the rules',
     'For every text, encoding with a configuration of several languages uses the languages that remain after every guessing rule whose pattern is in the lower-cased text kept only its languages, or removed them; any language when none remains. A single remaining language selects its own rules, otherwise those for any language apply.',
     'every text', 'Guesses depend on the whole text.', ['src/beider_morse/lang.rs', B], [('guess', 'src/beider_morse/lang.rs guess_languages'), ('choice of rules', B + ' encode_with_language_set')],
     'all rules of commons-codec (20 languages), read from files, templates b03_*: up to 2 symbolic letters (thorough 3), every guessing pattern with a symbolic letter before or after it')
prop('B04', 'Beider-Morse treats words, prefixes and limits as documented',
     'For every text, hyphens separate words like spaces and blanks around the text do not count. A generic name with a name prefix (or d\') gives the codes without and with it, as (a)-(b); '
     'Ashkenazi and Sephardic prefixes that are words of their own are dropped, Sephardic words start after their last apostrophe. With concatenation all words give one code, without it each has its own, joined with -. The maximum limits the phonemes kept after each rule, the first ones staying.',
     'every text, kind of names, concatenation and maximum', 'Combinations of options and word separators.', [B, 'src/beider_morse/mod.rs'], [('words and prefixes', B + ' encode_with_language_set'), ('limit', B + ' PhonemeBuilder::apply'), ('options', 'src/beider_morse/mod.rs BeiderMorseBuilder')],
     'templates b04_*: all prefixes in several positions with symbolic letters around, maximum 0, 1, 2, 3, 5, 20, 64, 1000 and the largest number', ('inputs', 'configurations'))
prop('B05', 'Malformed Beider-Morse configurations are refused with the line',
     'For every configuration directory, a missing file, a malformed line, a phoneme or a context that cannot be read gives an error and never a panic. A malformed line is named by its file, its number (from 1) and its content, also when it is in an included file; well-formed configurations are accepted, whatever other files the directory has. Includes are not circular.',
     'every content of the configuration files', 'Errors depend on everything before the line; configurations are user input.', ['src/beider_morse/mod.rs', BR, 'src/beider_morse/lang.rs', 'src/beider_morse/languages.rs', RP],
     [('rule files', BR + ' parse_rule, parse_phoneme_expr'), ('guessing rules', 'src/beider_morse/lang.rs parse_lang'), ('lists of languages', 'src/beider_morse/languages.rs parse_liste'), ('line parsers', RP)],
     'small configurations with one file of symbolic content (templates b05_*), every single file missing, further files of many names', ('inputs', 'configurations'))
prop('B06', 'Given languages replace the guess',
     'For every text and set of languages of the configuration, encoding with given languages uses them instead of a guess: the rules of the single language, or those for any language restricted to the given ones.',
     'every text and set of languages', 'A relation over all texts and sets.', ['src/beider_morse/mod.rs', B], [('given languages', 'src/beider_morse/mod.rs encode_with_languages'), ('restriction', B + ' PhonemeBuilder::apply')],
     'every language of every kind of names with all patterns of its rules and a symbolic letter, several sets of languages with templates b06_*', ('inputs', 'configurations'))
prop('B07', 'Custom Beider-Morse rules are honoured',
     'For every well-formed configuration, encoding follows its rules: contexts (literal texts, single classes, general regular expressions, anchors), the order of the rules, alternatives, empty and language-restricted phonemes, included files, which replace the rules for the same first character, and guessing rules.',
     'every well-formed configuration and every text', 'Contexts are compiled to specialised matchers; the shipped rules use some of their forms.', [BR, 'src/beider_morse/regex_optim.rs', 'src/beider_morse/lang.rs', B],
     [('specialised matchers', 'src/beider_morse/regex_optim.rs OptimizedRegex'), ('phonemes', BR + ' parse_phoneme_expr'), ('includes', BR + ' parse_rule')],
     'small configurations whose rules have symbolic patterns, contexts and phonemes (templates b07_*), words of up to 3 symbolic letters', ('inputs', 'configurations'))
prop('L01', 'Character slices are those characters',
     'For every text and every range of any form and bounds, a CharSequence gives exactly the characters of the range as far as they exist, an empty text beyond the end, and its length, emptiness and text agree with the text it was made from; no range panics.',
     'every text and range', 'All ranges over texts with characters of one to four bytes.', ['src/helper.rs'], [('ranges', 'src/helper.rs CharSequence index')], 'texts of the templates l01_* with symbolic ASCII characters and characters of up to four bytes, bounds 0 to 7, 100 and the two largest numbers, six forms of ranges')
prop('E01', 'Texts are equal exactly when their codes are',
     'For every encoder other than match rating and every two texts, is_encoded_equals is true exactly when both codes are the same.',
     'every pair of texts', 'A relation over pairs.', ['src/lib.rs'], [('comparison', 'src/lib.rs Encoder::is_encoded_equals')], 'pairs of templates e01_* for 13 encoder configurations')
prop('I01', 'The case of ASCII letters, and signs between them, do not count',
     'For every encoder, a text, its upper and its lower case (ASCII letters) have the same code. For the encoders that look at letters only (Soundex, refined Soundex, Caverphone, NYSIIS, Phonex), spaces, hyphens, apostrophes, digits and other signs between letters change nothing.',
     'every text', 'A relation between results over all texts.', ['src'], [('normalisation', 'src/*.rs encode')], 'templates i01_*: up to 3 symbolic letters in either case, symbolic signs between letters')
prop('T01', 'Every encoder accepts every text',
     'For every text with any Unicode characters, every encoder returns a code without panicking, and returns always the same.',
     'every text', 'There are more than a million characters, in any position and combination.', ['src'], [('character handling', 'src/*.rs encode')], 'every Unicode character alone (all 17,376 blocks of 64, symbolic within the block), in several contexts the first 12,800 (thorough: all), with 14 encoder configurations')
prop('Y01', 'A code depends on the text only',
     'For every encoder and every two texts, encoding one after the other on the same encoder gives the same codes as before: nothing is remembered.',
     'every sequence of texts', 'Depends on what was encoded before.', ['src'], [('encoders have no state', 'src/*.rs encode')], 'sequences x, y, x, y of the templates y01_* for 14 encoder configurations', ('inputs', 'histories'))
prop('V01', 'Saved, loaded and copied values stay what they are',
     'Every value that can be saved with serde (the encoders Soundex, refined Soundex, Caverphone, Cologne, NYSIIS, Phonex, Metaphone, Double Metaphone and match rating, Double Metaphone results, character sequences, '
     'sets of languages, parse errors, types of names and of rules), saved by field name or by position and loaded again, equals the original and behaves like it: a loaded or copied encoder gives the same code for every text. '
     'Two encoders of one kind are equal exactly when their settings are; equality, order and hash of values agree. A parse error prints its file (or Unknown), line number, description and line. A type of names is written, saved by name and parsed as ash, gen or sep, and nothing else is parsed; it is found by the name of its list of languages.',
     'every value: mapping, limit, option, text, error, set; every format with names or positions', 'Relation between every setting of an encoder, its stored form and all texts it encodes; the tests of the crate never store a value.',
     ['src/soundex.rs', 'src/refined_soundex.rs', 'src/metaphone.rs', 'src/double_metaphone.rs', 'src/phonex.rs', 'src/nysiis.rs', 'src/helper.rs', 'src/lib.rs', 'src/beider_morse/mod.rs', 'src/beider_morse/languages.rs'],
     [('stored form', 'derive(Serialize, Deserialize) of the public types'), ('equality', 'derive(PartialEq) of the public types'), ('names of types', 'src/beider_morse/mod.rs NameType Display, FromStr, TryFrom')],
     'mappings with up to two symbolic symbols (thorough three), 12 limits up to the largest number, texts of templates v01_* (up to 4 symbolic letters), one format with field names and one with positions', ('inputs', 'configurations'))
