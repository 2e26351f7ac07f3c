#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, quant, why, files, mech, note, over=('inputs',)):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note))


S = 'src/soundex.rs'
prop('S01', 'Soundex codes conform to the algorithm',
     'For every text, the Soundex encoder (default and genealogy mapping) keeps the letters only, in upper case, and gives the first letter followed by the digits of the following letters, '
     'always four characters padded with 0, or an empty code when there is no letter. Neighbouring letters with the same digit count once, also across H and W (default mapping) or across silent letters (genealogy mapping), while a vowel of the default mapping separates them. '
     'Letters outside A-Z have no digit and count as silent.',
     'every text: any letters, signs, Unicode characters, any length', 'The result depends on every combination of neighbouring letters and of the letters between equal digits; tests sample some names.',
     [S, 'src/lib.rs'], [('letter filter', 'src/lib.rs soundex_clean'), ('code loop', S + ' Soundex::encode'), ('mapping lookup', S + ' get_mapping_code')],
     'all texts of the templates s01_* (up to 8 fully symbolic letters, 3 symbolic ASCII characters, any character of 62 Unicode blocks, long literal parts around symbolic ones)')
prop('S02', 'Soundex honours custom mappings and the special treatment of H and W',
     'For every mapping of 26 symbols and either choice for H and W, the Soundex encoder applies the algorithm to that mapping, a dash marking silent letters. '
     'A mapping given as an array or text treats H and W specially exactly when it has no silent letter. '
     'A text that does not have exactly 26 characters is refused, with its characters as the error.',
     'every mapping, every choice for H and W, every text to encode', 'Tests use the two built-in mappings and a couple of others.',
     [S], [('explicit constructor', S + ' Soundex::new'), ('array and text constructors', S + ' From, TryFrom, FromStr')],
     'five of the 26 symbols symbolic over 8 values, mapping texts of 11 lengths with three symbolic characters, words of up to 5 letters', ('inputs', 'configurations'))
R = 'src/refined_soundex.rs'
prop('S03', 'Refined Soundex codes conform to the algorithm',
     'For every text and every mapping of 26 symbols, the refined Soundex code is the first letter in upper case followed by the symbols of all letters, the first one included, where neighbouring letters with the same symbol give it once; it has no length limit and is empty when there is no letter. '
     'A letter outside A-Z gives nothing and separates its neighbours. A mapping text that does not have exactly 26 characters is refused, with its characters as the error.',
     'every text, every mapping', 'As for Soundex: the combinations of neighbours are not enumerable by tests.',
     [R, 'src/lib.rs'], [('code loop', R + ' RefinedSoundex::encode'), ('constructors', R + ' new, TryFrom, FromStr')],
     'templates s03_*: up to 8 symbolic letters, 62 Unicode blocks, mappings with five symbolic symbols', ('inputs', 'configurations'))
prop('S04', 'The difference of two texts counts the agreeing code positions',
     'For every two texts, the Soundex (and refined Soundex) difference is the number of positions at which their two codes have the same character, and 0 when either code is empty. '
     'It does not depend on the order of the two texts, and is at most 4 for Soundex.',
     'every pair of texts', 'It is a relation over pairs of arbitrary texts.', ['src/lib.rs'], [('difference', 'src/lib.rs SoundexCommons::difference')],
     'pairs of templates s04_*: up to 4 symbolic letters each, Unicode characters, long literal parts')
C = 'src/cologne.rs'
prop('C01', 'Cologne phonetic codes conform to the algorithm',
     'For every text, the Cologne encoder transcribes umlauts, ignores what is not a letter A-Z, gives each letter the digit that the documented table prescribes for it and its neighbours (such as C before and after certain letters, D and T before C, S or Z, P before H, X after C, K or Q), '
     'then drops neighbouring equal digits and every 0 except at the start.',
     'every text', 'Codes depend on the neighbours of each letter and on what came before.', [C], [('letter rules', C + ' Cologne::encode'), ('digit collapsing', C + ' CologneOutput::push')],
     'templates c01_*: up to 5 fully symbolic letters (quick), 7 (thorough), 3 symbolic ASCII characters, Unicode blocks, contexts')
K = 'src/caverphone.rs'
for id, n, w in (('K01', 1, 'six'), ('K02', 2, 'ten')):
    prop(id, f'Caverphone {n}.0 codes conform to the algorithm',
         f'For every text, the Caverphone {n}.0 encoder lower-cases it, removes everything except a-z and applies the substitutions of the published algorithm in their order '
         f'(special starts and ends, consonant groups, vowels to 3 or A, runs of the same consonant, W, H, R, L, Y). The code always has exactly {w} characters, padded with 1.',
         'every text', 'Dozens of ordered substitutions interact with each other; tests sample words.', [K, 'src/helper.rs'],
         [('substitutions', f'{K} Caverphone{n}::encode'), ('helpers', 'src/helper.rs replace_end, replace_compact_all_to_uppercase, remove_all_non_letter')],
         f'templates {id.lower()}_*: 4 (thorough 5) fully symbolic letters, symbolic letters around each special group, ASCII and Unicode characters, long words')
N = 'src/nysiis.rs'
prop('N01', 'NYSIIS codes conform to the algorithm',
     'For every text, the NYSIIS encoder keeps the letters in upper case and applies the published steps: replacement of the special starts and ends, the first letter kept, the replacement rules for each further letter with its neighbours, no immediate repetitions, '
     'and the removal of a final S, of the A in a final AY and of a final A. Without the strict option the code is not limited in length.',
     'every text, strict or not', 'Steps rewrite the word that later steps look at, tests sample names.', [N, 'src/lib.rs'], [('starts and ends', N + ' Nysiis::encode'), ('letter rules', N + ' Nysiis::transcode')],
     'templates n01_*: 5 (thorough 6) fully symbolic letters, 3 symbolic ASCII characters, Unicode blocks, every special start and end with symbolic neighbours', ('inputs', 'configurations'))
prop('N02', 'Strict NYSIIS is the start of the unrestricted code',
     'For every text, the code with the strict option is the first six characters of the code without it, or the whole of it when it is shorter.',
     'every text', 'A relation between two configurations over all texts.', [N], [('truncation', N + ' Nysiis::encode')], 'templates n02_*: up to 4 symbolic letters, Unicode characters, codes of more than six characters', ('inputs', 'configurations'))
X = 'src/phonex.rs'
prop('P01', 'Phonex codes conform to the algorithm',
     'For every text, the Phonex encoder keeps the letters in upper case, removes every trailing S and a leading H, replaces the special starts, keeps the first letter and codes the others as documented (D and T before C, L and R before vowels or at the end, M and N swallowing D or G), without repetitions. '
     'The default code always has exactly four characters, padded with 0.',
     'every text', 'Codes depend on neighbours, position and what was put out before.', [X, 'src/lib.rs'], [('starts and ends', X + ' preprocess'), ('letter codes', X + ' transcode'), ('code loop', X + ' Phonex::encode')],
     'templates p01_*: 6 (thorough 8) fully symbolic letters, 3 symbolic ASCII characters, Unicode blocks, special starts and ends')
prop('P02', 'Phonex codes have exactly the requested length',
     'For every requested length, also 0 and lengths longer than the word, and every text, the Phonex code has exactly that number of characters, and they are those of the algorithm, padded with 0.',
     'every length and text', 'A relation over all lengths and texts.', [X], [('length limit and padding', X + ' Phonex::encode')], 'lengths 0 to 9, 15, 40, 255, 256, 300 with templates p02_* of up to 5 symbolic letters', ('inputs', 'configurations'))
M = 'src/metaphone.rs'
prop('M01', 'Metaphone codes conform to the algorithm',
     'For every text, the Metaphone encoder upper-cases it, treats the initial exceptions (KN, GN, PN, AE, WR, WH, X), skips repeated letters except C, keeps a vowel only at the start, and codes each consonant by its documented context. '
     'A text of one character is its own upper case; the default code has at most four characters.',
     'every text', 'Rules look up to three letters around, tests sample words.', [M], [('initial exceptions and letter rules', M + ' Metaphone::encode'), ('context tests', M + ' region_match, is_vowel, is_last_char')],
     'templates m01_*: 4 (thorough 5) fully symbolic letters, contexts of each rule with symbolic neighbours, ASCII and Unicode characters')
prop('M02', 'A Metaphone length limit only truncates',
     'For every text of other than one character and every maximum length, the limited Metaphone code is the start of the unlimited code, cut at the maximum.',
     'every text and maximum length', 'A relation between configurations over all texts.', [M], [('length limit', M + ' Metaphone::encode')], 'maximum 0 to 9, 11, 12, 1000 and up to the largest number, templates m02_*: up to 4 symbolic letters, long words, Unicode characters', ('inputs', 'configurations'))
D = 'src/double_metaphone.rs'
prop('D01', 'Double Metaphone codes conform to the algorithm',
     'For every text, the primary and the alternate Double Metaphone code are those of the published algorithm (as in Apache commons-codec): the text is trimmed and upper-cased, silent starts are skipped, vowels count only at the start, and every consonant is coded by its context, including the Slavo-Germanic, Italian, Spanish, French and Greek special cases.',
     'every text', 'About a hundred context rules over up to seven letters around; tests sample words.', [D], [('dispatch', D + ' double_metaphone'), ('letter handlers', D + ' handle_*'), ('context tests', D + ' contains, condition_*')],
     'templates d01_*: 4 (thorough 5) fully symbolic letters, more than 200 contexts with symbolic neighbours, ASCII and Unicode characters')
prop('D02', 'Double Metaphone limits only truncate, and its functions agree',
     'For every text and maximum length, the limited primary and alternate codes are the unlimited ones cut at the maximum. '
     'The plain code is the primary one, the alternate code is the alternate one, and two texts are reported equal, for the primary or the alternate code, exactly when these codes are equal.',
     'every text, pair of texts and maximum length', 'A relation over configurations and pairs of texts.', [D], [('appending with a limit', D + ' append_char, append_str'), ('equality', D + ' is_double_metaphone_equal')],
     'maximum 0 to 7, 11, 12, 1000 and up to the largest number, templates d02_*', ('inputs', 'configurations'))
A = 'src/match_rating_approach.rs'
prop('R01', 'Match rating codes conform to the algorithm',
     'For every text, the match rating code is empty when the trimmed text has fewer than two characters; otherwise the text is upper-cased, whitespace and the signs - & \' . and , are removed, accented letters lose their accent, vowels go except at the start, doubled consonants become single, '
     'and only the first three and last three characters stay when there are more than six.',
     'every text', 'Steps interact over all combinations of letters.', [A], [('cleaning', A + ' clean_name, remove_accent'), ('reduction', A + ' remove_vowels, remove_double_consonants, get_first3_last3')],
     'templates r01_*: up to 5 symbolic letters, longer words over few letters, ASCII and Unicode characters')
prop('R02', 'Match rating comparison follows the rating rules',
     'For every two texts, the comparison is false when either has fewer than two characters after trimming or an empty code, true when both are equal, and false when the lengths of the codes differ by three or more. '
     'Otherwise matching characters are removed from left to right and from right to left, and the texts match when the rating, 6 minus the larger number of unmatched characters, reaches the minimum for the sum of the lengths of both codes. '
     'It does not depend on the order of the two texts.',
     'every pair of texts', 'A relation over pairs of texts with several thresholds.', [A], [('comparison', A + ' is_encoded_equals'), ('rating', A + ' left_to_right_then_right_to_left_processing, get_minimum_rating')],
     'pairs of templates r02_*: up to 3 symbolic letters each, all combinations of lengths over three letters')

exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None

with open(f'{V}/properties.jsonl', 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
TECH = ('symbolic execution of the optimised LLVM bitcode of the real code (own executor, Z3) on symbolic texts against an executable specification, '
        'every counterexample replayed natively')
m = dict(version=1, setup_cmd='python3 check.py --build', checks=[
    dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough", technique=TECH,
         level='model_checking', level_note='Bounds: ' + note + '. Outside: longer fully symbolic texts, other characters.') for p, note in P],
    not_applicable=[dict(property=i, reason=r) for i, r in NA])
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(f'{V}/MANIFEST.json', 'a').write('\n')
