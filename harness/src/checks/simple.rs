//! Cologne, Caverphone, Nysiis, Phonex, Metaphone, match rating.
use crate::refs::*;
use crate::sym::*;
use rphonetic::*;

fn cologne(ts: &[&str]) {
    cologne_in(one_of(ts))
}
fn cologne_in(i: In) {
    same(&Cologne.encode(&i.s), &cologne::cologne(&i.s));
}
fn caver1(ts: &[&str]) {
    caver1_in(one_of(ts))
}
fn caver1_in(i: In) {
    same(&Caverphone1.encode(&i.s), &caverphone::one(&i.s));
}
fn caver2(ts: &[&str]) {
    caver2_in(one_of(ts))
}
fn caver2_in(i: In) {
    same(&Caverphone2.encode(&i.s), &caverphone::two(&i.s));
}
fn nysiis(ts: &[&str]) {
    nysiis_in(one_of(ts))
}
fn nysiis_in(i: In) {
    let strict = fork(2) == 1;
    let e = if strict { Nysiis::default() } else { Nysiis::new(false) };
    note!("strict", strict);
    same(&e.encode(&i.s), &nysiis::nysiis(&i.c, strict));
}
fn nysiis_strict(ts: &[&str]) {
    nysiis_strict_of(one_of(ts))
}
fn nysiis_strict_of(i: In) {
    let full = Nysiis::new(false).encode(&i.s);
    let six: String = full.chars().take(6).collect();
    same(&Nysiis::new(true).encode(&i.s), &six);
}
fn phonex(max: usize, ts: &[&str]) {
    phonex_in(max, one_of(ts))
}
fn phonex_in(max: usize, i: In) {
    let e = if max == 4 { Phonex::default() } else { Phonex::new(max) };
    same(&e.encode(&i.s), &phonex::phonex(&i.c, max));
}
fn metaphone(max: Option<usize>, ts: &[&str]) {
    metaphone_in(max, one_of(ts))
}
fn metaphone_in(max: Option<usize>, i: In) {
    let e = if max == Some(4) { Metaphone::default() } else { Metaphone::new(max) };
    same(&e.encode(&i.s), &metaphone::metaphone(&i.c, max));
}
/// A limited code is the beginning of the whole code.
fn metaphone_prefix(ts: &[&str]) {
    let n = fork(8);
    metaphone_prefix_of(n, one_of(ts))
}
fn metaphone_prefix_of(n: usize, i: In) {
    note!("maximum", n);
    let all = Metaphone::new(None).encode(&i.s);
    let cut: String = if i.c.len() == 1 { all } else { all.chars().take(n).collect() };
    same(&Metaphone::new(Some(n)).encode(&i.s), &cut);
}
/// Limits no code ever reaches.
const HUGE: &[usize] = &[11, 12, 1000, 100_000, isize::MAX as usize, usize::MAX - 1, usize::MAX];
fn mra(ts: &[&str]) {
    mra_in(one_of(ts))
}
fn mra_in(i: In) {
    same(&MatchRatingApproach.encode(&i.s), &mra::encode(&i.s));
}
fn mra_match(a: &[&str], b: &[&str]) {
    let (i, j) = (one_of(a), one_of(b));
    let e = MatchRatingApproach;
    let m = e.is_encoded_equals(&i.s, &j.s);
    out(&[m as u8]);
    note!("matches", m);
    law(m == mra::matches(&i.s, &j.s));
    law(m == e.is_encoded_equals(&j.s, &i.s));
}


fn mra_names(ns: &[&str], with: &[&str], cuts: &[usize]) {
    let (i, j) = changed_pair(ns, with, cuts);
    let e = MatchRatingApproach;
    let m = e.is_encoded_equals(&i.s, &j.s);
    out(&[m as u8]);
    note!("names", (&i.s, &j.s));
    note!("matches", m);
    law(m == mra::matches(&i.s, &j.s));
    law(m == e.is_encoded_equals(&j.s, &i.s));
}
/// Pairs: all lengths of both names, over few letters.
fn mra_lengths(la: &[usize], lb: &[usize]) {
    let (n, m) = (la[fork(la.len())], lb[fork(lb.len())]);
    let (mut i, mut j) = (In::new(), In::new());
    for k in 0..n {
        i.tpl(if k < 7 { "[bcd]" } else { "g" });
    }
    for k in 0..m {
        j.tpl(if k < 7 { "[bcd]" } else { "g" });
    }
    note!("names", (&i.s, &j.s));
    let e = MatchRatingApproach;
    let r = e.is_encoded_equals(&i.s, &j.s);
    out(&[r as u8]);
    note!("matches", r);
    law(r == mra::matches(&i.s, &j.s));
}

const F1: &[&str] = &["1?2", "12", "?12", "12?", "1?2?"];
const FT: &[&str] = &["1??2", "?1?2?", "121", "1?2?1", "aeaeae12?", "bdbdbdbd1?2"];
const CAVER: &[&str] = &[
    "cough", "rough", "tough", "enough", "trough", "gn", "mb", "cq", "ci", "ce", "cy", "tch", "c", "q", "x", "v", "dg", "tio", "tia", "d", "ph", "b", "sh", "z", "a", "gh", "g", "ss", "tt", "w", "wh", "why", "wy", "h", "r", "ry", "l", "ly", "j",
    "y", "e", "m", "n", "k",
];
const COLOGNE: &[&str] = &["a", "b", "c", "d", "t", "f", "ph", "g", "k", "x", "l", "m", "n", "r", "s", "z", "h", "sch", "ck", "ch", "w", "j", "ä", "ö", "Ü", "ß", "-", " "];
const NYSIIS: &[&str] = &["mac", "kn", "k", "ph", "pf", "sch", "ee", "ie", "dt", "rt", "rd", "nt", "nd", "s", "ay", "a", "ev", "q", "z", "m", "h", "w", "e", "o", "y", "bb", "é", " "];
const PHONEX: &[&str] = &["s", "ss", "kn", "ph", "wr", "h", "e", "y", "p", "v", "k", "q", "j", "z", "b", "c", "d", "dc", "t", "tc", "l", "m", "n", "nd", "ng", "r", "w", "é", "-"];
const METAPHONE: &[&str] = &[
    "kn", "gn", "pn", "ae", "wr", "wh", "x", "mb", "b", "sch", "sce", "ci", "cia", "ce", "cy", "ch", "c", "dge", "dgy", "d", "gh", "gned", "g", "gg", "h", "k", "ck", "ph", "q", "sh", "sio", "sia", "s", "tia", "tio", "tch", "th", "v", "w", "y",
    "a", "o", "z", "cc", "é",
];
const MRA: &[&str] = &["a", "e", "o", "é", "Ö", "ñ", "bb", "b", "cc", "sch", "y", "yy", "-", " ", "'", ".", "th", "ss", "ß", "k"];

entries! {
    n02_names => { nysiis_strict_of(changed(NAMES, &["?", "%"], &[0, 1])) }
    n02_lengths => { nysiis_strict_of(long(&[("?", "ab", "?"), ("?", "éb", ""), ("%", "bd", "?s")], LONG)) }
    n02_t_names => { nysiis_strict_of(changed(NAMES, &["??", "~"], &[0, 1, 2])) }
    m02_names => { let n = [3, 4, 6][fork(3)]; metaphone_prefix_of(n, changed(NAMES, &["?"], &[0, 1])) }
    m02_t_lengths => { let n = [5, 16, 31, 64, 255][fork(5)]; metaphone_prefix_of(n, long(&[("?", "ta", "?"), ("?", "xa", ""), ("%", "btd", "?s")], &[15, 64, 127, 300])) }
    m02_lengths => { let n = [5, 31, 255][fork(3)]; metaphone_prefix_of(n, long(&[("?", "ta", "?"), ("?", "xa", ""), ("%", "btd", "?s")], &[64, 300])) }
    m02_t_names => { let n = fork(12); metaphone_prefix_of(n, changed(NAMES, &["?"], &[0, 1])) }
    p02_names => { let n = [1, 2, 3, 5, 7, 12][fork(6)]; phonex_in(n, changed(NAMES, &["?"], &[0, 1])) }
    r02_names => { mra_names(NAMES, &["?"], &[0, 1]) }
    r02_letters => { mra_names(&["katherine", "smith", "robertson", "macgregor", "josé-maría", "thompson", "li", "al khalifa"], &["??", "%", "&?"], &[0, 1, 2, 3]) }
    r02_t_names => { mra_names(NAMES, &["??", "%", "&"], &[0, 1, 2, 3, 4]) }
    c01_names => { cologne_in(changed(NAMES, &["?"], &[0, 1])) }
    c01_lengths => { cologne_in(long(&[("?", "a", "??"), ("??", "dc", "??"), ("?", "h", "?x"), ("c", "-", "?"), ("?", "ptk", "?")], LONG)) }
    c01_t_names => { cologne_in(changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    c01_t_lengths => { cologne_in(long(&[("?", "a", "??"), ("??", "dc", "??"), ("?", "h", "?x"), ("c", "-", "?"), ("?", "ptk", "?")], LONG_T)) }
    k01_names => { caver1_in(changed(NAMES, &["?"], &[0, 1])) }
    k01_lengths => { caver1_in(long(&[("?", "a", "??"), ("", "ptk", "??"), ("?", "tch", "?"), ("tough", "ss", "?mb"), ("?", "-", "?")], &[29, 62, 255])) }
    k01_t_names => { caver1_in(changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    k01_t_lengths => { caver1_in(long(&[("?", "a", "??"), ("", "ptk", "??"), ("?", "tch", "?"), ("tough", "ss", "?mb"), ("?", "-", "?")], &[15, 16, 31, 32, 63, 64, 127, 128, 256, 300])) }
    k02_names => { caver2_in(changed(NAMES, &["?"], &[0, 1])) }
    k02_lengths => { caver2_in(long(&[("?", "a", "??"), ("", "ptk", "??"), ("?", "tch", "?"), ("trough", "ss", "?mb"), ("?", "-", "?")], &[29, 62, 255])) }
    k02_t_names => { caver2_in(changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    k02_t_lengths => { caver2_in(long(&[("?", "a", "??"), ("", "ptk", "??"), ("?", "tch", "?"), ("trough", "ss", "?mb"), ("?", "-", "?")], &[15, 16, 31, 32, 63, 64, 127, 128, 256, 300])) }
    n01_names => { nysiis_in(changed(NAMES, &["?"], &[0, 1])) }
    n01_lengths => { nysiis_in(long(&[("?", "a", "??"), ("?", "btk", "??"), ("mac?", "ev", "?"), ("pf", "ss", "?dt"), ("?", "-", "?")], LONG)) }
    n01_t_names => { nysiis_in(changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    n01_t_lengths => { nysiis_in(long(&[("?", "a", "??"), ("?", "btk", "??"), ("mac?", "ev", "?"), ("pf", "ss", "?dt"), ("?", "-", "?")], LONG_T)) }
    p01_names => { phonex_in(4, changed(NAMES, &["?"], &[0, 1])) }
    p01_lengths => { phonex_in(4, long(&[("?", "a", "??"), ("?", "btk", "??"), ("wr?", "ea", "?"), ("ph?", "mn", "s"), ("?", "-", "?"), ("?", "s", "")], LONG)) }
    p01_names_more => { phonex_in(4, changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    p01_lengths_more => { phonex_in(4, long(&[("?", "a", "??"), ("?", "btk", "??"), ("wr?", "ea", "?"), ("ph?", "mn", "s"), ("?", "-", "?"), ("?", "s", "")], LONG_T)) }
    m01_names => { metaphone_in(None, changed(NAMES, &["?"], &[0, 1])) }
    m01_lengths => { metaphone_in(None, long(&[("?", "a", "??"), ("?", "btk", "?"), ("wh?", "xc", "?"), ("kn?", "dge", "?mb"), ("?", "gh", "?")], LONG)) }
    m01_t_names => { metaphone_in(None, changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    m01_t_lengths => { metaphone_in(None, long(&[("?", "a", "??"), ("?", "btk", "?"), ("wh?", "xc", "?"), ("kn?", "dge", "?mb"), ("?", "gh", "?")], LONG_T)) }
    r01_names => { mra_in(changed(NAMES, &["?"], &[0, 1])) }
    r01_lengths => { mra_in(long(&[("?", "a", "??"), ("?", "btk", "??"), ("??", "cc", "??"), ("a?", "-", "?"), ("??", "é", "??")], &[29, 62, 255])) }
    r01_t_names => { mra_in(changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    r01_t_lengths => { mra_in(long(&[("?", "a", "??"), ("?", "btk", "??"), ("??", "cc", "??"), ("a?", "-", "?"), ("??", "é", "??")], &[15, 16, 31, 32, 63, 64, 127, 128, 256, 300])) }
    c01_pairs => { cologne_in(pair_of(F1, COLOGNE)) }
    c01_t_pairs => { cologne_in(pair_of(FT, COLOGNE)) }
    k01_pairs => { caver1_in(pair_of(&F1[..4], CAVER)) }
    k01_t_pairs => { caver1_in(pair_of(FT, CAVER)) }
    k01_t_pairs2 => { caver1_in(pair_of(&F1[4..], CAVER)) }
    k02_pairs => { caver2_in(pair_of(&F1[..4], CAVER)) }
    k02_t_pairs => { caver2_in(pair_of(FT, CAVER)) }
    k02_t_pairs2 => { caver2_in(pair_of(&F1[4..], CAVER)) }
    n01_pairs => { nysiis_in(pair_of(F1, NYSIIS)) }
    n01_t_pairs => { nysiis_in(pair_of(FT, NYSIIS)) }
    p01_pairs => { phonex_in(4, pair_of(F1, PHONEX)) }
    p01_pairs_more => { phonex_in(4, pair_of(FT, PHONEX)) }
    m01_pairs => { metaphone_in(None, pair_of(F1, METAPHONE)) }
    m01_t_pairs => { metaphone_in(None, pair_of(FT, METAPHONE)) }
    r01_pairs => { mra_in(pair_of(F1, MRA)) }
    r01_t_pairs => { mra_in(pair_of(FT, MRA)) }
    c01_short => { cologne(&["", "#", "##", "###", "@@@"]) }
    c01_words => { cologne(&["????", "?????", "@&@&@"]) }
    c01_unicode => { cologne(&["*", "*?", "?*?", "%%?", "c%?", "~c?", "?~~"]) }
    c01_long => { cologne(&["aaaaaaaaaaaa???", "mitc???", "h????", "wissenschaft???x?", "?c?c?", "x??x?", "s?c?", "&c??", "babababababababababababababababababab???", "?-?-?-?"]) }
    c01_t_words => { cologne(&["???????"]) }
    c01_t_mixed => { cologne(&["####", "#####", "?~?~?", "?%?%?%", "%?????"]) }
    c01_t_long => { cologne(&["?????bababababa?????"]) }

    k01_short => { caver1(&["", "#", "##", "@@@"]) }
    k01_words => { caver1(&["????", "@&@&@"]) }
    k01_starts => { caver1(&["cough??", "rough??", "tough??", "enough??", "trough??", "gn???", "?gn??", "coug??", "enoug??", "?cough?", "?enough", "coughcough?", "^OUGH??"]) }
    k01_ends => { caver1(&["??mb", "?mb?", "???e", "?mbmb", "bababamb", "?a?a?mb"]) }
    k01_inside => { caver1(&["?tch?", "?tio?", "?tia?", "agh?", "a?gh?", "?dg?", "?ph?", "?sh?", "?wh??", "?why?", "?wy?", "?ry?", "?ly?", "?r3?", "?c?c?", "eeghee?", "?tiotia?", "?aghagha"]) }
    k01_unicode => { caver1(&["*", "*?", "?~?", "%b%", "co%ugh?"]) }
    k01_long => { caver1(&["stanstanst???", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa???", "sssssssss???ttttttt", "ttttppppkkkkffff??"]) }
    k01_t_words => { caver1(&["?????"]) }
    k01_t_mixed => { caver1(&["###", "####", "@&@@&@", "?~?~", "~~", "????mb", "?cough?"]) }
    k01_t_starts => { caver1(&["cough???", "rough???", "tough???", "enough???", "trough???", "gn????", "stanstan????"]) }

    k02_short => { caver2(&["", "#", "##", "@@@"]) }
    k02_words => { caver2(&["????", "@&@&@"]) }
    k02_starts => { caver2(&["cough??", "rough??", "tough??", "enough??", "trough??", "gn???", "?gn??", "troug??", "?cough?", "?trough", "y???", "?y?y?", "^OUGH??"]) }
    k02_ends => { caver2(&["??mb", "?mb?", "???e", "??mbe", "???ee", "???w", "???r", "???l", "???we", "???re", "???le", "???h"]) }
    k02_inside => { caver2(&["?tch?", "?tio?", "?tia?", "agh?", "a?gh?", "?dg?", "?ph?", "?sh?", "?wh??", "?why?", "?wy?", "?ry?", "?ly?", "?j?j?", "?c?c?", "eeghee?", "?yghy?", "?tiotia?"]) }
    k02_unicode => { caver2(&["*", "*?", "?~?", "%b%", "tro%ugh?"]) }
    k02_long => { caver2(&["stanstanst???", "stanstanstanstan???", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa???", "ttttppppkkkkffff??"]) }
    k02_t_words => { caver2(&["?????"]) }
    k02_t_mixed => { caver2(&["###", "####", "@&@@&@", "?~?~", "~~", "????mb", "????e", "?cough?"]) }
    k02_t_starts => { caver2(&["cough???", "rough???", "tough???", "enough???", "trough???", "gn????", "stanstan????", "????re", "????le", "????we"]) }

    n01_short => { nysiis(&["", "#", "##", "###", "@@@"]) }
    n01_words => { nysiis(&["????", "?????", "@&@&@"]) }
    n01_unicode => { nysiis(&["*", "?*", "*?", "?~?", "%%?", "?%?b", "?%%"]) }
    n01_ends => { nysiis(&["mac??", "kn???", "k???", "ph???", "pf???", "sch???", "???ee", "???ie", "???dt", "???rt", "???rd", "???nt", "???nd", "???s", "???ay", "???a", "???as", "???ays", "macee", "mac?ie", "?sch?", "??ev?", "??kn?"]) }
    n01_long => { nysiis(&["bababa????", "bcdfgbc???", "?ababababab???", "babababababa??", "bcdfgbcdfgbcdfgbcdfgbcdfg???"]) }
    n01_t_words => { nysiis(&["??????"]) }
    n01_t_mixed => { nysiis(&["####", "?~?~?", "%%%?", "????ee", "????nt", "mac????", "sch????", "????ays", "bcdfgb????", "bcdfg?????"]) }
    n02_strict => { nysiis_strict(&["", "bcdfg????", "????", "~%bcdfgh?", "bababa???", "bcdfgl*", "#?%#", "bcdfgbcdfg???"]) }
    n02_t_strict => { nysiis_strict(&["bcdfg?????", "?????", "????????s", "b*dfg??", "bcdf%%%%", "######"]) }

    p01_short => { phonex(4, &["", "#", "##", "###", "@@@"]) }
    p01_words => { phonex(4, &["????", "?????", "@&@&@", "??????"]) }
    p01_unicode => { phonex(4, &["*", "*?", "?*?", "%%?", "?%%", "*??"]) }
    p01_long => { phonex(4, &["aeaeae????", "kn???", "ph???", "wr???", "h????", "hh???", "hkn??", "???sss", "ss???ss", "nd????", "?ng?d?", "ahahahahah?????", "bababababa????"]) }
    p01_t_words => { phonex(4, &["????????"]) }
    p01_t_mixed => { phonex(4, &["####", "#####", "?~?~?", "%%%?", "?????sss", "h??????", "aeae??????"]) }
    p02_lengths => { let n = [0, 1, 2, 3, 5, 6, 9, 15][fork(8)]; note!("maximum", n); phonex(n, &["", "#", "???", "?????", "%?%", "nd??d", "bcdlmrbcdl???", "*?"]) }
    p02_long => { let n = [0, 1, 2, 8, 40, 255, 256, 300][fork(8)]; note!("maximum", n); phonex(n, &["", "@??", "bdlbdlbdlbdlbdlbdlbdlbdlbdlbdlbdlbdlbdlbdlb??"]) }
    p02_t_lengths => { let n = fork(20); note!("maximum", n); phonex(n, &["???????", "#?#?#", "ndng????"]) }

    m01_short => { metaphone(Some(4), &["", "#", "##", "@@@"]) }
    m01_words => { metaphone(Some(4), &["????", "@&@&@"]) }
    m01_whole => { metaphone(None, &["", "???", "????", "?&?&?"]) }
    m01_unicode => { metaphone(None, &["*", "*?", "?*?", "%%?", "?%%", "%??"]) }
    m01_context => { metaphone(None, &["?kn??", "kn??", "gn??", "pn??", "ae??", "wr??", "wh??", "x???", "??mb", "?mb?", "?sch??", "?sc??", "?cia?", "ch???", "?ch??", "?dg??", "?gh??", "??gh?", "?gn??", "?gned", "?gned?", "??gn", "?ck??", "?ph??", "?sh??", "?sio?", "?sia?", "?tia?", "?tio?", "?tch?", "?th??", "?wh??", "?cc??", "?gg??"]) }
    m01_long => { metaphone(None, &["babababababababababa??", "aeioaeioaeio??", "??tststststs??"]) }
    m01_t_words => { metaphone(None, &["?????"]) }
    m01_t_four => { metaphone(Some(4), &["?????", "xaxa????"]) }
    m01_t_mixed => { metaphone(None, &["###", "####", "?~?~", "%?%?", "?sch???", "?ch???", "?gh???", "?dg???", "??gn??", "??gned", "?tch??", "?tio??", "?mb???"]) }
    m02_prefix => { metaphone_prefix(&["", "#", "???", "?x?x?", "xxxx??", "*", "??&??", "%x?"]) }
    m02_huge => { let n = HUGE[fork(HUGE.len())]; metaphone_prefix_of(n, one_of(&["", "??", "?ch?", "%?", "dge?", "xaxaxax?"])) }
    m02_long => { metaphone_prefix(&["btbtbt????", "xaxaxa???", "??tatatatata?"]) }
    m02_limits => { let n = [0, 1, 2, 3, 5, 9][fork(6)]; note!("maximum", n); metaphone(Some(n), &["", "#", "????", "xx???", "%x?"]) }
    m02_t_prefix => { metaphone_prefix(&["????", "x????", "??x??", "?~?~"]) }

    r01_short => { mra(&["", "#", "##", "@@@", "###"]) }
    r01_words => { mra(&["????", "@&@&@", "?????", "b[abcd][abcd][abcd][abcd][abcd][abcd][abcd]"]) }
    r01_unicode => { mra(&["*", "*?", "?*?", "%%?", "bcd%??", "bcdf?%k"]) }
    r01_long => { mra(&["bcdfghj???", "?bcdfghjklmn??", "aaaaaaaaaaaa????", "&?&?&?&", "bbccdd???", "?a?a?a?a?"]) }
    r01_t_words => { mra(&["????????", "%%???", "????%????", "#?#?#?", "####"]) }
    r02_short => { mra_match(&["", "&", "?", "??", "%"], &["", "?", "#", "???"]) }
    r02_words => { mra_match(&["???", "&?b"], &["bc?", "b%", "?d?"]) }
    r02_lengths => { mra_lengths(&[0, 1, 2, 3, 4, 5, 8], &[2, 3, 4, 5]) }
    r02_long => { mra_match(&["bcdf??", "bcd??fgh"], &["bcdg?", "bcd?gh", "%bcdf"]) }
    r02_t_words => { mra_match(&["????", "?????", "?&?%"], &["???", "????", "##"]) }
    r02_t_lengths => { mra_lengths(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 10]) }
}
