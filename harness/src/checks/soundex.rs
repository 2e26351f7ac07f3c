use crate::refs::soundex as r;
use crate::sym::*;
use rphonetic::*;

fn table(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn array(s: &[char]) -> [char; 26] {
    s.try_into().unwrap()
}

fn soundex(ts: &[&str]) {
    let e = Soundex::default();
    let t = table(r::DEFAULT);
    let i = one_of(ts);
    same(&e.encode(&i.s), &r::soundex(&t, true, &i.c));
}
fn soundex_in(i: In) {
    same(&Soundex::default().encode(&i.s), &r::soundex(&table(r::DEFAULT), true, &i.c));
}
fn genealogy_in(i: In) {
    same(&Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX).encode(&i.s), &r::soundex(&table(r::GENEALOGY), false, &i.c));
}
fn refined_in(i: In) {
    same(&RefinedSoundex::default().encode(&i.s), &r::refined(&table(r::REFINED), &i.c));
}
fn genealogy(ts: &[&str]) {
    let e = Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX);
    let t = table(r::GENEALOGY);
    let i = one_of(ts);
    same(&e.encode(&i.s), &r::soundex(&t, false, &i.c));
}
fn refined(ts: &[&str]) {
    let e = RefinedSoundex::default();
    let t = table(r::REFINED);
    let i = one_of(ts);
    same(&e.encode(&i.s), &r::refined(&t, &i.c));
}

/// A mapping: 26 symbols, those of `A B H W Z` symbolic, of the characters of `set`.
fn mapping(set: &[char]) -> Vec<char> {
    let mut t = table("0123456789abcdefghijklmnop");
    for k in [0, 1, 7, 22, 25] {
        t[k] = set[pick(set.len())];
    }
    t
}
fn custom(set: &[char], ts: &[&str]) {
    let special = fork(2) == 1;
    let m = mapping(set);
    note!("mapping", m);
    note!("special", special);
    let e = Soundex::new(array(&m), special);
    let i = one_of(ts);
    same(&e.encode(&i.s), &r::soundex(&m, special, &i.c));
}
fn custom_refined(set: &[char], ts: &[&str]) {
    let m = mapping(set);
    note!("mapping", m);
    let e = RefinedSoundex::new(array(&m));
    let i = one_of(ts);
    same(&e.encode(&i.s), &r::refined(&m, &i.c));
}

/// A mapping of 26 symbols, three of them symbolic (any of the NEAR blocks, or ASCII).
fn text(n: usize) -> In {
    let mut i = In::new();
    for k in 0..n {
        if k == 3 || k == 11 {
            i.tpl("#");
        } else if k + 1 == n {
            i.tpl("$");
        } else {
            i.ch((b'0' + (k % 7) as u8) as char);
        }
    }
    note!("mapping", i.s);
    i
}
fn constructors(which: usize) {
    let n = [0, 1, 3, 24, 25, 26, 27, 28, 30, 52, 100][fork(11)];
    let i = text(n);
    match which {
        0 => {
            let got: Result<Soundex, Vec<char>> = match fork(3) {
                0 => Soundex::try_from(i.s.as_str()),
                1 => Soundex::try_from(i.s.clone()),
                _ => i.s.parse::<Soundex>(),
            };
            match got {
                Ok(e) => {
                    law(n == 26);
                    let special = !i.c.iter().any(|c| *c == '-');
                    let w = one_of(&["dlzzdl", "lhzwd", "addhl"]);
                    same(&e.encode(&w.s), &r::soundex(&i.c, special, &w.c));
                }
                Err(v) => {
                    law(n != 26);
                    same(&string(&v), &i.s);
                }
            }
        }
        _ => {
            let got: Result<RefinedSoundex, Vec<char>> = match fork(3) {
                0 => RefinedSoundex::try_from(i.s.as_str()),
                1 => RefinedSoundex::try_from(i.s.clone()),
                _ => i.s.parse::<RefinedSoundex>(),
            };
            match got {
                Ok(e) => {
                    law(n == 26);
                    let w = one_of(&["dlzzdl", "lhzwd", "addhl"]);
                    same(&e.encode(&w.s), &r::refined(&i.c, &w.c));
                }
                Err(v) => {
                    law(n != 26);
                    same(&string(&v), &i.s);
                }
            }
        }
    }
}

/// One symbol of the mapping is symbolic, or two; H and W are special without a dash.
fn silents(two: bool, ts: &[&str]) {
    let mut t = table("0123456789abcdefghijklmnop");
    let k = fork(26);
    t[k] = ['-', 'd', '0', '\u{2d}', '\u{2013}'][pick(5)];
    if two {
        t[fork(26)] = ['-', '0', 'x'][pick(3)];
    }
    note!("mapping", t);
    let text = string(&t);
    let (e, f) = match fork(4) {
        0 => (Soundex::from(array(&t)), RefinedSoundex::new(array(&t))),
        1 => (Soundex::try_from(text.as_str()).unwrap(), RefinedSoundex::try_from(text.as_str()).unwrap()),
        2 => (Soundex::try_from(text.clone()).unwrap(), RefinedSoundex::try_from(text.clone()).unwrap()),
        _ => (text.parse::<Soundex>().unwrap(), text.parse::<RefinedSoundex>().unwrap()),
    };
    let w = one_of(ts);
    same(&e.encode(&w.s), &r::soundex(&t, !t.contains(&'-'), &w.c));
    same(&f.encode(&w.s), &r::refined(&t, &w.c));
}

/// The number of positions where the two codes agree, none when a code is empty.
fn agree(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut n = 0;
    for k in 0..a.len().min(b.len()) {
        n += (a[k] == b[k]) as usize;
    }
    n
}
fn difference(a: &[&str], b: &[&str]) {
    let e = Soundex::default();
    let t = table(r::DEFAULT);
    let (i, j) = (one_of(a), one_of(b));
    let d = e.difference(&i.s, &j.s);
    law(d == agree(&r::soundex(&t, true, &i.c), &r::soundex(&t, true, &j.c)));
    law(d == e.difference(&j.s, &i.s));
    law(d <= 4);
}
fn difference_names(ns: &[&str]) {
    let e = Soundex::default();
    let t = table(r::DEFAULT);
    let (i, j) = changed_pair(ns, &["??", "?"], &[0, 1, 2]);
    let d = e.difference(&i.s, &j.s);
    law(d == agree(&r::soundex(&t, true, &i.c), &r::soundex(&t, true, &j.c)));
    law(d == e.difference(&j.s, &i.s));
    let (e, t) = (RefinedSoundex::default(), table(r::REFINED));
    let d = e.difference(&i.s, &j.s);
    law(d == agree(&r::refined(&t, &i.c), &r::refined(&t, &j.c)));
    law(d == e.difference(&j.s, &i.s));
}
fn difference_refined(a: &[&str], b: &[&str]) {
    difference_of(one_of(a), one_of(b))
}
fn difference_of(i: In, j: In) {
    let e = RefinedSoundex::default();
    let t = table(r::REFINED);
    let d = e.difference(&i.s, &j.s);
    law(d == agree(&r::refined(&t, &i.c), &r::refined(&t, &j.c)));
    law(d == e.difference(&j.s, &i.s));
}

const SET: [char; 8] = ['0', '1', '2', '3', '-', 'A', '9', 'z'];
const ODD: [char; 6] = ['0', '1', 'é', '\u{1f600}', '-', ' '];

const LONGS: &[(&str, &str, &str)] = &[("?", "a", "??"), ("??", "bhw", "??"), ("?", "-", "?"), ("", "bdlr", "??")];

entries! {
    s04_names => { difference_names(NAMES) }
    s04_lengths => { difference_of(long(&[("?", "ba", "?"), ("", "lbmd", "?")], LONG), long(&[("?", "ba", ""), ("m", "lbmd", "")], &[255, 256, 300])) }
    s04_t_lengths => { difference_of(long(&[("?", "ba", "?"), ("", "lbmd", "?"), ("%", "lad", "")], LONG_T), long(&[("?", "ba", ""), ("m", "lbmd", "")], LONG_T)) }
    s04_refined_long => { difference_refined(&["@abdlrmnbd?", "bdlrbdlrbdlrbdlrbdlrbdlr?"], &["babdlrmnbd?", "?dlrbdlrbdlrbdlrbdlrbdlrb", "bdlrbdlrbdlrbdlrbdlr????"]) }
    s01_names => { soundex_in(changed(NAMES, &["?"], &[0, 1])) }
    s01_lengths => { soundex_in(long(LONGS, LONG)) }
    s01_genealogy_names => { genealogy_in(changed(NAMES, &["?"], &[0, 1])) }
    s01_names_more => { soundex_in(changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    s01_lengths_more => { soundex_in(long(LONGS, LONG_T)) }
    s01_genealogy_names_more => { genealogy_in(changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    s03_names => { refined_in(changed(NAMES, &["?"], &[0, 1])) }
    s03_lengths => { refined_in(long(LONGS, LONG)) }
    s03_names_more => { refined_in(changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    s03_lengths_more => { refined_in(long(LONGS, LONG_T)) }
    s01_short => { soundex(&["", "#", "##", "@@@", "###"]) }
    s01_words => { soundex(&["@????", "??????", "@&@&@", "^^^^", "????????"]) }
    s01_unicode => { soundex(&["*", "*?", "?*?", "?%%?", "*?*", "%??~?", "&*??"]) }
    s01_long => { soundex(&["aaaaaaaaaaaa??????", "?????aaaaaaaaaaaaaaaaaaaaaaaaaaa?????", "bhwhwhwhwhwhwhwhwhwhwhwhwhwhwhwhwhw????", "?????????"]) }
    s01_signs => { soundex(&["b&&&&&&&&&&????", "#?#?#", "&&&&???"]) }
    s01_t_longer => { soundex(&["aaaaaaaaaaaa????????", "??????????????", "@????????????%???????"]) }
    s01_genealogy => { genealogy(&["", "#", "##", "###", "??????", "@&@&@", "*?*", "????????", "eeeeeeeeeee?????", "h??w???"]) }
    s01_t_long => { soundex(&["????????????????????????", "##########", "~?~?~?", "?*?*?"]); }
    s01_t_genealogy => { genealogy(&["????????????????????????", "##########", "~?~?~?", "?*?*?"]); }
    s02_mapping => { custom(&SET, &["[abhwz][abhwz][abhwz][abhwz]", "[abhwz][abhwz][abhwz][abhwz][abhwz]", "?[bhw]?[bhw]?"]) }
    s02_odd => { custom(&ODD, &["[abhwz][abhwz][abhwz]", "[hw][ab]?[hw]"]) }
    s02_other => { custom(&SET, &["[abhwz]%[abhwz]", "%[abhwz][abhwz]", "[abhwz]&[abhwz]"]) }
    s02_texts => { constructors(0) }
    s02_silent => { silents(false, &["l[hw]l[hw]?", "?w?", "?h?"]) }
    s02_t_silent => { silents(true, &["?[hw]?", "?[hw]?[hw]?"]) }
    s02_t_mapping => { custom(&SET, &["[abhwz][abhwz][abhwz][abhwz][abhwz][abhwz][abhwz]", "????[bhw]?[bhw]??"]) }
    s03_words => { refined(&["", "#", "##", "###", "??????", "@????", "@&@&@", "????????"]) }
    s03_unicode => { refined(&["*", "*?", "?*?", "?%%?", "*?*", "%??~?", "&*??"]) }
    s03_long => { refined(&["abababababababababababababab?????", "????????????"]) }
    s03_mapping => { custom_refined(&SET, &["[abhwz][abhwz][abhwz][abhwz]", "[abhwz]%[abhwz]", "?[bhw]?[bhw]?"]); }
    s03_odd => { custom_refined(&ODD, &["[abhwz][abhwz][abhwz]", "[hw][ab]?[hw]"]) }
    s03_texts => { constructors(1) }
    s03_t_long => { refined(&["????????????????????", "##########", "~?~?~?", "?*?*?"]); }
    s04_words => { difference(&["", "@???", "&@"], &["", "&", "@???"]) }
    s04_longer => { difference(&["aaa????", "@??hhhwww"], &["b?b", "@bdlwwwww", "????"]) }
    s04_t_five => { difference(&["?????"], &["@???", "?????"]) }
    s04_other => { difference(&["%?"], &["%?", "#", ""]) }
    s04_any => { difference(&["*"], &["", "b?", "?"]) }
    s04_refined => { difference_refined(&["", "@???", "%??", "&"], &["", "?????", "@%"]) }
    s04_t_words => { difference(&["????????", "@&@&@&"], &["????????", "#####"]) }
}
