//! Slices, and what holds for all encoders.
use crate::sym::*;
use rphonetic::*;

// ---- CharSequence

fn slices(ts: &[&str]) {
    let i = one_of(ts);
    let n = i.c.len();
    let c = CharSequence::from(i.s.as_str());
    law(c.len() == n);
    law(c.is_empty() == (n == 0));
    same(c.as_str(), &i.s);
    same(&c.to_string(), &i.s);
    const ENDS: [usize; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 100, usize::MAX - 1, usize::MAX];
    let (a, b) = (ENDS[fork(12)], ENDS[fork(12)]);
    let form = fork(6);
    note!("form", form);
    note!("bounds", (a, b));
    // the characters from `from` (included) to `to` (excluded), as far as there are
    let (got, from, to): (&str, usize, usize) = match form {
        0 => (&c[a..b], a, b),
        1 => (&c[a..], a, n),
        2 => (&c[..b], 0, b),
        3 => (&c[a..=b], a, b.saturating_add(1)),
        4 => (&c[..=b], 0, b.saturating_add(1)),
        _ => (&c[..], 0, n),
    };
    let mut want = String::new();
    for k in from..to.min(n) {
        want.push(i.c[k]);
    }
    same(got, &want);
    let s: &str = c.into();
    law(s.len() == i.s.len());
}

// ---- All encoders

pub const ENCODERS: usize = 13;
fn name(k: usize) -> &'static str {
    ["Soundex", "RefinedSoundex", "Caverphone1", "Caverphone2", "Cologne", "Nysiis", "Nysiis(false)", "Phonex", "Metaphone", "DoubleMetaphone", "DaitchMokotoffSoundex", "BeiderMorse", "BeiderMorse(exact)", "MatchRatingApproach"][k]
}
struct All {
    dm: DaitchMokotoffSoundex,
    bm: BeiderMorse<'static>,
    bx: BeiderMorse<'static>,
}
fn all() -> &'static All {
    let c = keep(ConfigFiles::default());
    let b = BeiderMorseBuilder::new(c);
    keep(All { dm: DaitchMokotoffSoundex::default(), bm: b.build(), bx: b.rule_type(RuleType::Exact).build() })
}
impl All {
    fn with<R>(&self, k: usize, f: impl Fn(&dyn Encoder) -> R) -> R {
        match k {
            0 => f(&Soundex::default()),
            1 => f(&RefinedSoundex::default()),
            2 => f(&Caverphone1),
            3 => f(&Caverphone2),
            4 => f(&Cologne),
            5 => f(&Nysiis::default()),
            6 => f(&Nysiis::new(false)),
            7 => f(&Phonex::default()),
            8 => f(&Metaphone::default()),
            9 => f(&DoubleMetaphone::default()),
            10 => f(&self.dm),
            11 => f(&self.bm),
            12 => f(&self.bx),
            _ => f(&MatchRatingApproach),
        }
    }
}

/// Two long texts that differ at the ends.
fn long_pair(forms: &[(&str, &str, &str)], lengths: &[usize]) -> (In, In) {
    let f = fork(forms.len());
    (long(&forms[f..f + 1], lengths), long(&forms[f..f + 1], &lengths[lengths.len() - 1..]))
}
const FEW: &[&str] = &["schwarzenegger", "knightley", "o'connor", "phillips", "mcdonough", "wright", "tchaikovsky", "xavier", "saint-just", "thumb"];
fn equality(a: &[&str], b: &[&str]) {
    equality_of(ENCODERS, || (one_of(a), one_of(b)))
}
fn equality_of(n: usize, f: impl FnOnce() -> (In, In)) {
    let e = all();
    let k = fork(n);
    note!("encoder", name(k));
    let (i, j) = f();
    e.with(k, |e| {
        let (x, y) = (e.encode(&i.s), e.encode(&j.s));
        let eq = x == y;
        out(&[eq as u8]);
        note!("codes", (&x, &y));
        law(e.is_encoded_equals(&i.s, &j.s) == eq);
    })
}

/// Upper and lower case give the same code.
fn case(ts: &[&str]) {
    case_of(|| one_of(ts))
}
fn case_of(i: impl FnOnce() -> In) {
    let e = all();
    let k = fork(ENCODERS + 1);
    note!("encoder", name(k));
    let i = i();
    let (up, low) = (i.s.to_ascii_uppercase(), i.s.to_ascii_lowercase());
    e.with(k, |e| {
        let c = e.encode(&low);
        same(&e.encode(&up), &c);
        same(&e.encode(&i.s), &c);
    })
}
/// Signs and spaces between the letters do not count, for the encoders that keep the letters only.
fn ignored(ts: &[&str]) {
    ignored_of(|| one_of(ts))
}
fn ignored_of(i: impl FnOnce() -> In) {
    let e = all();
    let k = [0, 1, 2, 3, 5, 6, 7][fork(7)];
    note!("encoder", name(k));
    let i = i();
    let mut l = String::new();
    for c in &i.c {
        if c.is_ascii_alphabetic() {
            l.push(*c);
        }
    }
    // an empty text and a text without a letter have the same code but in Caverphone, see C02
    e.with(k, |e| same(&e.encode(&i.s), &e.encode(&l)))
}

/// Any one of all Unicode characters, and where it stands.
fn total(places: &[(&str, &str)], from: usize, to: usize) {
    let e = all();
    let k = fork(ENCODERS + 1);
    note!("encoder", name(k));
    let p = fork(places.len());
    let base = ((from + fork_many(to - from)) * 64) as u32;
    assume(base < 0xd800 || base >= 0xe000);
    let mut i = In::new();
    i.tpl(places[p].0);
    if base < 0x80 {
        let v = pick(64) as u8;
        i.byte(base as u8 + v);
    } else {
        i.block(base);
    }
    i.tpl(places[p].1);
    note!("input", i.s);
    e.with(k, |e| {
        let c = e.encode(&i.s);
        out(c.as_bytes());
        law(std::str::from_utf8(c.as_bytes()).is_ok());
        law(e.is_encoded_equals(&i.s, &i.s) || k == ENCODERS);
    })
}
const BLOCKS: usize = 0x110000 / 64;

/// A code depends on the text only, not on what was encoded before.
fn again(a: &[&str], b: &[&str]) {
    let e = all();
    let k = fork(ENCODERS + 1);
    note!("encoder", name(k));
    let (i, j) = (one_of(a), one_of(b));
    e.with(k, |e| {
        let x = e.encode(&i.s);
        let y = e.encode(&j.s);
        same(&e.encode(&i.s), &x);
        same(&e.encode(&j.s), &y);
    })
}

/// Texts that have much in common, one after the other.
fn again_of(f: impl FnOnce() -> (In, In)) {
    let e = all();
    let k = fork(ENCODERS + 1);
    note!("encoder", name(k));
    let (i, j) = f();
    e.with(k, |e| {
        let x = e.encode(&i.s);
        let y = e.encode(&j.s);
        same(&e.encode(&i.s), &x);
        same(&e.encode(&j.s), &y);
    })
}
/// After many other texts.
fn filled(ts: &[&str], counts: &[usize]) {
    let e = all();
    let k = fork(ENCODERS + 1);
    note!("encoder", name(k));
    let n = counts[fork(counts.len())];
    note!("others", n);
    let i = one_of(ts);
    e.with(k, |e| {
        let x = e.encode(&i.s);
        let mut t = String::with_capacity(16);
        for m in 0..n {
            t.clear();
            t.push((b'a' + (m % 26) as u8) as char);
            t.push((b'a' + (m / 26) as u8) as char);
            t.push_str("sch");
            e.encode(&t);
        }
        same(&e.encode(&i.s), &x);
    })
}
/// Encoders of one kind with other options do not share anything: each gives its own code.
fn options(ts: &[&str]) {
    use crate::refs::*;
    let kind = fork(7);
    let (a, b) = (fork(3), fork(3));
    assume(a != b);
    let dm = [
        DaitchMokotoffSoundexBuilder::default().ascii_folding(true).build().ok().unwrap(),
        DaitchMokotoffSoundexBuilder::default().ascii_folding(false).build().ok().unwrap(),
        DaitchMokotoffSoundexBuilder::with_rules("\"a\" \"1\" \"2\" \"3\"\n").build().ok().unwrap(),
    ];
    let rules = daitch::parse(daitch::RULES).ok().unwrap();
    let own = daitch::parse("\"a\" \"1\" \"2\" \"3\"\n").ok().unwrap();
    let i = one_of(ts);
    note!("kind", kind);
    note!("options", (a, b));
    const MAX: [Option<usize>; 3] = [None, Some(4), Some(2)];
    let map = |s: &str| -> Vec<char> { s.chars().collect() };
    let cut = |s: String, n: Option<usize>| -> String { s.chars().take(n.unwrap_or(99)).collect() };
    let one = |o: usize| -> (String, String) {
        match kind {
            0 => (Metaphone::new(MAX[o]).encode(&i.s), metaphone::metaphone(&i.c, MAX[o])),
            1 => (DoubleMetaphone::new(MAX[o]).encode(&i.s), cut(dmetaphone::code(&i.s).0, MAX[o])),
            2 => (Nysiis::new(o == 1).encode(&i.s), nysiis::nysiis(&i.c, o == 1)),
            3 => (Phonex::new(2 + o).encode(&i.s), phonex::phonex(&i.c, 2 + o)),
            4 => match o {
                0 => (Soundex::default().encode(&i.s), soundex::soundex(&map(soundex::DEFAULT), true, &i.c)),
                1 => (
                    Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX).encode(&i.s),
                    soundex::soundex(&map(soundex::GENEALOGY), false, &i.c),
                ),
                _ => (Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, false).encode(&i.s), soundex::soundex(&map(soundex::DEFAULT), false, &i.c)),
            },
            5 => match o {
                0 => (RefinedSoundex::default().encode(&i.s), soundex::refined(&map(soundex::REFINED), &i.c)),
                _ => (RefinedSoundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX).encode(&i.s), soundex::refined(&map(soundex::DEFAULT), &i.c)),
            },
            _ => (dm[o].encode(&i.s), daitch::codes(if o == 2 { &own } else { &rules }, o != 1, &i.c, false)[0].clone()),
        }
    };
    for o in [a, b, a] {
        let (x, y) = one(o);
        same(&x, &y);
    }
}
/// A text of many characters.
fn total_long(lengths: &[usize]) {
    let e = all();
    let k = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, ENCODERS][fork(12)];
    note!("encoder", name(k));
    let i = long(&[("", "abc", "$"), ("$", "aé", ""), ("b", "日", "$"), ("?", "b -", "?")], lengths);
    e.with(k, |e| {
        let c = e.encode(&i.s);
        out(c.as_bytes());
        law(std::str::from_utf8(c.as_bytes()).is_ok());
    })
}
/// Any character of the NEAR blocks anywhere in a name.
fn total_names(ns: &[&str]) {
    let e = all();
    let k = fork(ENCODERS + 1);
    note!("encoder", name(k));
    let i = changed(ns, &["~", "&"], &[0, 1]);
    e.with(k, |e| {
        let c = e.encode(&i.s);
        out(c.as_bytes());
        law(std::str::from_utf8(c.as_bytes()).is_ok());
    })
}
/// Slices of a longer text.
fn slices_far(t: &str) {
    let i = one_of(&[t]);
    let n = i.c.len();
    let c = CharSequence::from(i.s.as_str());
    const AT: [usize; 16] = [0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 71, 72, 73, 300];
    let (a, b) = (AT[fork(16)], AT[fork(16)]);
    note!("bounds", (a, b));
    let mut want = String::new();
    for k in a..b.min(n) {
        want.push(i.c[k]);
    }
    same(&c[a..b], &want);
    law(c.len() == n);
}

entries! {
    l01_far => { slices_far("abcdefghijé日#mnopqrstuvwxyzabc~efghijklmnopqrstuvwxyzabcdefghi*#é日abcdef") }
    e01_names => { equality_of(ENCODERS - 2, || changed_pair(FEW, &["?", "&"], &[0, 1])) }
    e01_lengths => { equality_of(ENCODERS - 2, || long_pair(&[("", "ba", "?"), ("[ks]", "lbmd", "")], &[31, 256])) }
    e01_t_lengths => { equality_of(ENCODERS - 2, || long_pair(&[("?", "ba", "?"), ("", "lbmd", "?"), ("?", "ch ", "")], LONG_T)) }
    e01_t_names => { equality_of(ENCODERS, || changed_pair(NAMES, &["?", "&"], &[0, 1])) }
    i01_names => { case_of(|| changed(FEW, &["@"], &[1])) }
    i01_t_names => { case_of(|| changed(NAMES, &["@"], &[0, 1])) }
    i01_ignored_names => { ignored_of(|| changed(NAMES, &["[- '.,0]"], &[0])) }
    i01_t_ignored_names => { ignored_of(|| changed(NAMES, &["&", "#"], &[0, 1])) }
    t01_long => { total_long(&[15, 31, 63, 127, 254, 255, 256]) }
    t01_names => { total_names(&FEW[2..4]) }
    t01_t_few => { total_names(FEW) }
    t01_t_long => { total_long(LONG_T) }
    t01_t_names => { total_names(NAMES) }
    y01_near => { again_of(|| changed_pair(&["schwarz", "connor", "thumb"], &["?"], &[0, 1])) }
    y01_filled => { filled(&["?asch", "schmid?"], &[1, 2, 4, 10, 34]) }
    y01_options => { options(&["", "?@", "sch?midt", "%"]) }
    y01_t_near => { again_of(|| changed_pair(NAMES, &["?", "&"], &[0, 1])) }
    y01_t_filled => { filled(&["?asch", "schmid?", "%"], &[3, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300]) }
    y01_t_options => { options(&["????", "sch??midt", "~?", "#&?"]) }
    l01_slices => { slices(&["", "#", "##", "a*b", "%a%b", "**", "a\u{301}é日#𐐷"]) }
    l01_t_slices => { slices(&["#*#*#", "~~~~", "######", "***"]) }
    e01_equality => { equality(&["", "&", "?t", "s?c"], &["", "?", "[bcdhtwsz][- ]?", "%"]) }
    e01_t_equality => { equality(&["???", "*", "?t?"], &["?&?", "??", "@?%"]) }
    i01_case => { case(&["@", "@@", "@?@", "sch@@", "@ch@"]) }
    i01_t_case => { case(&["@@@@", "@&@", "@%@"]) }
    i01_ignored => { ignored(&["?[-' .1,]?", "[-' .]??[-' ]", "s[-' ]c[-_]h?", "?[#$]?[0123]?", "w[-]r[ ]?"]) }
    i01_t_ignored => { ignored(&["&?&?&?&", "?[- ]?[' ]?[.1]?", "[- ]w[- ]r?", "?a[- ]y[. ]"]) }
    t01_alone => { total(&[("", "")], 0, BLOCKS) }
    t01_between => { total(&[("a", "b"), ("sc", ""), ("", "h")], 0, 200) }
    t01_t_between => { total(&[("?", "?"), ("a", ""), ("", "cz"), ("mc", "e")], 0, BLOCKS) }
    t01_t_two => { total(&[("$", "?"), ("", "$"), ("~?", ""), ("&", "&")], 0, 1100) }
    y01_again => { again(&["?e", "%", "&"], &["[ctsw]h?", "?"]) }
    y01_t_again => { again(&["???", "%?", "&"], &["?h?", "b%", "@@"]) }
}
