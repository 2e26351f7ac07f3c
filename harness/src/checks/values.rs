//! Values that are saved and loaded, compared, and written as texts.
use crate::saved::*;
use crate::sym::*;
use rphonetic::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Saved and loaded.
fn loaded<'a, T: Serialize + Deserialize<'a>>(x: &T, named: bool) -> T {
    let t: &'static Tree = keep(x.serialize(Save(named)).unwrap());
    note!("saved", t);
    T::deserialize(Load(t, named)).unwrap()
}
fn form() -> bool {
    let n = fork(2) == 1;
    note!("by name", n);
    n
}
/// The loaded value is the saved one.
fn kept<'a, T: Serialize + Deserialize<'a> + PartialEq + Clone + Debug>(x: &T, named: bool) -> T {
    let y = loaded(x, named);
    note!("value", x);
    note!("loaded", y);
    law(*x == y);
    law(y.clone() == *x);
    y
}
/// The loaded encoder is the saved one, with the same codes.
fn encoder<'a, T: Serialize + Deserialize<'a> + PartialEq + Clone + Debug + Encoder>(x: &T, named: bool, i: &In) {
    let y = kept(x, named);
    let c = x.encode(&i.s);
    same(&y.encode(&i.s), &c);
    same(&x.clone().encode(&i.s), &c);
}
fn map(s: &[char]) -> [char; 26] {
    let mut m = ['0'; 26];
    for k in 0..26 {
        m[k] = s[k];
    }
    m
}
fn mapping(ts: &[&str]) -> [char; 26] {
    let k = fork(ts.len());
    let mut i = In::new();
    i.tpl(ts[k]);
    note!("mapping", i.s);
    map(&i.c)
}
fn mappings(ms: &[&str], words: &[&str]) {
    let n = form();
    let k = fork(3);
    let m = mapping(ms);
    let i = one_of(words);
    match k {
        0 => encoder(&Soundex::new(m, true), n, &i),
        1 => encoder(&Soundex::new(m, false), n, &i),
        _ => encoder(&RefinedSoundex::new(m), n, &i),
    }
}
const LIMITS: [usize; 12] = [0, 1, 2, 3, 4, 5, 6, 10, 255, 256, usize::MAX - 1, usize::MAX];
fn limits(words: &[&str]) {
    let n = form();
    let k = fork(5);
    let l = LIMITS[fork(if k == 4 { 10 } else { 12 })];
    note!("limit", l);
    let i = one_of(words);
    match k {
        0 => encoder(&Metaphone::new(Some(l)), n, &i),
        1 => {
            let d = DoubleMetaphone::new(Some(l));
            encoder(&d, n, &i);
            let e: DoubleMetaphone = loaded(&d, n);
            same(&e.encode_alternate(&i.s), &d.encode_alternate(&i.s));
            law(e.double_metaphone(&i.s) == d.double_metaphone(&i.s));
        }
        2 => encoder(&Metaphone::new(None), n, &i),
        3 => encoder(&DoubleMetaphone::new(None), n, &i),
        _ => encoder(&Phonex::new(l), n, &i),
    }
}
fn plain(words: &[&str]) {
    let n = form();
    let k = fork(6);
    let i = one_of(words);
    match k {
        0 => encoder(&Nysiis::new(true), n, &i),
        1 => encoder(&Nysiis::new(false), n, &i),
        2 => encoder(&Caverphone1, n, &i),
        3 => encoder(&Caverphone2, n, &i),
        4 => encoder(&Cologne, n, &i),
        _ => {
            let m: MatchRatingApproach = kept(&MatchRatingApproach, n);
            same(&m.encode(&i.s), &MatchRatingApproach.encode(&i.s));
            law(m.is_encoded_equals(&i.s, "schmidt") == MatchRatingApproach.is_encoded_equals(&i.s, "schmidt"));
        }
    }
}
fn results(words: &[&str]) {
    let n = form();
    let l = [None, Some(0), Some(3), Some(99)][fork(4)];
    let i = one_of(words);
    let r = DoubleMetaphone::new(l).double_metaphone(&i.s);
    let q = kept(&r, n);
    same(&q.primary(), &r.primary());
    same(&q.alternate(), &r.alternate());
    same(&q.to_string(), &format!("[primary={}, alternate={}]", r.primary(), r.alternate()));
}
fn texts(ts: &[&str]) {
    let n = form();
    let i = one_of(ts);
    let c = CharSequence::from(i.s.as_str());
    let c: CharSequence<'static> = unsafe { std::mem::transmute(c) };
    let d = kept(&c, n);
    law(d.len() == i.c.len());
    same(d.as_str(), &i.s);
    if !i.c.is_empty() {
        same(&d[1..], &c[1..]);
        same(&d[..1], &string(&i.c[..1]));
    }
    std::mem::forget(i);
}
fn sets(ts: &[&str]) {
    let n = form();
    let k = fork(4);
    let (a, b) = (one_of(ts), one_of(ts));
    let s = match k {
        0 => LanguageSet::Any,
        1 => LanguageSet::NoLanguages,
        2 => LanguageSet::from(vec![a.s.as_str()]),
        _ => LanguageSet::from(vec![a.s.as_str(), b.s.as_str()]),
    };
    let t = kept(&s, n);
    law(t.is_singleton() == s.is_singleton());
    law(t.is_empty() == s.is_empty());
    same(&t.to_string(), &s.to_string());
    law((s == LanguageSet::from(vec![b.s.as_str()])) == ((k == 2 || k == 3) && a.s == b.s));
}
fn errors(ts: &[&str]) {
    let n = form();
    let (a, b) = (one_of(ts), one_of(ts));
    let line_number = LIMITS[fork(12)];
    let filename = if fork(2) == 1 { Some(a.s.clone()) } else { None };
    let e = ParseError { line_number, filename, line_content: b.s.clone(), description: a.s };
    let f = kept(&e, n);
    law(f.line_number == line_number);
    law(f.filename == e.filename);
    same(&f.line_content, &b.s);
    let want = format!("{}:{} {} : {}", f.filename.as_deref().unwrap_or("Unknown"), line_number, f.description, b.s);
    same(&e.to_string(), &want);
    same(&f.to_string(), &want);
    same(&PhoneticError::ParseRuleError(e).to_string(), &format!("Error parsing rule file {want}"));
}
struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = self.0.rotate_left(5) ^ *b as u64;
        }
    }
}
/// Equality, order and hash of two values belong together.
fn agree<T: Ord + Hash + Clone>(a: &T, b: &T, eq: bool) {
    law((a == b) == eq);
    law((b == a) == eq);
    law((a.cmp(b) == Ordering::Equal) == eq);
    law(a.cmp(b) == b.cmp(a).reverse());
    law(a.partial_cmp(b) == Some(a.cmp(b)));
    if eq {
        let (mut x, mut y) = (Sum(1), Sum(1));
        a.hash(&mut x);
        b.hash(&mut y);
        law(x.0 == y.0);
    }
}
fn orders(ms: &[&str]) {
    let (a, b) = (mapping(ms), mapping(ms));
    let (h, i) = (fork(2) == 1, fork(2) == 1);
    let eq = (0..26).all(|k| a[k] == b[k]);
    agree(&RefinedSoundex::new(a), &RefinedSoundex::new(b), eq);
    agree(&Soundex::new(a, h), &Soundex::new(b, i), eq && h == i);
    agree(&Nysiis::new(h), &Nysiis::new(i), h == i);
}
fn limit_orders() {
    let (h, i) = (fork(2) == 1, fork(2) == 1);
    let (x, y) = (LIMITS[fork(12)], LIMITS[fork(12)]);
    agree(&Phonex::new(x), &Phonex::new(y), x == y);
    let l = |h, x| if h { Some(x) } else { None };
    agree(&Metaphone::new(l(h, x)), &Metaphone::new(l(i, y)), l(h, x) == l(i, y));
    agree(&DoubleMetaphone::new(l(h, x)), &DoubleMetaphone::new(l(i, y)), l(h, x) == l(i, y));
}
fn text_orders(ts: &[&str]) {
    let (s, t) = (one_of(ts), one_of(ts));
    let (p, q) = (CharSequence::from(s.s.as_str()), CharSequence::from(t.s.as_str()));
    agree(&p, &q, s.s == t.s);
}
fn set_orders(ts: &[&str]) {
    let (a, b) = (one_of(ts), one_of(ts));
    let set = |k: usize, i: &In| match k {
        0 => LanguageSet::Any,
        1 => LanguageSet::NoLanguages,
        2 => LanguageSet::from(vec![i.s.as_str()]),
        _ => LanguageSet::from(vec![i.s.as_str(), "b"]),
    };
    let (k, m) = (fork(4), fork(4));
    let of = |k: usize, i: &In| match k {
        0 | 1 => vec![],
        2 => vec![i.s.clone()],
        _ if i.s == "b" => vec![i.s.clone()],
        _ => vec!["b".to_string(), i.s.clone()],
    };
    let same_list = of(k, &a) == of(m, &b);
    agree(&set(k, &a), &set(m, &b), (k == m || k.min(m) >= 2) && same_list);
    for t in NAME {
        for u in NAME {
            agree(&t.1, &u.1, t.0 == u.0);
        }
    }
}
/// Settings that differ make values that differ.
fn equality(ms: &[&str]) {
    let (a, b) = (mapping(ms), mapping(ms));
    let (h, i) = (fork(2) == 1, fork(2) == 1);
    let eq = (0..26).all(|k| a[k] == b[k]);
    law((RefinedSoundex::new(a) == RefinedSoundex::new(b)) == eq);
    law((Soundex::new(a, h) == Soundex::new(b, i)) == (eq && h == i));
    let (x, y) = (LIMITS[fork(12)], LIMITS[fork(12)]);
    law((Phonex::new(x) == Phonex::new(y)) == (x == y));
    law((Metaphone::new(Some(x)) == Metaphone::new(Some(y))) == (x == y));
    law((DoubleMetaphone::new(Some(x)) == DoubleMetaphone::new(Some(y))) == (x == y));
    law(Metaphone::new(None) != Metaphone::new(Some(x)));
    law((Nysiis::new(h) == Nysiis::new(i)) == (h == i));
}
const NAME: [(&str, NameType); 3] = [("ash", NameType::Ashkenazi), ("gen", NameType::Generic), ("sep", NameType::Sephardic)];
/// The texts of the types of names.
fn types(ts: &[&str]) {
    for (s, t) in NAME {
        same(&t.to_string(), s);
        for n in [false, true] {
            law(kept(&t, n) == t);
            law(matches!(t.serialize(Save(n)), Ok(Tree::Variant(_, x, _)) if x == s));
        }
    }
    for t in [RuleType::Approx, RuleType::Exact] {
        for n in [false, true] {
            law(kept(&t, n) == t);
        }
    }
    let i = one_of(ts);
    let want = NAME.iter().find(|x| x.0 == i.s).map(|x| x.1);
    match i.s.parse::<NameType>() {
        Ok(t) => law(Some(t) == want),
        Err(BMError::UnknownNameType(x)) => {
            law(want.is_none());
            same(&x, &i.s);
        }
        Err(_) => law(false),
    }
    let name = std::ffi::OsString::from(i.s.clone());
    let want = NAME.iter().find(|x| i.s == format!("{}_languages.txt", x.0)).map(|x| x.1);
    match NameType::try_from(name) {
        Ok(t) => law(Some(t) == want),
        Err(BMError::UnknownNameType(x)) => {
            law(want.is_none());
            same(&x, &i.s);
        }
        Err(_) => law(false),
    }
}

entries! {
    v01_mappings => { mappings(&["?1230120022455012623010202", "$[01]2?0120022455012623010202", "012301200224550126230102~2"], &["?", "a??", "w%?"]) }
    v01_limits => { limits(&["", "???", "tch?"]) }
    v01_plain => { plain(&["", "???", "%?"]) }
    v01_results => { results(&["", "??", "?ch?", "j%?"]) }
    v01_texts => { texts(&["", "#", "$$", "*"]) }
    v01_sets => { sets(&["", "??", "$", "any"]) }
    v01_errors => { errors(&["", "#?", "~"]) }
    v01_equality => { equality(&["?1230120022455012623010202", "01230?20022455012623010202", "012301200224550126230102~[23]"]) }
    v01_orders => { orders(&["?1230120022455012623010202", "012301200224550126230102~[23]"]) }
    v01_limit_orders => { limit_orders() }
    v01_text_orders => { text_orders(&["", "?", "%"]) }
    v01_set_orders => { set_orders(&["?", "[ab]?", "%"]) }
    v01_types => { types(&["", "$", "##", "###", "####", "[ags][se][hnp]", "[ags][se][hnp]_languages.tx?", "#sep", "gen#", "ash_languages.txt#"]) }
    v01_t_mappings => { mappings(&["$$230120022455012623010202", "01230?20022455?12623010?0?"], &["???", "a%??", "#w??h#"]) }
    v01_t_limits => { limits(&["?????", "%???", "##"]) }
    v01_t_plain => { plain(&["??????", "%????"]) }
    v01_t_results => { results(&["????", "?ch???"]) }
    v01_t_types => { types(&["~~~", "ash$", "$gen", "#sep#", "sep_languages.###"]) }
}
