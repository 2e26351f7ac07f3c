//! Double Metaphone.
use crate::refs::dmetaphone::code;
use crate::sym::*;
use rphonetic::*;

fn cut(s: &str, n: Option<usize>) -> String {
    match n {
        Some(n) => s.chars().take(n).collect(),
        None => s.into(),
    }
}
/// Both codes, of every way to ask for them.
fn dm(max: Option<usize>, ts: &[&str]) {
    dm_in(max, one_of(ts))
}
fn dm_in(max: Option<usize>, i: In) {
    let e = if max == Some(4) { DoubleMetaphone::default() } else { DoubleMetaphone::new(max) };
    let r = e.double_metaphone(&i.s);
    let (p, a) = code(&i.s);
    same(&r.primary(), &cut(&p, max));
    same(&r.alternate(), &cut(&a, max));
}
/// A limit cuts the codes, it does not change them; all the functions agree with each other.
fn limits(ts: &[&str]) {
    let n = fork(8);
    limits_of(n, one_of(ts))
}
fn limits_of(n: usize, i: In) {
    note!("maximum", n);
    let all = DoubleMetaphone::new(None).double_metaphone(&i.s);
    let e = DoubleMetaphone::new(Some(n));
    let r = e.double_metaphone(&i.s);
    same(&r.primary(), &cut(&all.primary(), Some(n)));
    same(&r.alternate(), &cut(&all.alternate(), Some(n)));
    same(&e.encode(&i.s), &r.primary());
    same(&e.encode_alternate(&i.s), &r.alternate());
}
/// Limits no code ever reaches.
const HUGE: &[usize] = &[11, 12, 1000, 100_000, isize::MAX as usize, usize::MAX - 1, usize::MAX];
fn equality(max: Option<usize>, a: &[&str], b: &[&str]) {
    let e = if max == Some(4) { DoubleMetaphone::default() } else { DoubleMetaphone::new(max) };
    let (i, j) = (one_of(a), one_of(b));
    equality_of(&e, i, j)
}
fn equality_of(e: &DoubleMetaphone, i: In, j: In) {
    let (x, y) = (e.double_metaphone(&i.s), e.double_metaphone(&j.s));
    let p = x.primary() == y.primary();
    let q = x.alternate() == y.alternate();
    out(&[p as u8, q as u8]);
    law(e.is_double_metaphone_equal(&i.s, &j.s, false) == p);
    law(e.is_double_metaphone_equal(&i.s, &j.s, true) == q);
    law(e.is_double_metaphone_equal(&j.s, &i.s, true) == q);
    law(e.is_encoded_equals(&i.s, &j.s) == p);
}
fn shown(ts: &[&str]) {
    let i = one_of(ts);
    let r = DoubleMetaphone::default().double_metaphone(&i.s);
    let mut w = String::from("[primary=");
    w.push_str(&r.primary());
    w.push_str(", alternate=");
    w.push_str(&r.alternate());
    w.push(']');
    same(&r.to_string(), &w);
}

const STARTS: &[&str] = &[
    "gn??", "kn??", "pn??", "wr??", "ps??", "caesar??", "cz???", "chae??", "ch???", "harac?", "charac??", "chari?", "charis??", "chor??", "chore?", "chym??", "chia??", "chem??", "ae??", "san jose?", "jose", "jose??",
    "jo?e?", "sugar??", "suga?", "sch???", "sm??", "sn??", "sl??", "sw??", "wh???", "w???", "arch???", "archit?", "orches?", "orchid?", "von ch??", "van ch??", "sch?o??", "x???", "y?g??",
    "g????", "gi???", "ges??", "ger??", "gn???", "mac?c??", "mcc??", "mcg??", "hug?e?", "h??gh?", "b??gh??", "isl??", "yslk?", "san ???", "van ?g??", "von ?t??", "sh???", "z????",
];
const INSIDE: &[&str] = &[
    "?ach??", "?ache?", "bacher?", "macher?", "?czar?", "?wicz?", "??witz", "?witz?", "?cia?", "?acc??", "accid?", "bellocchi?", "?bacci?", "bertucci?", "?ccee?", "uccee?", "ucces?", "?ucc??", "?ck??", "?cq??", "?cg??", "?ci??", "?cio?", "?cie?", "?c c??", "?c q?", "?c g?",
    "?dge??", "?dg??", "?dt??", "?dd??", "?d?d?", "?gh??", "??gh?", "laugh?", "?ough?", "l?ugh??", "c?ugh?", "g?ugh?", "r?ugh?", "t?ugh?", "?agh??", "?igh??", "?gn??", "??gney?", "?gli??", "tagli?", "?danger?", "?ranger?", "?manger?", "?rgy??", "?ogy??", "?ger??", "?aggi?", "?oggi?",
    "van g?t?", "?get?", "?gier", "?gg??", "?gy??",
];
const INSIDE2: &[&str] = &[
    "?h?h?", "?hh??", "?jj??", "?ja??", "?jo??", "?j???", "aj??", "?aji?", "?ill?", "?illo", "?illa", "?alle", "??lles", "?allos", "c?b?illo", "?ll??", "?mm??", "dumb?", "thumb?", "?umber", "?umb??", "?ph??", "?pb??", "?pp??", "?qq??", "rogier", "?ogier", "?ier", "?mier", "?amaier", "??eier", "hochmeier", "?rr??",
    "isl???", "?isl?", "?ysl?", "?sh??", "?sheim", "?shoek", "?sholm", "?sholz", "?sio?", "?sia?", "?sian?", "?sz??", "?sch??", "?schoo?", "?scher?", "?schen?", "?schuy?", "?sched?", "?schem?", "schn??", "?sci??", "?sce??", "?sc??", "resnais", "?ais", "?ois", "??ais?", "?ss??",
    "?tion?", "?tia?", "?tch?", "?th??", "?tth?", "thomas?", "tham?", "?thom?", "?tham?", "van th?", "sch?th", "?tt??", "?td??",
    "?wr??", "?w???", "arnow?", "filipowicz?", "??witz", "?ewski", "?owsky", "?ewsky?", "?owski?", "sch?w??", "?x", "??iaux", "??eaux", "?aux", "?oux", "breaux?", "?xc??", "?xx??", "?zh??", "?zo??", "?zi?", "?za?", "?zz??", "?tz??",
];

const F1: &[&str] = &["12", "?12", "12?", "1?2"];
const FT: &[&str] = &["1?2?", "1??2", "?1?2", "121", "aeaeae12?", "bdbd1?2"];
const FRAGS: &[&str] = &[
    "gn", "kn", "pn", "wr", "ps", "a", "e", "i", "o", "y", "b", "ç", "caesar", "ach", "bacher", "macher", "chae", "harac", "haris", "hor", "hym", "hia", "hem", "chore", "van ", "von ", "sch", "orches", "archit", "orchid", "t", "mc", "cz", "wicz", "cia", "cc",
    "uccee", "ck", "cie", "c", "dge", "dt", "d", "f", "gh", "ough", "gney", "li", "gier", "danger", "ranger", "manger", "rgy", "ogy", "aggi", "gg", "h", "jose", "san ", "j", "illo", "illa", "alle", "as", "os", "l", "umber", "m", "n", "ñ", "ph", "p",
    "ier", "me", "ma", "r", "isl", "ysl", "sugar", "heim", "sh", "sio", "sian", "sz", "schoo", "scher", "ais", "ois", "s", "tion", "tia", "tch", "th", "tth", "thom", "w", "wh", "wicz", "witz", "ewski", "owsky", "eau", "iau", "x", "z", "zo", "zh", "&", " ",
];

const LONGS: &[(&str, &str, &str)] = &[("?", "a", "??"), ("?", "btk", "?"), ("?", "gh", "?"), ("w", "sch", "??"), ("?", "h", "cz?")];

entries! {
    d02_names => { let n = [1, 3, 4, 6][fork(4)]; limits_of(n, changed(NAMES, &["?"], &[0, 1])) }
    d02_t_lengths => { let n = [5, 16, 31, 64, 255][fork(5)]; limits_of(n, long(LONGS, &[15, 64, 127, 300])) }
    d02_lengths => { let n = [16, 255][fork(2)]; limits_of(n, long(LONGS, &[64, 300])) }
    d02_equal_names => { let (i, j) = changed_pair(NAMES, &["?"], &[0, 1]); equality_of(&DoubleMetaphone::default(), i, j) }
    d02_t_names => { let n = fork(12); limits_of(n, changed(NAMES, &["?"], &[0, 1])) }
    d02_t_equal_names => { let (i, j) = changed_pair(NAMES, &["??"], &[0, 1, 2]); equality_of(&DoubleMetaphone::new(None), i, j) }
    d01_names => { dm_in(None, changed(NAMES, &["?"], &[0, 1])) }
    d01_lengths => { dm_in(None, long(LONGS, LONG)) }
    d01_t_names => { dm_in(None, changed(NAMES, &["??", "%", "&?"], &[0, 1, 2])) }
    d01_t_lengths => { dm_in(None, long(LONGS, LONG_T)) }
    d01_pairs => { dm_in(None, pair_of(F1, FRAGS)) }
    d01_t_pairs => { dm_in(None, pair_of(FT, FRAGS)) }
    d01_short => { dm(Some(4), &["", "#", "##", "@@@"]) }
    d01_words => { dm(None, &["", "????"]) }
    d01_starts => { dm(None, STARTS) }
    d01_inside => { dm(None, INSIDE) }
    d01_inside2 => { dm(None, INSIDE2) }
    d01_unicode => { dm(None, &["*", "*?", "?~?", "%%", "%??", "??%", "c%?", "s%h?"]) }
    d01_signs => { dm(None, &["?&?", "& ??&", "@&@@", "?c &??", "v?n ??"]) }
    d01_long => { dm(None, &["bababababa??", "??tststststs??", "ababababababababababababababababab??"]) }
    d01_t_words => { dm(None, &["?????"]) }
    d01_t_four => { dm(Some(4), &["?????"]) }
    d01_t_mixed => { dm(None, &["###", "####", "?~?~", "?sch???", "?ch????", "?gh????", "?gg???", "?ier??", "j????", "?ill??", "bababa????", "w?????"]) }
    d02_limits => { limits(&["", "#", "???", "*", "&??", "?x?x?"]) }
    d02_huge => { let n = HUGE[fork(HUGE.len())]; limits_of(n, one_of(&["", "??", "?ch?", "%?", "jose?", "xaxaxax?"])) }
    d02_long => { limits(&["xaxaxa??", "?ch?sch", "tatatata??", "agnagnagn?", "??d?"]) }
    d02_equality => { equality(Some(4), &["", "?", "??", "?ch"], &["", "?c", "%"]) }
    d02_whole => { equality(None, &["?ch?", "babababa?"], &["?", "babababa?", "?sch"]) }
    d02_shown => { shown(&["", "?", "???", "sch??", "&?"]) }
    d02_t_limits => { limits(&["????", "?ch?sch?", "?tatatatata?", "?????", "sch???", "?~?~", "???????a"]) }
    d02_t_equality => { equality(Some(4), &["???", "????", "babababa?"], &["???", "sch?", "babababa??"]) }
}
