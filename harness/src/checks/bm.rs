//! Beider-Morse.
use crate::dir::Dir;
use crate::refs::bm;
use crate::sym::*;
use rphonetic::*;

const KIND: [NameType; 3] = [NameType::Ashkenazi, NameType::Generic, NameType::Sephardic];

fn run(c: &ConfigFiles, r: &bm::Config, kind: usize, exact: bool, concat: bool, max: usize, s: &str) {
    let rt = if exact { RuleType::Exact } else { RuleType::Approx };
    let e = BeiderMorseBuilder::new(c).name_type(KIND[kind]).rule_type(rt).concat(concat).max_phonemes(max).build();
    let o = bm::Options { kind, exact, concat, max };
    note!("options", (KIND[kind], rt, concat, max));
    let got = e.encode(s);
    same(&got, &r.encode(&o, s));
}
fn config(f: bm::Files) -> bm::Config {
    match bm::Config::new(f) {
        Ok(c) => c,
        Err(_) => panic!("these files are well-formed"),
    }
}
fn embedded() -> (&'static ConfigFiles, &'static bm::Config) {
    (keep(ConfigFiles::default()), keep(config(bm::EMBEDDED)))
}
/// A configuration read from these files.
fn from_files(f: bm::Files) -> (&'static ConfigFiles, &'static bm::Config) {
    let v: Vec<(&str, &[u8])> = f.iter().map(|(n, c)| (*n, c.as_bytes())).collect();
    let d = Dir::new(&v);
    (keep(ConfigFiles::new(&d.path).unwrap()), keep(config(f)))
}


/// The patterns of the rules of these tables, each once.
fn patterns(r: &bm::Config, tables: &[&str], least: usize) -> &'static Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for t in tables {
        for p in r.patterns(t) {
            if p.chars().count() >= least && !v.contains(&p) {
                v.push(p);
            }
        }
    }
    keep(v)
}
const RULES: [&str; 3] = ["ash_rules_any", "gen_rules_any", "sep_rules_any"];

/// Every pattern, with these surroundings.
fn around(exact: bool, forms: &[&str], kinds: usize, least: usize) {
    let (c, r) = embedded();
    let k = fork(kinds);
    let kind = (k + 1) % 3;
    let all = [patterns(r, &RULES[..1], least), patterns(r, &RULES[1..2], least), patterns(r, &RULES[2..], least)];
    let f = fork(forms.len());
    let i = with_pattern(forms[f], all[kind]);
    run(c, r, kind, exact, true, 20, &i.s);
}
fn with_pattern(form: &str, ps: &[String]) -> In {
    let mut i = In::new();
    let p = &ps[fork_many(ps.len())];
    let (a, b) = form.split_once('1').unwrap();
    i.tpl(a);
    i.lit(p);
    i.tpl(b);
    note!("input", i.s);
    i
}
fn words(exact: bool, ts: &[&str]) {
    words_of(exact, || one_of(ts))
}
const FEW: &[&str] = &[
    "schwarz", "mcdonough", "o'connor", "rodriguez", "filipowicz", "przybyla", "tchaikov", "giordano", "d'angelo", "chauchat", "goldschmidt", "yitzhak", "ben tzadok", "guillermo", "quigley",
];
fn words_of(exact: bool, i: impl FnOnce() -> In) {
    let (c, r) = embedded();
    let kind = fork(3);
    let i = i();
    run(c, r, kind, exact, true, 20, &i.s);
}

/// All rules, and the languages guessed.
fn guessed(kinds: &[usize], exact: bool, ts: &[&str]) {
    guessed_of(kinds, exact, || one_of(ts))
}
fn guessed_of(kinds: &[usize], exact: bool, i: impl FnOnce() -> In) {
    let (c, r) = from_files(bm::ALL);
    let kind = kinds[fork(kinds.len())];
    let i = i();
    run(c, r, kind, exact, true, 20, &i.s);
}
/// All rules, and given languages.
fn given(ts: &[&str], sets: &[&[&str]]) {
    given_of(|| one_of(ts), sets, true, 20)
}
fn given_of(i: impl FnOnce() -> In, sets: &[&[&str]], concat: bool, max: usize) {
    let (c, r) = from_files(bm::ALL);
    let kind = fork(3);
    let exact = fork(2) == 1;
    let set = sets[fork(sets.len())];
    let l = r.set(set) & r.languages(kind);
    // a language must be one of the configuration
    assume(set.iter().all(|n| r.languages(kind) & r.set(&[n]) != 0));
    let i = i();
    let rt = if exact { RuleType::Exact } else { RuleType::Approx };
    let e = BeiderMorseBuilder::new(c).name_type(KIND[kind]).rule_type(rt).concat(concat).max_phonemes(max).build();
    let o = bm::Options { kind, exact, concat, max };
    note!("languages", set);
    note!("options", (KIND[kind], rt));
    same(&e.encode_with_languages(&i.s, &LanguageSet::from(set.to_vec())), &r.encode_with(&o, &i.s, Some(l)));
    same(&e.encode_with_languages(&i.s, &LanguageSet::Any), &r.encode_with(&o, &i.s, None));
}

/// What the guessing rules of a kind look for, as templates.
fn hints(kind: usize) -> &'static Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let name = format!("{}_lang.txt", bm::KINDS[kind]);
    let text = bm::ALL.iter().find(|f| f.0 == name).unwrap().1;
    for l in text.lines() {
        let mut w = l.split(' ');
        let (p, _, t) = (w.next().unwrap_or(""), w.next(), w.next());
        if !matches!(t, Some("true" | "false")) || p.contains(['(', '*', '.', '+', '\\']) || p.contains("[^") {
            continue;
        }
        let t: String = p.chars().filter(|c| *c != '^' && *c != '$').collect();
        if !v.contains(&t) {
            v.push(t);
        }
    }
    keep(v)
}
fn hinted(kinds: &[usize], forms: &[&str]) {
    let (c, r) = from_files(bm::ALL);
    let h = keep([hints(0), hints(1), hints(2)]);
    let kind = kinds[fork(kinds.len())];
    let form = forms[fork(forms.len())];
    let h = h[kind];
    let mut i = In::new();
    i.tpl(&form.replace('1', &h[fork_many(h.len())]));
    note!("input", i.s);
    run(c, r, kind, true, true, 20, &i.s);
}
/// The rules of every single language.
fn each(kinds: &[usize], exact: usize, forms: &[&str], least: usize) {
    let (c, r) = from_files(bm::ALL);
    let mut v: Vec<(usize, &str, Vec<String>)> = Vec::new();
    for kind in kinds {
        for l in r.list(r.languages(*kind)) {
            let t = format!("{}_rules_{l}", bm::KINDS[*kind]);
            let mut p = r.patterns(&t);
            p.dedup();
            p.retain(|p| p.chars().count() >= least);
            if !p.is_empty() {
                v.push((*kind, l, p));
            }
        }
    }
    let v = keep(v);
    let (kind, l, ps) = &v[fork(v.len())];
    let exact = exact == 1 || (exact == 2 && fork(2) == 1);
    let i = with_pattern(forms[fork(forms.len())], ps);
    let rt = if exact { RuleType::Exact } else { RuleType::Approx };
    let e = BeiderMorseBuilder::new(c).name_type(KIND[*kind]).rule_type(rt).build();
    let o = bm::Options { kind: *kind, exact, concat: true, max: 20 };
    note!("language", l);
    note!("options", (KIND[*kind], rt));
    same(&e.encode_with_languages(&i.s, &LanguageSet::from(vec![*l])), &r.encode_with(&o, &i.s, Some(r.set(&[l]))));
}

const MAX: [usize; 10] = [20, 1, 2, 3, 0, 5, 64, 1000, isize::MAX as usize, usize::MAX];
fn options(ts: &[&str], from: usize, to: usize) {
    options_of(|| one_of(ts), from, to)
}
fn options_of(i: impl FnOnce() -> In, from: usize, to: usize) {
    let (c, r) = embedded();
    let kind = fork(3);
    let (exact, concat) = (fork(2) == 1, fork(2) == 1);
    let max = MAX[from + fork(to - from)];
    let i = i();
    run(c, r, kind, exact, concat, max, &i.s);
}
/// Words that are prefixes of names.
fn prefixes(forms: &[&str]) {
    let (c, r) = embedded();
    let kind = fork(3);
    let concat = fork(2) == 1;
    const P: [&str; 24] = [
        "da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von", "bar", "ben", "al", "el", "d'", "Van", "DE", "den", "le",
        "d'al",
    ];
    let i = pair_of(forms, &P);
    run(c, r, kind, true, concat, 20, &i.s);
}

// ---- Configurations of few rules

/// The files of a small configuration: languages `any`, `xx`, `yy`, no rules but these.
fn small<'a>(langs: &'a [&'a str], more: &[(&'a str, &'a str)]) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = Vec::with_capacity(64);
    for k in bm::KINDS {
        let l = if k == "gen" { langs } else { &["any"] };
        v.push((format!("{k}_languages.txt"), l.join("\n")));
        v.push((format!("{k}_lang.txt"), String::new()));
        for r in ["approx", "exact", "rules"] {
            for n in l.iter().copied().chain(["common"]) {
                if r != "rules" || n != "common" {
                    v.push((format!("{k}_{r}_{n}.txt"), String::new()));
                }
            }
        }
    }
    for (n, c) in more {
        match v.iter().position(|f| f.0 == *n) {
            Some(k) => v[k].1 = c.to_string(),
            None => v.push((n.to_string(), c.to_string())),
        }
    }
    v
}
/// Reads them; the result is the expected one. Both configurations if they are well-formed.
fn load(v: &[(String, String)]) -> Option<(ConfigFiles, bm::Config)> {
    let f: Vec<(&str, &[u8])> = v.iter().map(|(n, c)| (n.as_str(), c.as_bytes())).collect();
    let d = Dir::new(&f);
    let got = ConfigFiles::new(&d.path);
    let f: Vec<(&str, &str)> = v.iter().map(|(n, c)| (n.as_str(), c.as_str())).collect();
    note!("result", got.as_ref().err());
    match (got, bm::Config::new(&f)) {
        (Ok(a), Ok(b)) => {
            out(b"ok");
            Some((a, b))
        }
        (Err(PhoneticError::ParseRuleError(e)), Err(bm::Bad::Line(file, n, l))) => {
            note!("expected", (&file, n, &l));
            out(e.line_content.as_bytes());
            law(e.line_number == n);
            same(&e.line_content, &l);
            match e.filename {
                None => law(file.is_empty()),
                Some(f) => law(!file.is_empty() && f.ends_with(&file)),
            }
            None
        }
        (Err(PhoneticError::BMError(_)), Err(bm::Bad::Other)) => {
            out(b"other");
            None
        }
        (_, _e) => {
            note!("expected to be well-formed", _e.is_ok());
            law(false);
            None
        }
    }
}
/// A file of this content, in an otherwise good configuration.
fn content(file: &str, ts: &[&str]) {
    content_of(file, one_of(ts))
}
/// Lines of each kind of files, good and bad ones.
const RULE_LINES: &[&str] = &[
    "", "// ?", "\"a\" \"b\" \"\" \"(c|d)\" // x", "/[*] x\ny [*]/", "[#]include good", "[#]include empty", "[#]include two", "[#]include nope", "\"a\" \"\"", "?", "\"\" \"\" \"\" \"\"", "\"a\" \"\" \"\" \"(b\"",
    "\"a\" \"(b[[]c]\" \"\" \"b\"", "\"a\" \"\" \"\" \"b[[]x]c\"",
];
const GUESS_LINES: &[&str] = &["", "//", "a any true", "[[]ab][$] any+xx false // z", "/[*] x\ny [*]/", "? ", "a any [tT]rue", "a any false x", "(a any true", "a  true", "a any fals", "a any true\r", "A any TRUE"];
const LIST_LINES: &[&str] = &["", "any", "// ?", "/[*] \n[*]/", "any // z", "an1", "[xy]", "any any", "é", "any\r", "\tany"];
fn content_of(file: &str, i: In) {
    let v = small(&["any"], &[(file, &i.s), ("two.txt", "\n#include worse\n"), ("empty.txt", "\n\n"), ("good.txt", "\"a\" \"\" \"\" \"b\"\n"), ("bad.txt", "\n\"a\" \"[\" \"\" \"b\"\n"), ("worse.txt", "//\n?\n")]);
    load(&v);
}
/// A file that is no text at all.
fn bytes() {
    let mut v = small(&["any", "xx"], &[]);
    v.retain(|f| !f.0.starts_with("ash_") || f.0.contains("lang"));
    let k = fork(v.len());
    let mut f: Vec<(&str, &[u8])> = v.iter().map(|(n, c)| (n.as_str(), c.as_bytes())).collect();
    let odd: [u8; 4] = [b'/', b'/', 128 + pick(128) as u8, b'\n'];
    f[k].1 = &odd;
    let d = Dir::new(&f);
    // no byte above 127 is a character of its own
    law(matches!(ConfigFiles::new(&d.path), Err(PhoneticError::BMError(_))));
}
/// Files that are not part of the configuration do not matter.
fn extra(names: &[&str], ws: &[&str]) {
    let mut n = In::new();
    n.tpl(names[fork(names.len())]);
    note!("file", n.s);
    let text = ["any\nxx\n", "?", "\"a\"", ""][fork(4)];
    let mut v = small(&["any"], &[("gen_rules_any.txt", "\"a\" \"\" \"\" \"(b|c)\"\n")]);
    for f in &v {
        assume(f.0 != n.s);
    }
    if fork(2) == 1 {
        v.insert(0, (n.s, text.into()));
    } else {
        v.push((n.s, text.into()));
    }
    match load(&v) {
        Some((c, r)) => {
            let w = one_of(ws);
            run(&c, &r, 1, true, true, 20, &w.s)
        }
        None => law(false),
    }
}
/// One of the files is missing.
fn missing() {
    let mut v = small(&["any", "xx"], &[]);
    v.remove(fork(v.len()));
    load(&v);
}

/// Words encoded with symbolic rules.
fn custom(rules: &[&str], ws: &[&str]) {
    custom_in(one_of(rules), ws)
}
fn custom_in(i: In, ws: &[&str]) {
    let parts: Vec<&str> = i.s.split("==\n").collect();
    let mut more = vec![("gen_rules_any.txt", parts[0])];
    for (k, n) in ["gen_exact_common.txt", "gen_exact_any.txt"].into_iter().enumerate() {
        if k + 1 < parts.len() {
            more.push((n, parts[k + 1]));
        }
    }
    more.push(("two.txt", "\"a\" \"\" \"\" \"two\"\n#include inc\n\"c\" \"b\" \"\" \"0\"\n"));
    more.push(("x.txt", "/* nothing\n */\n\"c\" \"\" \"\" \"xx\"\n"));
    more.push(("ctx.txt", "\"c\" \"b\" \"\" \"k\"\n\"b\" \"\" \"b\" \"l\"\n\"b\" \"\" \"[ac]\" \"m\"\n"));
    more.push(("cty.txt", "\"c\" \"\" \"[ab]\" \"o\"\n#include ctx\n\"b\" \"b\" \"\" \"p\"\n"));
    for n in ["é.txt", "日1.txt", "x-1_ж.txt", "X.txt"] {
        more.push((n, "\"b\" \"\" \"\" \"name\"\n"));
    }
    more.push(("inc.txt", "\"b\" \"\" \"\" \"inc\"\n\"c\" \"\" \"\" \"(x|y)\"\n"));
    let v = small(&["any"], &more);
    if let Some((c, r)) = load(&v) {
        let w = one_of(ws);
        run(&c, &r, 1, true, true, 20, &w.s);
    }
}
/// Languages guessed and restricted with symbolic rules.
fn guesses(rules: &[&str], ws: &[&str]) {
    guesses_of(one_of(rules), ws)
}
const GUESSES: &[&str] = &["a xx true", "b yy true", "a any+xx true", "^b xx+yy false", "c any+xx+yy false", "[[]ab]c yy+any true", "É xx true", "é yy true", "a zz true", "a any false", "b[$] xx false", "// b xx true"];
fn guesses_of(g: In, ws: &[&str]) {
    let more = [
        ("gen_lang.txt", &g.s[..]),
        ("gen_rules_any.txt", "\"a\" \"\" \"\" \"(1[xx]|2[yy]|3|4[any]|5[xx+yy])\"\n\"b\" \"\" \"\" \"(6[xx]|7)\"\n"),
        ("gen_rules_xx.txt", "\"a\" \"\" \"\" \"(8[xx]|9[any])\"\n"),
        ("gen_rules_yy.txt", "\"a\" \"\" \"\" \"0\"\n"),
        ("gen_exact_xx.txt", "\"8\" \"\" \"\" \"88\"\n"),
        ("gen_exact_common.txt", "\"é\" \"\" \"\" \"e\"\n"),
    ];
    let v = small(&["any", "xx", "yy"], &more);
    if let Some((c, r)) = load(&v) {
        let w = one_of(ws);
        run(&c, &r, 1, true, true, 20, &w.s);
    }
}

// ---- Sets of languages

fn lang_name(k: usize) -> String {
    ["french", "english", "any", "a"][k].to_string()
}
/// A set, as a mask; `None` is any language.
fn lang_set() -> (LanguageSet, Option<usize>) {
    match fork(4) {
        0 => (LanguageSet::Any, None),
        1 => (LanguageSet::NoLanguages, Some(0)),
        2 => {
            let m = fork(16);
            let s: std::collections::BTreeSet<String> = (0..4).filter(|k| m >> k & 1 == 1).map(lang_name).collect();
            (LanguageSet::from(s), Some(m))
        }
        _ => {
            let v = ["english", "french", "english", "a"];
            let m = fork(16);
            let v: Vec<&str> = (0..4).filter(|k| m >> k & 1 == 1).map(|k| v[k]).collect();
            let m = (m & 1 | m >> 2 & 1) << 1 | m >> 1 & 1 | (m >> 3 & 1) << 3;
            (LanguageSet::from(v), Some(m))
        }
    }
}
fn agrees(s: &LanguageSet, m: Option<usize>) {
    law(s.is_empty() == (m == Some(0)));
    law(s.is_singleton() == m.map_or(false, |m| m.count_ones() == 1));
    let sorted = [3usize, 2, 1, 0];
    let names: Vec<String> = match m {
        None => vec![],
        Some(m) => sorted.iter().filter(|k| m >> **k & 1 == 1).map(|k| lang_name(*k)).collect(),
    };
    match s.any() {
        None => law(names.is_empty()),
        Some(n) => {
            law(!names.is_empty());
            same(n, &names[0]);
        }
    }
    match m {
        None => same(&s.to_string(), "ANY_LANGUAGE"),
        Some(0) => {}
        Some(_) => same(&s.to_string(), &names.join(",")),
    }
}
fn sets() {
    let (a, ma) = lang_set();
    let (b, mb) = lang_set();
    agrees(&a, ma);
    let r = match (ma, mb) {
        (a, None) => a,
        (None, b) => b,
        (Some(a), Some(b)) => Some(a & b),
    };
    agrees(&a.restrict_to(&b), r);
    let u = match (ma, mb) {
        (Some(a), Some(b)) => Some(a | b),
        _ => None,
    };
    agrees(&a.merge(&b), u);
}

entries! {
    b01_names => { words_of(false, || changed(FEW, &["?"], &[1])) }
    b01_lengths => { words_of(true, || long(&[("?", "a", ""), ("b", "ltr", "?"), ("?", "a ", "")], &[16, 40, 99])) }
    b01_t_names => { words_of(false, || changed(NAMES, &["?"], &[0, 1])) }
    b01_t_names_exact => { words_of(true, || changed(NAMES, &["?", "%"], &[0, 1, 2])) }
    b03_names => { guessed_of(&[0, 1, 2], true, || changed(FEW, &["?"], &[1])) }
    b03_rules => { guesses_of(lines(2, GUESSES), &["[abcx][abc]", "[ab]É", "é[ac]"]) }
    b03_rules2 => { guesses(&["[ab^?.][*a] xx true\n[xb][$] xx+[xy]y [tf]rue\nb yy+any fals[e]\n", "[ÉAa] xx true\n[^[]a[^bé]x] any true\n"], &["[abx][abcé]", "[ABÉ]"]) }
    b03_t_names => { guessed_of(&[0, 1, 2], true, || changed(NAMES, &["?", "%"], &[0, 1])) }
    b03_rules_more => { guesses_of(lines(3, GUESSES), &["[abcx][abc]", "[ab]É", "é[ac]"]) }
    b04_names => { options_of(|| changed(&["van der berg", "d'al-ben", "de la cruz", "mac-donald o'neil"], &["[- 'ade]"], &[0, 1]), 0, 1) }
    b04_t_names => { options_of(|| changed(NAMES, &["[- 'ade]", "?"], &[0, 1]), 0, 2) }
    b06_words => { given_of(|| one_of(&["? a", "d'?", "de la ?", "?-e", "&a&", "al ?", "o'?"]), &[&["french"], &["german", "english"]], false, 20) }
    b06_concat => { given_of(|| one_of(&["? a", "d'?", "van ?", "?-e", "&a&", "o'?", "a ? b"]), &[&["french"], &["german", "english"]], true, 3) }
    b06_t_names => { given_of(|| changed(FEW, &["?"], &[0, 1]), &[&["french"], &["german", "english"], &["polish", "russian"], &["spanish"]], true, 20) }
    b05_sequence => { content_of("gen_rules_any.txt", lines(2, RULE_LINES)) }
    b05_sequence_guess => { content_of("gen_lang.txt", lines(2, GUESS_LINES)) }
    b05_sequence_list => { content_of("gen_languages.txt", lines(3, LIST_LINES)) }
    b05_edited => { content_of("sep_exact_any.txt", broken(&["// x\n\"ab\" \"[a]\" \"\" \"(c[any]|d)\"\n/* y\n z */\n#include good // z\n\"b\" \"\" \"c$\" \"d\"\n"])) }
    b05_edited_guess => { content_of("ash_lang.txt", broken(&["// x\n^a[bc] any true\n/* y\n z */\nb any+xx false // z\n"])) }
    b05_bytes => { bytes() }
    b05_sequence_more => { content_of("gen_approx_common.txt", lines(3, RULE_LINES)) }
    b05_sequence_guess_more => { content_of("sep_lang.txt", lines(3, GUESS_LINES)) }
    b07_lines => { custom_in(lines(2, &["\"a\" \"\" \"\" \"1\"", "\"a\" \"b\" \"\" \"2\"", "\"b\" \"\" \"a\" \"(3|4)\"", "[#]include inc", "[#]include two", "\"ab\" \"\" \"[$]\" \"5\"", "\"c\" \"[^]\" \"\" \"6\"", "\"b\" \"[[]^a]\" \"\" \"7\"", "\"b\" \"\" \"\" \"(8[any]|9[xx]|)\"", "\"c\" \"ab\" \"b\" \"\""]), &["[abc][abc][abc]"]) }
    b07_edited => { custom_in(broken(&["\"b\" \"^a\" \"[bc]$\" \"1\"\n\"bb\" \"\" \"[^b]\" \"(2|3)\"\n"]), &["[abc]b[abc]", "bb"]) }
    b07_edited2 => { custom_in(broken(&["\"b\" \"(a|^)\" \"[bc]+\" \"\"\n\"b\" \"[ab]a\" \"\" \"x\"\n"]), &["[abc]b[abc]", "aab"]) }
    b01_exact => { words(true, &["?", "??", "[abcdhnsz]??", "@@"]) }
    b01_approx => { words(false, &["?", "??", "[abcdhnsz]??", "@@"]) }
    b01_around_exact => { around(true, &["1?", "?1"], 3, 2) }
    b01_around_approx => { around(false, &["1", "1?", "?1"], 3, 2) }
    b01_text => { words(true, &["", "#", "##", "a#b", "*", "a%", "~?"]) }
    b01_t_exact => { words(true, &["???", "????"]) }
    b01_t_approx => { words(false, &["???", "????"]) }
    b01_t_around_exact => { around(true, &["?1?", "1??", "??1"], 3, 1) }
    b01_t_around_approx => { around(false, &["?1?", "1??", "??1"], 3, 1) }
    b01_t_text => { words(false, &["###", "**", "%?%", "a*b", "~?~"]) }
    b05_extra => { extra(&["gen_language?.txt", "?en_languages.txt", "ge?_languages.txt", "gen_languages.tx?", "gen_languages.txt?", "?gen_languages.txt", "GEN_languages.txt", "gen_languages", "README", "gen_lang.txt.bak", "gen_rules_xx.txt", "xx.txt", "Gen_Languages.TXT", "géen_languages.txt"], &["a", "?a"]) }
    b02_sets => { sets() }
    b03_exact => { guessed(&[1], true, &["?", "??"]) }
    b03_others => { guessed(&[0, 2], false, &["?", "??"]) }
    b03_hints => { hinted(&[0, 1, 2], &["1", "1?", "?1"]) }
    b03_t_words => { guessed(&[0, 1, 2], true, &["???", "@@", "*", "~?", "$$"]) }
    b03_t_approx => { guessed(&[0, 1, 2], false, &["???", "@@", "?&?"]) }
    b03_t_hints => { hinted(&[0, 1, 2], &["?1?", "??1", "1??", "1-1"]) }
    b04_words => { options(&["? [ab]", "?-e", "&a&", "d'?", "'?", "?'?", " ?", "b c ?"], 0, 1) }
    b04_prefixes => { prefixes(&["1 ?", "1-?", "?1", "1", " 1 a", "1 2 b"]) }
    b04_max => { options(&["schwarz?", "?chekow", "wojci?chowski"], 0, 10) }
    b04_t_words => { options(&["? ?", "?-?", "&?&", "d'??", "'?'?", "?'?", "  ?  ?", "? ? ?"], 0, 1) }
    b04_t_prefixes => { prefixes(&["1 ??", "1 2 ?", "1 ? 2", "1'?", "1?2", "1-2-?"]) }
    b04_t_max => { options(&["???", "schwarz??", "?chekow?", "wojci?cho?ski", "rom??nov"], 0, 10) }
    b06_given => { given(&["?", "[sc]?", "?a"], &[&["french"], &["french", "german"], &["english"], &["spanish", "any"]]) }
    b06_each => { each(&[1], 1, &["1", "1?"], 2) }
    b06_each_others => { each(&[0, 2], 1, &["1", "1?"], 2) }
    b06_given_more => { given(&["??", "s??", "?a?"], &[&["french"], &["french", "german", "polish"], &["english"], &["spanish", "any"], &["russian", "english", "hebrew"], &["any"]]) }
    b06_t_each => { each(&[0, 1, 2], 2, &["?1", "1?", "?1?"], 1) }
    b05_rules => { content("gen_rules_any.txt", &[
        "\"?\"[ ]\"\" \"\" \"?\"", "##", "[\"ab]a\" \"\" \"\" \"b[\"c]", "//\n\"a\" \"\" \"\" \"b\"[\n \t/x]x", "\"\" \"\" \"\" \"b\"", "\"[a\"]\" \"\" \"\" \"\"\n?",
        "\"a\" \"\" \"\" \"[(a][|a][)a]\"", "\"a\" \"\" \"\" \"[a(]b[|[]a[])a]\"", "\"a\" \"[a(][b)]\" \"[[a][b][]a]\" \"b\"", "/[*][\n*a][*][\n/]/[/*]\n?", "[#]include[ _]good[\n ]?",
        "\n[#]include ba[dx]", "[#]include [a ]good", "//\n[#]include wors[e]", "\"a\" \"\" \"\" \"b\"\r\n#", "[\"]a\" \"[\n\"b]\" \"\" \"b\"\n", "\"[\\\\]\"\" \"\" \"\" \"b\""]) }
    b05_rules2 => { content("gen_exact_common.txt", &[
        "[/*\n]###", "\"a\" \"\" \"\" \"b\"##", "\"a\" \"\" \"\" \"b\"\n#\n#", "/[*]#[*]/#\n?", "//#\n\n?", "\"a\"[ \t\n]\"\"[ \t\n]\"\"[ \t\n]\"b\"", "[#]includ[ef][ \n]good##",
        "\"~\" \"\" \"\" \"~\"\n~", "\"[a\\\\]\"\"#\"\" \"\" \"b\"", "\"a\" \"[[(*+)]\" \"\" \"b\"\n", "\"a\" \"[[]a[b*+(][]ab(*]\" \"\" \"b\"\n", "\"a\" \"\" \"[[]a[)|(]b]c\" \"b\"\n", "\"a\" \"\" \"\" \"##\"", "\"a\" \"\" \"\" \"(##)\""]) }
    b05_include => { content("sep_rules_any.txt", &["[#]include inc##", "[#]include bad\n", "\n\n[#]include wors[et]", "[#]include two\n?", "/[*]\n[*]/\n[#]include tw[ox]\n\"?\" \"\" \"\" \"a\""]) }
    b05_guess => { content("gen_lang.txt", &["a[ \n\t][ab] tru[et][\n /]", "[ab*+(][a)] b fals[e\n]", "?\n? ? true", "##", "/[*]\n[*]/\na any true//\nx", "a any true\n[#b] ? ?"]) }
    b05_lists => { content("gen_languages.txt", &["any[\n /1]#", "a[nm]y", "##", "/[*]\n\n[*]/any\n[any1]", "//any\nany"]) }
    b05_missing => { missing() }
    b07_contexts => { custom(&[
        "\"b\" \"[a^][ac$]\" \"\" \"1\"\n\"b\" \"\" \"[a^$][c$]\" \"2\"\n", "\"b\" \"[[][^a][ac]]\" \"\" \"(1|2)\"\n\"b\" \"[^][[][ab]c]\" \"\" \"3\"\n",
        "\"b\" \"\" \"[[][^a]c]\" \"1\"\n\"b\" \"\" \"[[][bc]a][$]\" \"2\"\n", "\"b\" \"\" \"[[]ab][[][^c]c]\" \"1\"\n\"a\" \"[[][^c]b][[]ab]\" \"\" \"2\"\n"], &["[abc][abc][abc]", "b[abc]", "[ab]b"]) }
    b07_literal => { custom(&["\"b\" \"[ab^$.][ab^$.|][ab^$.*]\" \"\" \"1\"\n\"b\" \"\" \"[ab^$.(][ab^$.|][ab^$.)]\" \"2\"\n"], &["[abc][abc][abc]", "b[ab]"]) }
    b07_classes => { custom(&["\"b\" \"[ab^][[][ab^][ab]][ab*+$?]\" \"\" \"1\"\n", "\"b\" \"\" \"[ab.][[][ab^][ab]][ab*+$?]\" \"1\"\n", "\"b\" \"[(][[][ab^][ac]][|ab]c[)][a*+?]\" \"\" \"1\"\n\"b\" \"\" \"[^$a][^$a]\" \"2\"\n"],
        &["[abc][abc][abc]", "b[ab]"]) }
    b07_order => { custom(&[
        "\"[ab]\" \"\" \"\" \"1\"\n\"a[ab]\" \"\" \"\" \"2\"\n\"[ab]ab\" \"\" \"\" \"(3|4)\"\n==\n\"[123]\" \"\" \"\" \"(5|6)\"\n\"3[14]\" \"\" \"\" \"7\"\n==\n\"[56]\" \"\" \"[567]\" \"(8|)\"\n"], &["[abc][ab][ab]", "aba[abc]"]) }
    b07_include => { custom(&[
        "\"[bc]\" \"\" \"\" \"1\"\n[#]include inc\n\"[bc]\" \"\" \"\" \"2\"\n", "[#]include two\n\"[abc]\" \"\" \"\" \"2\"\n", "\"[bc]\" \"a\" \"\" \"9\"\n[#]include tw[ox]\n", "[#]include x\n[#]include inc\n==\n[#]include inc\n\"[xi2]\" \"\" \"\" \"n\""], &["[abc][abc]"]) }
    b07_include3 => { custom(&["\"c\" \"\" \"\" \"9\"\n[#]include [éÉX日]\n", "[#]include 日[1²-]\n\"c\" \"\" \"\" \"9\"\n", "[#]include x[-_.]1[-_]ж", "[#]include [éX]#\n\"c\" \"\" \"\" \"9\"\n"], &["[bc][bc]"]) }
    b07_include2 => { custom(&["\"c\" \"\" \"\" \"9\"\n\"[ab]\" \"\" \"\" \"8\"\n[#]include ct[xy]\n\"[abc]\" \"a\" \"\" \"7\"\n", "\"[abc]\" \"\" \"\" \"8\"\n[#]include ctx\n[#]include cty\n", "\"b\" \"\" \"\" \"8\"\n[#]include [ci]tx\n"], &["[abc][abc]", "b[abc]c"]) }
    b07_empty => { custom(&["\"a\" \"\" \"\" \"[(][|x][|x][)]\"\n\"b\" \"\" \"\" \"\"\n==\n\"x\" \"\" \"\" \"[(|][|z][|)]\"\n==\n\"z\" \"\" \"\" \"(|[xz]|)\"\n"], &["[ab][ab]"]) }
    b07_letters => { custom(&["\"[éßж日]\" \"\" \"\" \"1\"\n\"a[éßж日]\" \"\" \"\" \"2\"\n", "\"[ab]\" \"[éж]\" \"\" \"[é日]\"\n\"b\" \"\" \"[[][éж]a]\" \"x\"\n", "\"a\" \"\" \"é\" \"[é日]\"\n\"b\" \"[[]^éa]\" \"\" \"x\"\n==\n\"[xé日]\" \"\" \"\" \"y\""], &["a[éß日]", "[éж日]a", "[ab]bé", "éb"]) }
    b07_any_letter => { custom(&["\"~\" \"\" \"\" \"1\"\n"], &["a~"]) }
    b07_phonemes => { custom(&[
        "\"?\" \"\" \"\" \"?\"\n\"[ab]b\" \"\" \"\" \"(x|y|[xz])\"\n==\n\"x\" \"\" \"\" \"[xyz]\"\n", "\"a\" \"\" \"\" \"(|x)\"\n\"b\" \"\" \"\" \"(x|)\"\n==\n\"x[xy]\" \"\" \"\" \"z\"\n==\n\"[xz]\" \"\" \"\" \"w\"\n",
        "\"b\" \"\" \"\" \"1\"\n[#]include inc\n\"[bc]\" \"\" \"\" \"2\"\n"], &["[abc][abc]", "[abc]?b"]) }
    b07_guesses => { guesses(&["[ab^]? xx true\n", "[^a]b[$] x[xy] true\nb yy fals[e]\n", "?+ xx+any true\n[[][^a]b] any false\n", "[xy] any+xx+yy false\n"], &["[abx][aby]", "[ab]b?"]) }
    b07_guesses2 => { guesses(&["[ab^][ab][$b] [xy][xy] [tf]rue\n[ab]a xx+yy fals[e]\n", "a[b|*?]a xx true\n[(]ab[|b]b[)][a$] yy+xx true\n", "[.ab][^]b any true\n", "[xy] any+xx false\n[yx][$] yy fals[e]\n[x].[$] xx true", "A[Bb] xx true\nab yy true"], &["[abx][aby][ab]", "[AB]b?"]) }
    b07_same => { guesses(&["b [xy][xy] true\n[ac] [xy][xy] true\n", "b xx fals[e]\na any true"], &["[abc][abc]", "b[abc]a"]) }
}
