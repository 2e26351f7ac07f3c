//! Daitch-Mokotoff Soundex.
use crate::refs::daitch as r;
use crate::sym::*;
use rphonetic::*;

fn join(v: &[String]) -> String {
    let mut s = String::new();
    for (k, c) in v.iter().enumerate() {
        if k > 0 {
            s.push('|');
        }
        s.push_str(c);
    }
    s
}
fn rules() -> &'static r::Rules {
    keep(r::parse(r::RULES).ok().unwrap())
}
fn default_in(i: impl FnOnce() -> In) {
    let e = keep(DaitchMokotoffSoundex::default());
    let t = rules();
    let i = i();
    same(&e.soundex(&i.s), &join(&r::codes(t, true, &i.c, true)));
}
fn default(ts: &[&str]) {
    default_in(|| one_of(ts))
}
/// All patterns of the rules as fragments.
fn pairs(forms: &[&str]) {
    let v: Vec<String> = rules().rules.iter().map(|x| x.pattern.iter().collect()).collect();
    let v = keep(v);
    let f: &Vec<&str> = keep(v.iter().map(|x| x.as_str()).collect());
    default_in(|| pair_of(forms, f))
}
fn plain(ts: &[&str]) {
    let e = keep(DaitchMokotoffSoundex::default());
    let t = rules();
    let i = one_of(ts);
    same(&e.encode(&i.s), &r::codes(t, true, &i.c, false)[0]);
}
/// The codes of a text: distinct, six digits each, the first one is the code without branches.
fn branches(ts: &[&str]) {
    branches_of(|| one_of(ts))
}
fn branches_of(i: impl FnOnce() -> In) {
    let e = keep(DaitchMokotoffSoundex::default());
    let i = i();
    let v = e.inner_soundex(&i.s, true);
    note!("codes", v);
    law(!v.is_empty());
    for (k, c) in v.iter().enumerate() {
        law(c.len() == 6);
        for d in c.bytes() {
            law(d.is_ascii_digit());
        }
        for x in &v[..k] {
            law(x != c);
        }
    }
    same(&e.encode(&i.s), &v[0]);
    same(&e.soundex(&i.s), &join(&v));
    let one = e.inner_soundex(&i.s, false);
    law(one.len() == 1);
    same(&one[0], &v[0]);
}
fn folding(ts: &[&str]) {
    folding_of(|| one_of(ts))
}
const FEW: &[&str] = &["szczepaniak", "schmidt", "jackson", "rosen", "muller-lyer"];
fn folding_of(i: impl FnOnce() -> In) {
    let on = keep(DaitchMokotoffSoundexBuilder::default().ascii_folding(true).build().ok().unwrap());
    let off = keep(DaitchMokotoffSoundexBuilder::default().ascii_folding(false).build().ok().unwrap());
    let t = rules();
    let fold = fork(2) == 1;
    let i = i();
    note!("folding", fold);
    let e = if fold { on } else { off };
    same(&e.soundex(&i.s), &join(&r::codes(t, fold, &i.c, true)));
}
/// Rules of a symbolic text, on symbolic words: same acceptance, same error, same codes.
fn custom(texts: &[&str], words: &[&str]) {
    custom_text(one_of(texts), words)
}
fn custom_text(t: In, words: &[&str]) {
    let fold = fork(2) == 1;
    let got = DaitchMokotoffSoundexBuilder::with_rules(keep(t.s.clone())).ascii_folding(fold).build();
    let want = r::parse(&t.s);
    match (got, want) {
        (Ok(e), Ok(r)) => {
            let (e, r) = (keep(e), keep(r));
            let w = one_of(words);
            note!("folding", fold);
            same(&e.soundex(&w.s), &join(&r::codes(r, fold, &w.c, true)));
            same(&e.encode(&w.s), &r::codes(r, fold, &w.c, false)[0]);
        }
        (Err(PhoneticError::ParseRuleError(e)), Err((line, content))) => {
            note!("error", e);
            note!("expected line", line);
            law(e.line_number == line);
            law(e.filename.is_none());
            same(&e.line_content, &content);
        }
        (_a, _b) => {
            note!("result", _a.is_ok());
            note!("expected", _b.is_ok());
            law(false)
        }
    }
}

fn names(with: &[&str], cuts: &[usize]) {
    default_in(|| changed(NAMES, with, cuts))
}
fn lengths(n: &[usize]) {
    default_in(|| long(&[("?", "a", "??"), ("?", "b", "?"), ("?", "ptk", "?"), ("s", "a", "chtsch?"), ("?", " ", "?"), ("m", "-", "n?")], n))
}

/// Lines of rules, good and bad ones.
const LINES: &[&str] = &[
    "", " \t", "// c", "\"a\" \"1\" \"2\" \"3\"", "é=a", "/[*] x [*]/", "/[*] x\ny\n[*]/", "/[*]\n[*]/ // z", "\"b\" \"1\"", "?", "x=", "\"\" \"1\" \"2\" \"3\"", "\"ab\"\t\"1\" \"2\" \"3|4\"\r", "a=b // c",
    "/[*] x",
];
const TEXT: &str = "// x\n\"a\" \"0\" \"1\" \"2|3\" // x\n/* y\n z */\né=b\n\"ab\"  \"4\" \"5\" \"6\"\n";

const AB: &[&str] = &["[ab][ab][ab]", "[ab]c[ab]"];

entries! {
    x02_names => { branches_of(|| changed(NAMES, &["?"], &[0, 1])) }
    x02_t_names => { branches_of(|| changed(NAMES, &["??", "%"], &[0, 1, 2])) }
    x03_names => { folding_of(|| changed(FEW, &["%", "[ÄÖÜßĄęŁ]", "?"], &[0, 1])) }
    x03_other_names => { folding_of(|| changed(FEW, &["~"], &[0])) }
    x02_names_more => { branches_of(|| changed(FEW, &["??", "%"], &[0, 1, 2])) }
    x02_four => { branches(&["c?c?c?", "?c??j"]) }
    x03_three => { folding(&["###", "%?%", "???", "%%%"]) }
    x03_t_names => { folding_of(|| changed(NAMES, &["%", "~", "%?"], &[0, 1])) }
    x04_comments => { custom_text(lines(3, &["// ?", "\"a\" \"1\" \"2\" \"3\" //?", "/[*] x\n[*]/", "", "é=a", "a=é", "\"é\" \"4\" \"5\" \"6\"", "\"[ab]b\" \"7\" \"8|\" \"\"", "\"a\" \"9\" \"\" \"99\""]), &["[ab][ab]", "é[ab]"]) }
    x04_edited => { custom_text(broken(&["\"a\" \"12\" \"3|4\" \"5\"\n\"aé\" \"66\" \"7\" \"8|9\"\né=b\n"]), &["a[ab]", "aéa"]) }
    x05_sequence => { custom_text(lines(3, LINES), &["a"]) }
    x05_edited => { custom_text(broken(&[TEXT]), &["a"]) }
    x05_sequence_more => { custom_text(lines(4, LINES), &["a"]) }
    x01_names => { names(&["?"], &[0, 1]) }
    x01_lengths => { lengths(LONG) }
    x01_t_names => { names(&["??", "%", "&?"], &[0, 1, 2]) }
    x01_t_lengths => { lengths(LONG_T) }
    x04_many => { custom(&["\"a\" \"1|2|3|4|5|6|7|8\" \"[01]|2|3|4|5\" \"9|8|7|6[|5]\"\n\"b\" \"0|1|2|3\" \"12|34|56|78|90\" \"123456|654321|222222|333333\"\n"], &["[ab]", "[ab][ab]", "a[ab]a"]) }
    x04_signs => { custom(&["\"a\" \"12345é|é2345é日\" \"日?|é\" \"é[éж]\"\n\"b\" \"éé\" \"ж\" \"[é日]\"\n", "\"[ab]\" \"%\" \"12~\" \"5555[5é]é|[é]\"\n"], &["[ab]", "[ab][ab]", "a[ab]a", "[ab][ab][ab][ab][ab]"]) }
    x04_deep => { custom(&["\"a\" \"1\" \"2\" \"3\"\n\"ab\" \"2\" \"3\" \"4\"\n\"abc\" \"3\" \"4\" \"5\"\n\"abca\" \"4\" \"5\" \"6\"\n\"abcab\" \"5\" \"6\" \"7\"\n\"abcabc\" \"[67]\" \"7\" \"8\"\n\"b\" \"9\" \"9\" \"9\"\n\"c\" \"0\" \"[0|]1\" \"\"\n"], &["abcab[abc]", "abc[abc]b", "[ab]bcabca[bc]", "ab[abc]a[abc]"]) }
    x01_short => { default(&["", "#", "##", "@@@"]) }
    x01_words => { default(&["???", "????"]) }
    x01_pairs => { pairs(&["1?", "?1?", "12"]) }
    x01_unicode => { default(&["*", "*?", "?*?", "?%?", "%%"]) }
    x01_long => { default(&["babababa??", "aeiouaeiou??c?", "bdfglrs??", "?b?b?a", "mn?nm?m", "ccccc?", "?crsrzckcj", "bbbbbb??", "xxxx??"]) }
    x01_signs => { default(&["@&@&@", "&@@", "@1@", "s-ch?", "s ch?"]) }
    x01_plain => { plain(&["", "##", "???", "c?j?", "%?", "rs?ck?", "babababa??"]) }
    x01_t_words => { default(&["?????"]) }
    x01_t_pairs => { pairs(&["1?2", "1??", "?12", "12?"]) }
    x01_t_long => { default(&["bdfgl????", "babababa???", "???babababa?", "?c?c?", "###", "####", "?&?&??"]) }
    x02_branches => { branches(&["", "#", "???", "c?c?", "j??j", "rs?rz?", "ck?ch", "%?", "cccccc?"]) }
    x02_longer => { branches(&["?ch?c?", "cjcjcj??", "bdcbdrsbdck?", "ę?ą?"]) }
    x02_t_branches => { branches(&["????", "c?c?c?", "?c??j", "~?~"]) }
    x03_folding => { folding(&["#", "??", "*", "%?", "?%?", "%%", "c%h", "s%", "ß?", "ł?ż"]) }
    x03_t_folding => { folding(&["???", "*?", "?*?", "%?%", "%%%", "sch%?", "####"]) }
    x04_codes => { custom(&["\"[ab]\" \"[01]\" \"[01]\" \"[0|1]\"\n\"b\" \"2\" \"3\" \"4|5\"\n", "\"[ab]\" \"1[1|]2\" \"2[|3]4\" \"55[|5]6\"\n\"b\" \"1\" \"12\" \"123|456\"\n"], AB) }
    x04_patterns => { custom(&["\"[ab][ab]\" \"1\" \"2\" \"3\"\n\"a\" \"4\" \"5\" \"6\"\n\"b\" \"7\" \"8\" \"9\"", "\"a\" \"4\" \"5\" \"6\"\n\"[ab][ab]\" \"1\" \"2\" \"3\"\n\"a[abc]a\" \"7\" \"8\" \"9\"\n", "\"[ab]c\" \"1\" \"2\" \"3\"\n\"[ab][ab]\" \"4\" \"5\" \"6|7\"\n\"[ab]\" \"8\" \"9\" \"\""], AB) }
    x04_force => { custom(&["\"[mn]\" \"6\" \"6\" \"6\"\n\"[mn]\" \"[56]6\" \"6\" \"6\"\n\"a\" \"\" \"\" \"\"\n"], &["[mna][mna][mna][mna]"]) }
    x04_folds => { custom(&["[éab]=[abc]\n\"[ab]\" \"1\" \"2\" \"3\"\n\"c\" \"4\" \"5\" \"6\"\né=[bc]\n", "a=b\nb=[acé]\n\"[abc]\" \"1\" \"2\" \"3\"\n\"é\" \"4\" \"5\" \"6\""], &["[abc][abc]", "é[abc]é", "É[ab]"]) }
    x04_lengths => { custom(&["\"a\" \"1234[5|]6\" \"56\" \"789|12\"\n\"b\" \"12345[67]89\" \"1\" \"22\"", "\"éa\" \"1\" \"2\" \"3\"\n\"a\" \"4\" \"5\" \"6\"\n\"é\" \"7\" \"8\" \"9\""], &["[ab][ab][ab]", "é[ab]é[ab]", "[ab]é[ab]"]) }
    x05_rules => { custom(&["\"a#\" \"0\" \"1\" \"2\"\n", "#\"a\" \"0\" \"1\" \"2\"\n", "\"a\"#\"0\" \"1\" \"2\"", "\"a\" \"0\" #\"1\" \"2\"", "\"a\" \"0\" \"1\" \"2\"#\n", "\"a\" \"0\" \"1\" \"2\"#", "\"a\" \"0\" \"1\" \"2#", "\"#\" \"0\" \"1\" \"2\"\n", "\"\" \"0\" \"1\" \"2\"\n", "\"a\" \"#\" \"1\" \"2\"\r\n\"b\" \"1\" \"1\" \"1\""], &["a[ab]"]) }
    x05_lines => { custom(&["#", "##", "a=b#", "a=b#\n", "a#b\n", "#=a", "#=a\n\n\na=b #x\n", "// #\n#", "//#\n\"a\" \"0\" \"1\" \"2\"//#", "\n\n#\n", "  #\n", "a=b // x#y\nb=c\nx\n"], &["a"]) }
    x05_comments => { custom(&["/[*]\n\nx\n[*]/\n#\n", "/[*]#[*]/\nx", "/[*] #\n#/ [*]/\nx\n", "/[*] a [*]/#\nx\n", "#/[*]\n\n", "/[*]\n/[*]\n[*]/#\n\"a\n", "/#\nx\n[*]/\n", "/[*]\r\n[*]/\r#x"], &["a"]) }
    x05_later => { custom(&["\"a\" \"0\" \"1\" \"2\"\n// x\n\n/[*] b\n c [*]/\nà=a\n\"b\"#\"0\" \"1\" \"2\"\n\"c\"\n", "é=a\n\"é\" \"0\" \"1\" \"2\" // é\n\"b\" \"0\" \"1\"#\nx", "a=é#\nx"], &["a"]) }
    x05_lines_more => { custom(&["###", "####", "a##\n", "\"a\" ##0\" \"1\" \"2\"\n", "/[*]##[*]/##", "\"##\" \"0\" \"1\" \"2\"##\n"], &["a"]) }
    x04_codes_more => { custom(&["\"[ab]\" \"[01|][01|]\" \"[01]\" \"[0|1][0|1]\"\n\"[ab]\" \"2\" \"3\" \"4|5\"\n", "\"[ab][abc]\" \"1\" \"[23]\" \"3\"\n\"[abc]\" \"4\" \"5\" \"6\"\n\"[bc]\" \"7\" \"8\" \"9\""], &["[abc][abc][abc][abc]", "[ab][ab][ab][ab][ab]"]) }
}
