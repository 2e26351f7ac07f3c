//! Beider-Morse: rules, language guess, encoding.
use super::daitch::{long_comment, quadruplet, rest_of_line};
use super::rx;

/// A set of languages, by number; `None` is any language.
pub type Langs = Option<u64>;
fn restrict(a: Langs, b: Langs) -> Langs {
    match (a, b) {
        (a, None) => a,
        (None, b) => b,
        (Some(a), Some(b)) => Some(a & b),
    }
}
fn merge(a: Langs, b: Langs) -> Langs {
    match (a, b) {
        (Some(a), Some(b)) => Some(a | b),
        _ => None,
    }
}

/// What a context says of the text before (after) a pattern.
#[derive(Clone, Debug)]
enum Context {
    Any,
    Empty,
    Is(Vec<char>),
    Starts(Vec<char>),
    Ends(Vec<char>),
    /// Characters, negated: the only, the first or the last one.
    Only(Vec<char>, bool),
    First(Vec<char>, bool),
    Last(Vec<char>, bool),
    Search(rx::Node),
}
fn context(t: &str) -> Result<Context, Bad> {
    let c: Vec<char> = t.chars().collect();
    let (start, end) = (c.first() == Some(&'^'), c.last() == Some(&'$'));
    let (a, b) = (start as usize, c.len() - end as usize);
    let inner = &c[a..b];
    if !c.contains(&'[') {
        // no class: the text is taken as it is
        let v = inner.to_vec();
        return Ok(match (start, end) {
            (true, true) if v.is_empty() => Context::Empty,
            (true, true) => Context::Is(v),
            _ if v.is_empty() => Context::Any,
            (true, _) => Context::Starts(v),
            _ => Context::Ends(v),
        });
    }
    if inner.first() == Some(&'[') && inner.last() == Some(&']') && !inner[1..].contains(&'[') {
        let neg = inner[1] == '^';
        let v = inner[1 + neg as usize..inner.len() - 1].to_vec();
        return Ok(match (start, end) {
            (true, true) => Context::Only(v, neg),
            (true, _) => Context::First(v, neg),
            _ => Context::Last(v, neg),
        });
    }
    Ok(Context::Search(rx::parse(t).map_err(|_| Bad::Other)?))
}
impl Context {
    fn holds(&self, s: &[char]) -> bool {
        match self {
            Context::Any => true,
            Context::Empty => s.is_empty(),
            Context::Is(v) => s == v.as_slice(),
            Context::Starts(v) => s.starts_with(v),
            Context::Ends(v) => s.ends_with(v),
            Context::Only(v, n) => s.len() == 1 && v.contains(&s[0]) != *n,
            Context::First(v, n) => !s.is_empty() && v.contains(&s[0]) != *n,
            Context::Last(v, n) => !s.is_empty() && v.contains(&s[s.len() - 1]) != *n,
            Context::Search(r) => {
                let c: Vec<u32> = s.iter().map(|c| *c as u32).collect();
                rx::found(r, &c)
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Rule {
    pattern: Vec<char>,
    left: Context,
    right: Context,
    phonemes: Vec<(String, Langs)>,
}
/// The rules by first character.
type Table = Vec<(char, Vec<Rule>)>;

pub struct Config {
    /// By number; shared by all kinds of names.
    names: Vec<String>,
    /// Languages and guessing rules, for each kind of names.
    languages: [u64; 3],
    guess: [Vec<(rx::Node, u64, bool)>; 3],
    /// By file name.
    tables: Vec<(String, Table)>,
}
pub const KINDS: [&str; 3] = ["ash", "gen", "sep"];

pub type Files<'a> = &'a [(&'a str, &'a str)];
fn content<'a>(files: Files<'a>, name: &str) -> Option<&'a str> {
    files.iter().find(|f| f.0 == name).map(|f| f.1)
}

/// Why a configuration is refused.
pub enum Bad {
    /// A line that is malformed: the file (its name contains this), the number from 1, the line.
    Line(String, usize, String),
    Other,
}
fn first_line(s: &str) -> String {
    s.split('\n').next().unwrap().to_string()
}
fn include(s: &str) -> Option<(&str, &str)> {
    let t = s.strip_prefix("#include ")?;
    let n = t.find(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_')).unwrap_or(t.len());
    if n == 0 {
        return None;
    }
    Some((rest_of_line(&t[n..])?, &t[..n]))
}
/// A pattern, languages, and whether they are the only ones, or none, for a text with the pattern.
fn guess_rule(s: &str) -> Option<(&str, &str, &str, bool)> {
    let field = |s| -> Option<(&str, &str)> {
        let s: &str = s;
        let b = s.as_bytes();
        let mut k = 0;
        while k < b.len() && b[k] != b' ' && b[k] != b'\n' {
            k += 1;
        }
        if k == 0 || k == b.len() || b[k] == b'\n' {
            return None;
        }
        Some((&s[k + 1..], &s[..k]))
    };
    let (s, p) = field(s)?;
    let (s, l) = field(s)?;
    let yes = s.starts_with("true");
    if !yes && !s.starts_with("false") {
        return None;
    }
    Some((rest_of_line(&s[if yes { 4 } else { 5 }..])?, p, l, yes))
}

impl Config {
    fn language(&mut self, n: &str) -> u64 {
        if let Some(k) = self.names.iter().position(|x| x == n) {
            return 1 << k;
        }
        self.names.push(n.to_string());
        1 << (self.names.len() - 1)
    }
    fn langs(&mut self, t: &str) -> u64 {
        let mut m = 0;
        for n in t.split('+') {
            m |= self.language(n);
        }
        m
    }
    pub fn set(&self, names: &[&str]) -> u64 {
        let mut m = 0;
        for (k, n) in self.names.iter().enumerate() {
            if names.contains(&n.as_str()) {
                m |= 1 << k;
            }
        }
        m
    }
    pub fn list(&self, m: u64) -> Vec<&str> {
        (0..self.names.len()).filter(|k| m >> k & 1 == 1).map(|k| self.names[k].as_str()).collect()
    }
    fn phoneme(&mut self, t: &str) -> Result<(String, Langs), Bad> {
        Ok(match t.find('[') {
            None => (t.to_string(), None),
            Some(_) if !t.ends_with(']') => return Err(Bad::Other),
            Some(k) => (t[..k].to_string(), Some(self.langs(&t[k + 1..t.len() - 1]))),
        })
    }
    fn rule(&mut self, v: &[&str; 4]) -> Result<Rule, Bad> {
        let mut phonemes = Vec::new();
        if v[3].starts_with('(') {
            if !v[3].ends_with(')') {
                return Err(Bad::Other);
            }
            let inner = &v[3][1..v[3].len() - 1];
            for p in inner.trim_end_matches('|').split('|') {
                phonemes.push(self.phoneme(p)?);
            }
            if inner.starts_with('|') || inner.ends_with('|') {
                phonemes.push((String::new(), None));
            }
        } else {
            phonemes.push(self.phoneme(v[3])?);
        }
        let (left, right) = (context(&format!("{}$", v[1]))?, context(&format!("^{}", v[2]))?);
        Ok(Rule { left, right, phonemes, pattern: v[0].chars().collect() })
    }
    fn table(&mut self, files: Files, name: &str) -> Result<Table, Bad> {
        let mut r: Table = Vec::new();
        let file = format!("{name}.txt");
        let mut s = content(files, &file).ok_or(Bad::Other)?;
        let mut line = 1;
        while !s.is_empty() {
            let bad = Bad::Line(name.to_string(), line, first_line(s));
            if let Some((t, v)) = quadruplet(s) {
                if v[0].is_empty() {
                    return Err(bad);
                }
                let rule = self.rule(&v)?;
                let c = rule.pattern[0];
                match r.iter().position(|x| x.0 == c) {
                    Some(k) => r[k].1.push(rule),
                    None => r.push((c, vec![rule])),
                }
                s = t;
            } else if let Some(t) = rest_of_line(s) {
                s = t;
            } else if let Some((t, n)) = include(s) {
                // included rules replace those for the same first character
                let more = match self.table(files, n) {
                    Err(Bad::Other) => return Err(bad),
                    m => m?,
                };
                for (c, v) in more {
                    r.retain(|x| x.0 != c);
                    r.push((c, v));
                }
                s = t;
            } else if let Some((t, n)) = long_comment(s) {
                line += n;
                s = t;
            } else {
                return Err(bad);
            }
            line += 1;
        }
        r.sort_by_key(|x| x.0);
        Ok(r)
    }
    /// The configuration of these files.
    pub fn new(files: Files) -> Result<Config, Bad> {
        let mut c = Config { names: vec![], languages: [0; 3], guess: Default::default(), tables: vec![] };
        let mut lists = vec![];
        let embedded = files.iter().all(|f| !f.0.ends_with("_languages.txt"));
        for (k, kind) in KINDS.iter().enumerate() {
            if embedded {
                // the embedded rules are for any language, nothing to guess
                lists.push(vec!["any".to_string()]);
                continue;
            }
            let mut s = match content(files, &format!("{kind}_languages.txt")) {
                Some(s) => s,
                None => continue,
            };
            let mut names = vec![];
            let mut line = 1;
            while !s.is_empty() {
                if let Some(t) = rest_of_line(s) {
                    s = t;
                } else if let Some((t, n)) = long_comment(s) {
                    line += n;
                    s = t;
                } else {
                    let n = s.find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(s.len());
                    let t = if n == 0 { None } else { rest_of_line(&s[n..]) };
                    match t {
                        None => return Err(Bad::Line(String::new(), line, first_line(s))),
                        Some(t) => {
                            names.push(s[..n].to_string());
                            s = t;
                        }
                    }
                }
                line += 1;
            }
            for n in &names {
                let m = c.language(n);
                c.languages[k] |= m;
            }
            names.sort();
            names.dedup();
            lists.push(names);
        }
        if lists.len() < 3 {
            return Err(Bad::Other);
        }
        for (k, kind) in KINDS.iter().enumerate() {
            if embedded {
                break;
            }
            let name = format!("{kind}_lang.txt");
            let mut s = content(files, &name).ok_or(Bad::Other)?;
            let mut line = 1;
            while !s.is_empty() {
                if let Some(t) = rest_of_line(s) {
                    s = t;
                } else if let Some((t, n)) = long_comment(s) {
                    line += n;
                    s = t;
                } else {
                    let bad = || Bad::Line(name.clone(), line, first_line(s));
                    let (t, p, l, yes) = guess_rule(s).ok_or_else(bad)?;
                    let p = rx::parse(p).map_err(|_| bad())?;
                    let m = c.langs(l);
                    c.guess[k].push((p, m, yes));
                    s = t;
                }
                line += 1;
            }
        }
        for (k, kind) in KINDS.iter().enumerate() {
            for r in ["approx", "exact", "rules"] {
                for n in lists[k].iter().map(|x| x.as_str()).chain(["common"]) {
                    if r == "rules" && n == "common" {
                        continue;
                    }
                    let name = format!("{kind}_{r}_{n}");
                    let t = c.table(files, &name)?;
                    c.tables.push((name, t));
                }
            }
        }
        Ok(c)
    }
    pub fn languages(&self, kind: usize) -> u64 {
        self.languages[kind]
    }
    pub fn patterns(&self, table: &str) -> Vec<String> {
        let t = &self.tables.iter().find(|t| t.0 == table).unwrap().1;
        t.iter().flat_map(|x| &x.1).map(|r| r.pattern.iter().collect()).collect()
    }
    fn rules(&self, kind: usize, r: &str, lang: &str) -> &Table {
        let n = format!("{}_{r}_{lang}", KINDS[kind]);
        &self.tables.iter().find(|t| t.0 == n).unwrap().1
    }

    pub fn guess(&self, kind: usize, s: &str) -> Langs {
        let low: Vec<u32> = s.to_lowercase().chars().map(|c| c as u32).collect();
        let mut m = self.languages[kind];
        for (r, l, yes) in &self.guess[kind] {
            if rx::found(r, &low) {
                m = if *yes { m & l } else { m & !l };
            }
        }
        if m == 0 {
            None
        } else {
            Some(m)
        }
    }
}

const PREFIXES: [&[&str]; 3] = [
    &["bar", "ben", "da", "de", "van", "von"],
    &["da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von"],
    &["al", "el", "da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von"],
];

pub struct Options {
    pub kind: usize,
    pub exact: bool,
    pub concat: bool,
    pub max: usize,
}

type Phonemes = Vec<(String, Langs)>;

/// Applies the rule for this place, if there is one. Returns the length of its pattern.
fn apply(t: &Table, s: &[char], k: usize, ph: &mut Phonemes, max: usize) -> Option<usize> {
    let rules = t.iter().find(|x| x.0 == s[k])?;
    for r in &rules.1 {
        let n = r.pattern.len();
        if k + n > s.len() || s[k..k + n] != r.pattern[..] || !r.right.holds(&s[k + n..]) || !r.left.holds(&s[..k]) {
            continue;
        }
        let mut next = Vec::new();
        for (a, la) in ph.iter() {
            for (b, lb) in &r.phonemes {
                let l = restrict(*la, *lb);
                if l != Some(0) && next.len() < max {
                    let mut t = String::with_capacity(a.len() + b.len());
                    t.push_str(a);
                    t.push_str(b);
                    next.push((t, l));
                }
            }
        }
        *ph = next;
        return Some(n);
    }
    None
}
/// The final rules rewrite each phoneme; equal ones are one, for the languages of both.
fn finish(t: &Table, ph: Phonemes, max: usize) -> Phonemes {
    if t.is_empty() {
        return ph;
    }
    let mut all: Phonemes = Vec::new();
    for (text, l) in ph {
        let c: Vec<char> = text.chars().collect();
        let mut sub = vec![(String::new(), l)];
        let mut k = 0;
        while k < c.len() {
            match apply(t, &c, k, &mut sub, max) {
                Some(n) => k += n,
                None => {
                    for x in &mut sub {
                        x.0.push(c[k]);
                    }
                    k += 1;
                }
            }
        }
        for (t, l) in sub {
            match all.binary_search_by(|x| x.0.as_str().cmp(&t)) {
                Ok(k) => all[k].1 = merge(all[k].1, l),
                Err(k) => all.insert(k, (t, l)),
            }
        }
    }
    all
}

impl Config {
    pub fn encode(&self, o: &Options, text: &str) -> String {
        self.encode_with(o, text, self.guess(o.kind, text))
    }
    pub fn encode_with(&self, o: &Options, text: &str, langs: Langs) -> String {
        let lang = match langs {
            Some(m) if m != 0 && m & (m - 1) == 0 => self.list(m)[0],
            _ => "any",
        };
        let low = text.to_lowercase();
        let c: Vec<char> = low.chars().map(|c| if c == '-' { ' ' } else { c }).collect();
        let mut a = 0;
        let mut b = c.len();
        while a < b && c[a].is_whitespace() {
            a += 1;
        }
        while b > a && c[b - 1].is_whitespace() {
            b -= 1;
        }
        let c = &c[a..b];
        let both = |head: &str, rest: &[char]| {
            let rest: String = rest.iter().collect();
            let one = self.encode(o, &rest);
            let two = self.encode(o, &format!("{head}{rest}"));
            format!("({one})-({two})")
        };
        if o.kind == 1 {
            if c.starts_with(&['d', '\'']) {
                return both("d", &c[2..]);
            }
            // the shortest one that fits: "de" before "de la"
            for p in PREFIXES[1] {
                let v: Vec<char> = p.chars().chain([' ']).collect();
                if c.starts_with(&v) {
                    return both(p, &c[v.len()..]);
                }
            }
        }
        let mut words: Vec<Vec<char>> = vec![vec![]];
        for x in c {
            if x.is_whitespace() {
                words.push(vec![]);
            } else {
                words.last_mut().unwrap().push(*x);
            }
        }
        words.retain(|w| !w.is_empty());
        let input: Vec<char> = if o.concat {
            let mut v: Vec<char> = Vec::new();
            let mut first = true;
            for w in &words {
                let mut w = &w[..];
                if o.kind == 2 {
                    while let Some(k) = w.iter().position(|c| *c == '\'') {
                        w = &w[k + 1..];
                    }
                }
                let t: String = w.iter().collect();
                if o.kind != 1 && PREFIXES[o.kind].contains(&t.as_str()) {
                    continue;
                }
                if !first {
                    v.push(' ');
                }
                first = false;
                v.extend(w);
            }
            v
        } else if words.len() == 1 {
            words[0].clone()
        } else {
            let codes: Vec<String> = words.iter().map(|w| self.encode(o, &w.iter().collect::<String>())).collect();
            return codes.join("-");
        };
        let table = self.rules(o.kind, "rules", lang);
        let mut ph = vec![(String::new(), langs)];
        let mut k = 0;
        while k < input.len() {
            k += apply(table, &input, k, &mut ph, o.max).unwrap_or(1);
        }
        let r = if o.exact { "exact" } else { "approx" };
        let ph = finish(self.rules(o.kind, r, "common"), ph, o.max);
        let ph = finish(self.rules(o.kind, r, lang), ph, o.max);
        let t: Vec<&str> = ph.iter().map(|x| x.0.as_str()).collect();
        t.join("|")
    }
}

macro_rules! files {
    ($d:literal: $($n:literal)*) => { &[$((concat!($n, ".txt"), include_str!(concat!("../../data/", $d, "/", $n, ".txt")))),*] };
}
/// The rules the crate embeds: those of commons-codec for any language.
pub const EMBEDDED: Files = files!("bm": "ash_approx_any" "ash_approx_common" "ash_exact_any" "ash_exact_approx_common" "ash_exact_common" "ash_rules_any" "gen_approx_any" "gen_approx_common" "gen_exact_any" "gen_exact_approx_common" "gen_exact_common" "gen_rules_any" "sep_approx_any" "sep_approx_common" "sep_exact_any" "sep_exact_approx_common" "sep_exact_common" "sep_rules_any");
/// All rules of commons-codec.
pub const ALL: Files = files!("cc": "ash_approx_any" "ash_approx_common" "ash_approx_cyrillic" "ash_approx_english" "ash_approx_french" "ash_approx_german" "ash_approx_hebrew" "ash_approx_hungarian" "ash_approx_polish" "ash_approx_romanian" "ash_approx_russian" "ash_approx_spanish" "ash_exact_any" "ash_exact_approx_common" "ash_exact_common" "ash_exact_cyrillic" "ash_exact_english" "ash_exact_french" "ash_exact_german" "ash_exact_hebrew" "ash_exact_hungarian" "ash_exact_polish" "ash_exact_romanian" "ash_exact_russian" "ash_exact_spanish" "ash_hebrew_common" "ash_lang" "ash_languages" "ash_rules_any" "ash_rules_cyrillic" "ash_rules_english" "ash_rules_french" "ash_rules_german" "ash_rules_hebrew" "ash_rules_hungarian" "ash_rules_polish" "ash_rules_romanian" "ash_rules_russian" "ash_rules_spanish" "gen_approx_any" "gen_approx_arabic" "gen_approx_common" "gen_approx_cyrillic" "gen_approx_czech" "gen_approx_dutch" "gen_approx_english" "gen_approx_french" "gen_approx_german" "gen_approx_greek" "gen_approx_greeklatin" "gen_approx_hebrew" "gen_approx_hungarian" "gen_approx_italian" "gen_approx_polish" "gen_approx_portuguese" "gen_approx_romanian" "gen_approx_russian" "gen_approx_spanish" "gen_approx_turkish" "gen_exact_any" "gen_exact_approx_common" "gen_exact_arabic" "gen_exact_common" "gen_exact_cyrillic" "gen_exact_czech" "gen_exact_dutch" "gen_exact_english" "gen_exact_french" "gen_exact_german" "gen_exact_greek" "gen_exact_greeklatin" "gen_exact_hebrew" "gen_exact_hungarian" "gen_exact_italian" "gen_exact_polish" "gen_exact_portuguese" "gen_exact_romanian" "gen_exact_russian" "gen_exact_spanish" "gen_exact_turkish" "gen_hebrew_common" "gen_lang" "gen_languages" "gen_rules_any" "gen_rules_arabic" "gen_rules_cyrillic" "gen_rules_czech" "gen_rules_dutch" "gen_rules_english" "gen_rules_french" "gen_rules_german" "gen_rules_greek" "gen_rules_greeklatin" "gen_rules_hebrew" "gen_rules_hungarian" "gen_rules_italian" "gen_rules_polish" "gen_rules_portuguese" "gen_rules_romanian" "gen_rules_russian" "gen_rules_spanish" "gen_rules_turkish" "lang" "sep_approx_any" "sep_approx_common" "sep_approx_french" "sep_approx_hebrew" "sep_approx_italian" "sep_approx_portuguese" "sep_approx_spanish" "sep_exact_any" "sep_exact_approx_common" "sep_exact_common" "sep_exact_french" "sep_exact_hebrew" "sep_exact_italian" "sep_exact_portuguese" "sep_exact_spanish" "sep_hebrew_common" "sep_lang" "sep_languages" "sep_rules_any" "sep_rules_french" "sep_rules_hebrew" "sep_rules_italian" "sep_rules_portuguese" "sep_rules_spanish");
