//! Daitch-Mokotoff Soundex, and the text of its rules.

/// The rules the crate is documented to embed (those of commons-codec).
pub const RULES: &str = include_str!("../../data/dmrules.txt");

pub struct Rule {
    pub pattern: Vec<char>,
    /// At the start, before a vowel, otherwise: alternatives.
    pub codes: [Vec<String>; 3],
}
#[derive(Default)]
pub struct Rules {
    pub rules: Vec<Rule>,
    pub folds: Vec<(char, char)>,
    /// Numbers of the rules by the first character, ASCII or not.
    ascii: Vec<Vec<usize>>,
    other: Vec<usize>,
    ascii_fold: Vec<char>,
}
impl Rules {
    fn starting(&self, c: char) -> &[usize] {
        if (c as usize) < 128 {
            &self.ascii[c as usize]
        } else {
            &self.other
        }
    }
}

/// What remains after a quoted text at the start of `s`, and this text.
pub fn quoted(s: &str) -> Option<(&str, &str)> {
    let r = s.strip_prefix('"')?;
    if let Some(r) = r.strip_prefix("\\\"") {
        return Some((r.strip_prefix('"')?, &s[1..3]));
    }
    let b = r.as_bytes();
    let mut k = 0;
    while k < b.len() && b[k] != b'"' && b[k] != b'\n' {
        k += 1;
    }
    if k == b.len() || b[k] == b'\n' {
        return None;
    }
    Some((&r[k + 1..], &r[..k]))
}
pub fn blanks(s: &str) -> (&str, usize) {
    let b = s.as_bytes();
    let mut k = 0;
    while k < b.len() && (b[k] == b' ' || b[k] == b'\t') {
        k += 1;
    }
    (&s[k..], k)
}
/// Blanks and perhaps a comment up to the end of the line: what follows the line.
pub fn rest_of_line(s: &str) -> Option<&str> {
    let (s, _) = blanks(s);
    let comment = s.starts_with("//");
    let b = s.as_bytes();
    let mut k = 0;
    if comment {
        while k < b.len() && b[k] != b'\n' {
            k += 1;
        }
    }
    if k == b.len() {
        return Some("");
    }
    if b[k] == b'\n' {
        return Some(&s[k + 1..]);
    }
    if b[k] == b'\r' && k + 1 < b.len() && b[k + 1] == b'\n' {
        return Some(&s[k + 2..]);
    }
    None
}
pub fn quadruplet(s: &str) -> Option<(&str, [&str; 4])> {
    let mut v = [""; 4];
    let mut s = s;
    for k in 0..4 {
        let (r, t) = quoted(s)?;
        v[k] = t;
        s = r;
        if k < 3 {
            let (r, n) = blanks(s);
            if n == 0 {
                return None;
            }
            s = r;
        }
    }
    Some((rest_of_line(s)?, v))
}
fn folding(s: &str) -> Option<(&str, char, char)> {
    let mut i = s.chars();
    let a = i.next()?;
    if i.next()? != '=' {
        return None;
    }
    let b = i.next()?;
    Some((rest_of_line(i.as_str())?, a, b))
}
/// A comment of several lines that starts here: what follows it, and its line ends.
pub fn long_comment(s: &str) -> Option<(&str, usize)> {
    let r = s.strip_prefix("/*")?;
    let b = r.as_bytes();
    let mut k = 0;
    let mut lines = 0;
    loop {
        if k + 1 >= b.len() {
            return None;
        }
        if b[k] == b'*' && b[k + 1] == b'/' {
            break;
        }
        lines += (b[k] == b'\n') as usize;
        k += 1;
    }
    Some((rest_of_line(&r[k + 2..])?, lines))
}

/// The rules of a text, or the number (from 1) and the content of the first line that is none.
pub fn parse(text: &str) -> Result<Rules, (usize, String)> {
    let mut r = Rules::default();
    r.ascii.resize(128, Vec::new());
    r.ascii_fold = (0..128u8).map(|c| c as char).collect();
    let mut s = text;
    let mut line = 1;
    while !s.is_empty() {
        let bad = || Err((line, s.split('\n').next().unwrap().to_string()));
        if let Some((t, v)) = quadruplet(s) {
            if v[0].is_empty() {
                return bad();
            }
            let codes = |t: &str| -> Vec<String> {
                let mut v = vec![String::new()];
                for c in t.chars() {
                    if c == '|' {
                        v.push(String::new());
                    } else {
                        v.last_mut().unwrap().push(c);
                    }
                }
                v
            };
            let rule = Rule { pattern: v[0].chars().collect(), codes: [codes(v[1]), codes(v[2]), codes(v[3])] };
            let c = rule.pattern[0] as usize;
            if c < 128 {
                r.ascii[c].push(r.rules.len());
            } else {
                r.other.push(r.rules.len());
            }
            r.rules.push(rule);
            s = t;
        } else if let Some((t, a, b)) = folding(s) {
            r.folds.push((a, b));
            if (a as usize) < 128 {
                r.ascii_fold[a as usize] = b;
            }
            s = t;
        } else if let Some(t) = rest_of_line(s) {
            s = t;
        } else if let Some((t, n)) = long_comment(s) {
            line += n;
            s = t;
        } else {
            return bad();
        }
        line += 1;
    }
    Ok(r)
}

fn vowel(c: Option<&char>) -> bool {
    matches!(c, Some('a' | 'e' | 'i' | 'o' | 'u'))
}

struct Branch {
    code: String,
    last: Option<String>,
}

/// Codes of six digits: all of them, or only the first choices.
pub fn codes(r: &Rules, fold: bool, s: &[char], all: bool) -> Vec<String> {
    let mut w = Vec::new();
    for c in s {
        if c.is_whitespace() {
            continue;
        }
        let mut c = c.to_lowercase().next().unwrap();
        if fold {
            // the last line for a character counts
            if (c as usize) < 128 {
                c = r.ascii_fold[c as usize];
            } else if let Some(f) = r.folds.iter().rev().find(|f| f.0 == c) {
                c = f.1;
            }
        }
        w.push(c);
    }
    let mut branches = vec![Branch { code: String::new(), last: None }];
    let mut last = '\0';
    let mut k = 0;
    while k < w.len() {
        let c = w[k];
        // the longest pattern that is here, the first of the file among equals
        let mut best: Option<&Rule> = None;
        let mut known = false;
        for x in r.starting(c) {
            let x = &r.rules[*x];
            if x.pattern[0] != c {
                continue;
            }
            known = true;
            let n = x.pattern.len();
            if k + n <= w.len() && (1..n).all(|j| w[k + j] == x.pattern[j]) && best.map_or(true, |b| n > b.pattern.len()) {
                best = Some(x);
            }
        }
        let mut step = 1;
        if let Some(x) = best {
            step = x.pattern.len();
            let which = if last == '\0' {
                0
            } else if vowel(w.get(k + step)) {
                1
            } else {
                2
            };
            let force = (last == 'm' && c == 'n') || (last == 'n' && c == 'm');
            let mut next: Vec<Branch> = Vec::new();
            for b in &branches {
                for a in &x.codes[which] {
                    let mut code = b.code.clone();
                    let repeated = match &b.last {
                        Some(l) => l.ends_with(a.as_str()),
                        None => false,
                    };
                    if !repeated || force {
                        for d in a.chars() {
                            if code.chars().count() < 6 {
                                code.push(d);
                            }
                        }
                    }
                    if !next.iter().any(|n| n.code == code) {
                        next.push(Branch { code, last: Some(a.clone()) });
                    }
                    if !all {
                        break;
                    }
                }
            }
            branches = next;
        }
        if known {
            last = c;
        }
        k += step;
    }
    branches
        .into_iter()
        .map(|b| {
            let mut c = b.code;
            while c.chars().count() < 6 {
                c.push('0');
            }
            c
        })
        .collect()
}
