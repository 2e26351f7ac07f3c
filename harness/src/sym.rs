//! What a check says to the symbolic executor, and how it makes symbolic strings.

mod ext {
    extern "C-unwind" {
        pub fn sym_pick(n: u64) -> u64;
        pub fn sym_fork(n: u64) -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, id: u32);
        pub fn sym_out(p: *const u8, n: u64);
    }
}

/// A value of 0..n that stays symbolic.
#[inline(always)]
pub fn pick(n: usize) -> usize {
    unsafe { ext::sym_pick(n as u64) as usize }
}
/// A value of 0..n, one path per value.
#[inline(always)]
pub fn fork(n: usize) -> usize {
    unsafe { ext::sym_fork(n as u64) as usize }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { ext::sym_assume(b) }
}
#[inline(always)]
pub fn assert(b: bool, id: u32) {
    unsafe { ext::sym_assert(b, id) }
}
pub fn out(b: &[u8]) {
    for c in b.chunks(255) {
        unsafe { ext::sym_out(c.as_ptr(), c.len() as u64) }
    }
}

/// Only for the reader of a counterexample.
#[cfg(feature = "native")]
pub fn note(what: &str, s: &dyn std::fmt::Debug) {
    crate::native::note(what, s)
}
#[cfg(not(feature = "native"))]
#[macro_export]
macro_rules! note {
    ($($t:tt)*) => {};
}
#[cfg(feature = "native")]
#[macro_export]
macro_rules! note {
    ($w:expr, $s:expr) => {
        $crate::sym::note($w, &$s)
    };
}

/// Assertion numbers, `MESSAGES[id]` describes what an assertion says.
pub const DIFF: u32 = 1;
pub const LEN: u32 = 2;
pub const LAW: u32 = 3;

/// The result is the expected one, byte per byte.
pub fn same(got: &str, want: &str) {
    note!("result", got);
    note!("expected", want);
    let (g, w) = (got.as_bytes(), want.as_bytes());
    out(g);
    assert(g.len() == w.len(), LEN);
    for i in 0..g.len() {
        assert(g[i] == w[i], DIFF);
    }
}

pub fn law(b: bool) {
    assert(b, LAW)
}

/// A string with symbolic characters, and its characters.
#[derive(Clone, Default)]
pub struct In {
    pub s: String,
    pub c: Vec<char>,
}

/// Blocks of 64 characters, by the bytes before the last one: every character of two bytes, and
/// blocks of three and four bytes with letters that change with the case, spaces, signs...
const WIDE: &[u32] = &[
    0x80, 0xc0, 0x100, 0x140, 0x1c0, 0x380, 0x1e80, 0x2100, 0xfb00, 0x3000, 0x10400, // the first ones (NEAR)
    0x180, 0x200, 0x240, 0x280, 0x2c0, 0x300, 0x340, 0x3c0, 0x400, 0x440, 0x480, 0x4c0, 0x500, 0x540, 0x580, 0x5c0, 0x600, 0x640, 0x680,
    0x6c0, 0x700, 0x740, 0x780, 0x7c0, 0x800, 0x10c0, 0x13c0, 0x1c80, 0x1e00, 0x1e40, 0x1ec0, 0x1f00, 0x1f40, 0x1f80, 0x1fc0,
    0x2000, 0x2140, 0x2180, 0x24c0, 0x2c00, 0x4e00, 0xa640, 0xab40, 0xd7c0, 0xe000, 0xff00, 0xffc0, 0x10000, 0x1e900, 0x1f600, 0x10ffc0,
];
pub const NEAR: usize = 11;
pub const ALL_WIDE: usize = WIDE.len();
/// À–ÿ, Ā–ſ: what most names need.
pub const LATIN: usize = 4;

const BOTH: &[u8; 52] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const SEP: &[u8; 12] = b" -'.,_1\t\n/|(";

impl In {
    pub fn new() -> Self {
        In { s: String::with_capacity(64), c: Vec::with_capacity(32) }
    }
    pub fn byte(&mut self, b: u8) {
        // b < 128 on every path
        unsafe { self.s.as_mut_vec().push(b) };
        self.c.push(b as char);
    }
    pub fn ch(&mut self, c: char) {
        self.s.push(c);
        self.c.push(c);
    }
    pub fn lit(&mut self, s: &str) {
        for c in s.chars() {
            self.ch(c);
        }
    }
    /// One of the `n` first blocks, any character of it.
    pub fn wide(&mut self, n: usize) {
        let k = fork(n);
        self.wide_of(k)
    }
    pub fn of(&mut self, set: &[u8]) {
        self.byte(set[pick(set.len())]);
    }
    /// A template: `?` any of a-z, `^` any of A-Z, `@` any ASCII letter, `#` any ASCII character,
    /// `&` a separator or sign, `%` a Latin letter outside ASCII, `~` a character of the NEAR blocks,
    /// `*` one of all the blocks, `$` any ASCII character or one of the NEAR blocks,
    /// `[abc]` one of these (`]` first). Anything else is itself.
    pub fn tpl(&mut self, t: &str) {
        let b: &[u8] = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'?' => {
                    let v = pick(26) as u8;
                    self.byte(b'a' + v)
                }
                b'^' => {
                    let v = pick(26) as u8;
                    self.byte(b'A' + v)
                }
                b'@' => self.of(BOTH),
                b'#' => {
                    let v = pick(128) as u8;
                    self.byte(v)
                }
                b'&' => self.of(SEP),
                b'%' => self.wide(LATIN),
                b'~' => self.wide(NEAR),
                b'*' => self.wide(ALL_WIDE),
                b'$' => {
                    let k = fork(NEAR + 1);
                    if k == NEAR {
                        let v = pick(128) as u8;
                        self.byte(v)
                    } else {
                        self.wide_of(k)
                    }
                }
                b'[' => {
                    let mut j = i + 2;
                    while b[j] != b']' {
                        j += 1;
                    }
                    if t[i + 1..j].is_ascii() {
                        self.of(&b[i + 1..j]);
                    } else {
                        let n = t[i + 1..j].chars().count();
                        let k = fork(n);
                        self.ch(t[i + 1..j].chars().nth(k).unwrap());
                    }
                    i = j;
                }
                x if x < 128 => self.byte(x),
                _ => {
                    let n = if b[i] >= 0xf0 { 4 } else if b[i] >= 0xe0 { 3 } else { 2 };
                    self.lit(&t[i..i + n]);
                    i += n - 1;
                }
            }
            i += 1;
        }
    }
    fn wide_of(&mut self, k: usize) {
        self.block(WIDE[k])
    }
    /// Any character of the 64 from `base`, which is not ASCII.
    pub fn block(&mut self, base: u32) {
        let v = pick(64) as u32;
        let b = unsafe { self.s.as_mut_vec() };
        if base < 0x800 {
            b.push(0xc0 | (base >> 6) as u8);
        } else if base < 0x10000 {
            b.push(0xe0 | (base >> 12) as u8);
            b.push(0x80 | (base >> 6 & 63) as u8);
        } else {
            b.push(0xf0 | (base >> 18) as u8);
            b.push(0x80 | (base >> 12 & 63) as u8);
            b.push(0x80 | (base >> 6 & 63) as u8);
        }
        b.push(0x80 | (v as u8));
        self.c.push(unsafe { char::from_u32_unchecked(base + v) });
    }
}

/// One of these templates.
pub fn one_of(ts: &[&str]) -> In {
    let mut i = In::new();
    let k = fork_many(ts.len());
    i.tpl(ts[k]);
    note!("input", i.s);
    i
}

/// One of these forms, where `1` and `2` stand for two of these fragments.
pub fn pair_of(forms: &[&str], frags: &[&str]) -> In {
    let mut i = In::new();
    let f = fork(forms.len());
    let a = fork(frags.len());
    let b = if forms[f].contains('2') { fork(frags.len()) } else { 0 };
    let mut t = String::with_capacity(64);
    for c in forms[f].bytes() {
        match c {
            b'1' => t.push_str(frags[a]),
            b'2' => t.push_str(frags[b]),
            _ => t.push(c as char),
        }
    }
    i.tpl(&t);
    note!("input", i.s);
    i
}

/// Names and words that make the algorithms go through their special cases.
pub const NAMES: &[&str] = &[
    "schwarzenegger", "macgregor", "knightley", "wrigley", "phillips", "pfister", "czerny", "vanderbilt", "o'connor", "saint-exupery", "thompson", "vaughan", "mcdonough",
    "hochstein", "gianelli", "rodriguez", "guillermo", "cabrillo", "jankelowicz", "filipowicz", "arnoff", "szczepaniak", "rosochowaciec", "przemyslaw", "breaux", "resnais",
    "dumoulin", "villanueva", "tchaikovsky", "zhukov", "chrysanthos", "charisma", "architects", "orchestra", "enough", "trough", "bellocchio", "bertucci", "accident",
    "edgeworth", "dangerfield", "fitzgerald", "haughton", "wechsler", "hugh", "sugar", "jose", "san jacinto", "van gogh", "von braun", "westerlund", "nguyen", "yvonne",
    "quigley", "xavier", "zwingli", "plumber", "ghiradelli", "campbell", "raspberry", "cagney", "tagliaro", "island", "mission", "expansion", "patience", "thames",
    "stephan", "lloyd", "aaron", "ewing", "hobbs", "bajador", "dgebuadze", "whistle", "awry", "lehmann", "rhys", "roszkowski", "kowalewska", "giordano", "d'angelo",
    "goldschmidt", "marquez", "ribeiro", "nachtigall", "przybyla", "gutierrez", "chauchat", "muller-lyer", "de la cruz", "abdelhamid", "yitzhak", "tzadok",
];
/// One of the words with `with`, a template, in the place of `cut` characters, anywhere.
pub fn changed(words: &[&str], with: &[&str], cuts: &[usize]) -> In {
    let w: Vec<char> = words[fork_many(words.len())].chars().collect();
    let t = with[fork(with.len())];
    let cut = cuts[fork(cuts.len())];
    assume(w.len() >= cut);
    let at = fork_many(w.len() - cut + 1);
    let mut i = In::new();
    for (k, c) in w.iter().enumerate() {
        if k == at {
            i.tpl(t);
        }
        if k < at || k >= at + cut {
            i.ch(*c);
        }
    }
    if at == w.len() {
        i.tpl(t);
    }
    note!("input", i.s);
    i
}
/// A name with a change, and the name itself.
pub fn changed_pair(words: &[&str], with: &[&str], cuts: &[usize]) -> (In, In) {
    let k = fork_many(words.len());
    let mut n = In::new();
    n.lit(words[k]);
    (changed(&words[k..k + 1], with, cuts), n)
}
/// A text with one of its characters replaced by any ASCII one, one put in, or one missing.
pub fn broken(texts: &[&str]) -> In {
    let t: Vec<char> = texts[fork(texts.len())].chars().collect();
    let op = fork(3);
    let at = fork_many(t.len() + 1);
    assume(op == 0 || at < t.len());
    let mut i = In { s: String::with_capacity(512), c: Vec::with_capacity(512) };
    for k in 0..t.len() + 1 {
        if k == at && op < 2 {
            i.tpl("#");
        }
        if k < t.len() && (k != at || op == 0) {
            i.ch(t[k]);
        }
    }
    // escapes that the stand-in of the regular expressions has no meaning for
    for k in 0..i.c.len() {
        if k == at && k + 1 < i.c.len() && op < 2 {
            assume(!(i.c[k] == '\\' && i.c[k + 1].is_ascii_alphanumeric()));
        }
    }
    note!("input", i.s);
    i
}
/// Lines of these templates.
pub fn lines(n: usize, pool: &[&str]) -> In {
    let mut i = In { s: String::with_capacity(512), c: Vec::with_capacity(512) };
    let end = fork(2) == 1;
    for k in 0..n {
        let l = fork(pool.len());
        i.tpl(pool[l]);
        if k + 1 < n || end {
            i.ch('\n');
        }
    }
    note!("input", i.s);
    i
}
/// `head`, as many times `body` as the length asks for, `tail`.
pub fn long(forms: &[(&str, &str, &str)], lengths: &[usize]) -> In {
    let (head, body, tail) = forms[fork(forms.len())];
    let n = lengths[fork(lengths.len())];
    let mut i = In::new();
    i.tpl(head);
    let b: Vec<char> = body.chars().collect();
    for k in 0..n {
        i.ch(b[k % b.len()]);
    }
    i.tpl(tail);
    note!("length", i.c.len());
    note!("input", i.s);
    i
}
pub const LONG: &[usize] = &[14, 29, 30, 31, 62, 125, 253, 254, 255, 256, 300];
pub const LONG_T: &[usize] = &[7, 8, 9, 11, 12, 15, 16, 17, 18, 19, 20, 24, 32, 40, 48, 63, 64, 99, 100, 127, 128, 129, 200, 257, 511, 512, 513, 1000];

/// A value of 0..n, n up to 65536, one path per value.
pub fn fork_many(n: usize) -> usize {
    if n <= 256 {
        return fork(n);
    }
    let hi = (n + 255) / 256;
    let h = fork(hi);
    let lo = if h + 1 == hi { n - h * 256 } else { 256 };
    h * 256 + fork(lo)
}

/// Kept for ever: dropping it would only cost time on every path.
pub fn keep<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

pub fn string(c: &[char]) -> String {
    c.iter().collect()
}

#[macro_export]
macro_rules! entries {
    ($($name:ident => $body:block)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() $body)*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name as extern "C-unwind" fn())),*];
    };
}
