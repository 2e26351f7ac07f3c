//! Regular expressions: literals, `.`, classes, groups, alternatives, `* + ?` and anchors. A match
//! on symbolic characters is one formula. Also the stand-in for the regex crate in the symbolic build.

#[derive(Clone, Debug)]
pub struct Class {
    negated: bool,
    ranges: Vec<(u32, u32)>,
    nested: Vec<Class>,
}
impl Class {
    fn has(&self, c: u32) -> bool {
        let mut r = false;
        for &(a, b) in &self.ranges {
            r |= (c >= a) & (c <= b);
        }
        for k in &self.nested {
            r |= k.has(c);
        }
        r ^ self.negated
    }
}

#[derive(Clone, Debug)]
pub enum Node {
    Class(Class),
    Start,
    End,
    Seq(Vec<Node>),
    Alt(Vec<Node>),
    /// least number (0 or 1), more than one?
    Repeat(Box<Node>, usize, bool),
}

struct Parser<'a> {
    c: &'a [char],
    i: usize,
}
fn err<T>(m: &str) -> Result<T, String> {
    Err(m.to_string())
}
fn unsupported() {
    #[cfg(not(feature = "native"))]
    unsafe {
        extern "C" {
            /// Not defined anywhere: the executor stops there.
            fn regex_pattern_not_supported();
        }
        regex_pattern_not_supported();
    }
    #[cfg(feature = "native")]
    panic!("this pattern is not supported")
}
impl Parser<'_> {
    fn peek(&self) -> char {
        if self.i < self.c.len() {
            self.c[self.i]
        } else {
            '\0'
        }
    }
    fn end(&self) -> bool {
        self.i >= self.c.len()
    }
    fn alt(&mut self) -> Result<Node, String> {
        let mut v = vec![self.seq()?];
        while !self.end() && self.peek() == '|' {
            self.i += 1;
            v.push(self.seq()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Node::Alt(v) })
    }
    fn seq(&mut self) -> Result<Node, String> {
        let mut v = vec![];
        while !self.end() && self.peek() != '|' && self.peek() != ')' {
            let mut n = self.atom()?;
            while !self.end() && matches!(self.peek(), '*' | '+' | '?' | '{') {
                n = match self.peek() {
                    '*' => Node::Repeat(Box::new(n), 0, true),
                    '+' => Node::Repeat(Box::new(n), 1, true),
                    '?' => match n {
                        Node::Repeat(..) => n, // lazy, the same for is_match
                        n => Node::Repeat(Box::new(n), 0, false),
                    },
                    _ => self.counted(n)?,
                };
                self.i += 1;
            }
            v.push(n);
        }
        Ok(Node::Seq(v))
    }
    fn atom(&mut self) -> Result<Node, String> {
        let c = self.peek();
        self.i += 1;
        let one = |c: char| Node::Class(Class { negated: false, ranges: vec![(c as u32, c as u32)], nested: vec![] });
        Ok(match c {
            '(' => {
                if self.peek() == '?' {
                    self.i += 1;
                    if self.peek() != ':' {
                        unsupported();
                    }
                    self.i += 1;
                }
                let n = self.alt()?;
                if self.end() {
                    return err("unclosed group");
                }
                self.i += 1;
                n
            }
            '[' => self.class()?,
            '.' => Node::Class(Class { negated: true, ranges: vec![(10, 10)], nested: vec![] }),
            '^' => Node::Start,
            '$' => Node::End,
            '*' | '+' | '?' | '{' => return err("repetition operator missing expression"),
            '\\' => one(self.escape()?),
            c => one(c),
        })
    }
    fn number(&mut self) -> Result<usize, String> {
        let (mut n, from) = (0, self.i);
        while self.peek().is_ascii_digit() && n < 100 {
            n = n * 10 + self.peek() as usize - 48;
            self.i += 1;
        }
        if self.peek().is_whitespace() || n > 20 {
            unsupported();
        }
        if self.i == from {
            return err("repetition quantifier expects a valid decimal");
        }
        Ok(n)
    }
    /// `{n}`, `{n,}` and `{n,m}`; on return self.i is at the closing brace.
    fn counted(&mut self, n: Node) -> Result<Node, String> {
        self.i += 1;
        if self.peek().is_whitespace() || self.peek() == ',' {
            unsupported();
        }
        let least = self.number()?;
        let (mut most, mut open) = (least, false);
        if self.peek() == ',' {
            self.i += 1;
            open = self.peek() == '}';
            if self.peek().is_whitespace() {
                unsupported();
            }
            if !open {
                most = self.number()?;
            }
        }
        if self.end() || self.peek() != '}' {
            return err("unclosed counted repetition");
        }
        if !open && most < least {
            return err("invalid repetition count range, the start must be <= the end");
        }
        if self.i + 1 < self.c.len() && self.c[self.i + 1] == '?' {
            self.i += 1; // lazy, the same for is_match
        }
        let mut v = vec![n.clone(); least];
        for _ in least..most {
            v.push(Node::Repeat(Box::new(n.clone()), 0, false));
        }
        if open {
            v.push(Node::Repeat(Box::new(n), 0, true));
        }
        Ok(Node::Seq(v))
    }
    fn escape(&mut self) -> Result<char, String> {
        if self.end() {
            return err("incomplete escape sequence, reached end of pattern prematurely");
        }
        let c = self.peek();
        self.i += 1;
        if c == '<' || c == '>' || "afnrtvxuUdDsSwWpPAzbB".contains(c) {
            unsupported();
        } else if c.is_ascii_alphanumeric() || !c.is_ascii() {
            return err("unrecognized escape sequence");
        }
        Ok(c)
    }
    fn class(&mut self) -> Result<Node, String> {
        let mut k = Class { negated: false, ranges: vec![], nested: vec![] };
        if !self.end() && self.peek() == '^' {
            k.negated = true;
            self.i += 1;
        }
        let first = self.i;
        loop {
            if self.end() {
                return err("unclosed character class");
            }
            let mut a = self.peek();
            self.i += 1;
            if a == ']' && self.i > first + 1 {
                break;
            }
            if a == '[' {
                if self.peek() == ':' {
                    unsupported();
                }
                if let Node::Class(inner) = self.class()? {
                    k.nested.push(inner);
                }
                continue;
            }
            if matches!(a, '&' | '~' | '-') && self.peek() == a {
                unsupported();
            }
            if a == '\\' {
                a = self.escape()?;
            }
            let mut b = a;
            if self.peek() == '-' && self.i + 1 < self.c.len() && self.c[self.i + 1] != ']' {
                self.i += 1;
                b = self.peek();
                self.i += 1;
                if b == '[' || b == '-' {
                    unsupported();
                }
                if b == '\\' {
                    b = self.escape()?;
                }
                if b < a {
                    return err("invalid character class range, the start must be <= the end");
                }
            }
            k.ranges.push((a as u32, b as u32));
        }
        Ok(Node::Class(k))
    }
}

/// at[i]: is there a match up to before character i?
fn step(n: &Node, c: &[u32], at: &[bool]) -> Vec<bool> {
    match n {
        Node::Class(k) => {
            let mut r = vec![false; at.len()];
            for i in 0..c.len() {
                r[i + 1] = at[i] & k.has(c[i]);
            }
            r
        }
        Node::Start => (0..at.len()).map(|i| i == 0 && at[i]).collect(),
        Node::End => (0..at.len()).map(|i| i + 1 == at.len() && at[i]).collect(),
        Node::Seq(v) => {
            let mut a = at.to_vec();
            for n in v {
                a = step(n, c, &a);
            }
            a
        }
        Node::Alt(v) => {
            let mut a = vec![false; at.len()];
            for n in v {
                let b = step(n, c, at);
                for i in 0..a.len() {
                    a[i] |= b[i];
                }
            }
            a
        }
        Node::Repeat(n, least, more) => {
            let mut sum = at.to_vec();
            let mut a = at.to_vec();
            for k in 0..if *more { at.len() } else { 1 } {
                a = step(n, c, &a);
                if k == 0 && *least == 1 {
                    sum = a.clone();
                } else {
                    for i in 0..a.len() {
                        sum[i] |= a[i];
                    }
                }
            }
            sum
        }
    }
}

pub fn parse(text: &str) -> Result<Node, String> {
    let c: Vec<char> = text.chars().collect();
    let mut p = Parser { c: &c, i: 0 };
    let root = p.alt()?;
    if !p.end() {
        return err("unopened group");
    }
    Ok(root)
}
pub fn found(n: &Node, c: &[u32]) -> bool {
    let at = vec![true; c.len() + 1];
    let mut any = false;
    for b in step(n, c, &at) {
        any |= b;
    }
    any
}
