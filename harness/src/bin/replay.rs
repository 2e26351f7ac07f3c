//! Runs single inputs of a check natively, on the real code.
//! Reads lines `ENTRY V1,V2,...`, writes for each `ok|assume|assert N|panic MESSAGE|inputs MESSAGE`,
//! the bytes put out (hexadecimal) and the notes, separated by tabs.
use std::io::{BufRead, Write};
use std::panic;
use vh::native::{Run, Stop, RUN};

fn main() {
    if std::env::args().nth(1).as_deref() == Some("refs") {
        return refs();
    }
    if std::env::args().nth(1).as_deref() == Some("list") {
        return vh::table().iter().for_each(|x| println!("{}", x.0));
    }
    let where_ = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let w = where_.clone();
    panic::set_hook(Box::new(move |i| {
        *w.lock().unwrap() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    }));
    let table = vh::table();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let (entry, vals) = line.split_once(' ').unwrap_or((&line, ""));
        let inputs = vals.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        RUN.with(|r| *r.borrow_mut() = Run { inputs, ..Run::default() });
        let f = match table.iter().find(|x| x.0 == entry) {
            Some(f) => f.1,
            None => {
                println!("inputs no entry {entry}\t\t");
                continue;
            }
        };
        let r = panic::catch_unwind(|| f());
        let verdict = match r {
            Ok(()) => "ok".to_string(),
            Err(e) => match e.downcast_ref::<Stop>() {
                Some(Stop::Assume) => "assume".into(),
                Some(Stop::Assert(n)) => format!("assert {n}"),
                Some(Stop::Inputs(m)) => format!("inputs {m}"),
                None => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                    format!("panic {} ({})", m.replace(['\t', '\n'], " "), where_.lock().unwrap())
                }
            },
        };
        RUN.with(|r| {
            let r = r.borrow();
            let h: String = r.outs.iter().map(|b| format!("{b:02x}")).collect();
            let n: Vec<String> = r.notes.iter().map(|(a, b)| format!("{a}: {b}")).collect();
            println!("{verdict}\t{h}\t{}", n.join("; ").replace(['\n', '\t'], " "));
        });
        std::io::stdout().flush().unwrap();
    }
}

/// For development: what the reference models say of the words of stdin (`KEY<tab>WORD`).
fn refs() {
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let (k, w) = line.split_once('\t').unwrap();
        let mut s = String::new();
        let mut i = w.chars();
        while let Some(c) = i.next() {
            if c == '\\' {
                let h: String = i.by_ref().skip(1).take_while(|c| *c != '}').collect();
                s.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
            } else {
                s.push(c);
            }
        }
        println!("{}", vh::refs::by_key(k, &s).replace('\n', "\\n").replace('\r', "\\r"));
    }
}
