//! Events: flat JSON objects, one per line. An event is a call (name, arguments) and its reply.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i64),
    S(String),
    L(Vec<i64>),
    P(Vec<Vec<i64>>),
}

#[derive(Clone, Debug, Default)]
pub struct Ev(pub Vec<(String, Val)>);

impl Ev {
    pub fn new(o: &str) -> Ev {
        Ev(vec![("o".into(), Val::S(o.into())), ("x".into(), Val::I(0))])
    }
    pub fn i(mut self, k: &str, v: i64) -> Ev {
        self.set(k, Val::I(v));
        self
    }
    pub fn s(mut self, k: &str, v: &str) -> Ev {
        self.set(k, Val::S(v.into()));
        self
    }
    pub fn l(mut self, k: &str, v: Vec<i64>) -> Ev {
        self.set(k, Val::L(v));
        self
    }
    pub fn p(mut self, k: &str, v: Vec<Vec<i64>>) -> Ev {
        self.set(k, Val::P(v));
        self
    }
    pub fn set(&mut self, k: &str, v: Val) {
        for e in self.0.iter_mut() {
            if e.0 == k {
                e.1 = v;
                return;
            }
        }
        self.0.push((k.into(), v));
    }
    pub fn del(&mut self, k: &str) {
        self.0.retain(|e| e.0 != k)
    }
    pub fn seti(&mut self, k: &str, v: i64) {
        self.set(k, Val::I(v))
    }
    pub fn get(&self, k: &str) -> Option<&Val> {
        self.0.iter().find(|e| e.0 == k).map(|e| &e.1)
    }
    pub fn op(&self) -> &str {
        match self.get("o") {
            Some(Val::S(s)) => s,
            _ => "",
        }
    }
    pub fn int(&self, k: &str) -> i64 {
        match self.get(k) {
            Some(Val::I(i)) => *i,
            _ => 0,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k).is_some()
    }
    pub fn str(&self, k: &str) -> &str {
        match self.get(k) {
            Some(Val::S(s)) => s,
            _ => "",
        }
    }
    pub fn list(&self, k: &str) -> Vec<i64> {
        match self.get(k) {
            Some(Val::L(l)) => l.clone(),
            Some(Val::P(l)) if l.is_empty() => vec![],
            _ => vec![],
        }
    }
    pub fn pairs(&self, k: &str) -> Vec<Vec<i64>> {
        match self.get(k) {
            Some(Val::P(l)) => l.clone(),
            _ => vec![],
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::with_capacity(64);
        o.push('{');
        for (n, (k, v)) in self.0.iter().enumerate() {
            if n > 0 {
                o.push(',');
            }
            let _ = write!(o, "\"{}\":", k);
            match v {
                Val::I(i) => {
                    let _ = write!(o, "{}", i);
                }
                Val::S(s) => {
                    o.push('"');
                    for c in s.chars() {
                        match c {
                            '"' | '\\' => {
                                o.push('\\');
                                o.push(c)
                            }
                            '\n' => o.push_str("\\n"),
                            c if (c as u32) < 32 => o.push(' '),
                            c => o.push(c),
                        }
                    }
                    o.push('"');
                }
                Val::L(l) => wl(&mut o, l),
                Val::P(p) => {
                    o.push('[');
                    for (n, l) in p.iter().enumerate() {
                        if n > 0 {
                            o.push(',');
                        }
                        wl(&mut o, l);
                    }
                    o.push(']');
                }
            }
        }
        o.push('}');
        o
    }
    pub fn parse(line: &str) -> Ev {
        let b = line.as_bytes();
        let mut p = Parser { b, i: 0 };
        p.ws();
        let mut out = vec![];
        p.expect(b'{');
        loop {
            p.ws();
            if p.peek() == b'}' {
                break;
            }
            let k = p.string();
            p.ws();
            p.expect(b':');
            p.ws();
            let v = p.value();
            out.push((k, v));
            p.ws();
            if p.peek() == b',' {
                p.i += 1;
            }
        }
        Ev(out)
    }
}

fn wl(o: &mut String, l: &[i64]) {
    o.push('[');
    for (n, i) in l.iter().enumerate() {
        if n > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", i);
    }
    o.push(']');
}

struct Parser<'a> {
    b: &'a [u8],
    i: usize,
}
impl Parser<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] as char).is_whitespace() {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).expect("unexpected end of event")
    }
    fn expect(&mut self, c: u8) {
        assert_eq!(self.peek(), c, "malformed event");
        self.i += 1
    }
    fn string(&mut self) -> String {
        self.expect(b'"');
        let mut o = vec![];
        loop {
            let c = self.peek();
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    o.push(self.peek());
                    self.i += 1
                }
                c => o.push(c),
            }
        }
        String::from_utf8_lossy(&o).into_owned()
    }
    fn int(&mut self) -> i64 {
        let s = self.i;
        if self.peek() == b'-' {
            self.i += 1
        }
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            self.i += 1
        }
        std::str::from_utf8(&self.b[s..self.i]).unwrap().parse().expect("number")
    }
    fn value(&mut self) -> Val {
        match self.peek() {
            b'"' => Val::S(self.string()),
            b'[' => {
                self.i += 1;
                let mut l = vec![];
                let mut pp = vec![];
                loop {
                    self.ws();
                    match self.peek() {
                        b']' => {
                            self.i += 1;
                            break;
                        }
                        b',' => self.i += 1,
                        b'[' => match self.value() {
                            Val::L(x) => pp.push(x),
                            _ => panic!("malformed event"),
                        },
                        _ => l.push(self.int()),
                    }
                }
                if pp.is_empty() {
                    Val::L(l)
                } else {
                    Val::P(pp)
                }
            }
            _ => Val::I(self.int()),
        }
    }
}
