//! Stand-in for the minidom crate, whose parser is out of reach of the
//! executor: the tree is the one described by `doc.rs`, whatever was read.
#![allow(dead_code)]
#[path = "../../../harness/src/api.rs"]
pub mod api;
#[path = "../../src/doc.rs"]
pub mod doc;
use doc::Text;
use std::str::FromStr;

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Element(pub usize);
const fn nodes<const N: usize>() -> [Element; N] {
    let mut t = [const { Element(0) }; N];
    let mut i = 0;
    while i < N {
        t[i] = Element(i);
        i += 1;
    }
    t
}
static NODES: [Element; 100] = nodes();

impl FromStr for Element {
    type Err = Error;
    fn from_str(_: &str) -> Result<Element, Error> {
        Ok(Element(0))
    }
}
/// decimal digits of a number
fn digits(mark: &str, x: usize) -> &'static str {
    let mut v: Vec<u8> = Vec::with_capacity(8);
    for c in mark.bytes() {
        v.push(c);
    }
    let mut d = 1;
    while d * 10 <= x {
        d *= 10;
    }
    while d > 0 {
        v.push(b'0' + (x / d % 10) as u8);
        d /= 10;
    }
    unsafe { std::str::from_utf8_unchecked(Vec::leak(v)) }
}
impl Element {
    pub fn name(&self) -> &str {
        doc::name(self.0)
    }
    pub fn attr(&self, name: &str) -> Option<&str> {
        match doc::attr(self.0, name) {
            Text::Absent => None,
            Text::Number(k) => Some(digits("@", k as usize)),
            Text::Int(k) => Some(digits("", k)),
            Text::Word(w) => Some(w),
        }
    }
    pub fn children(&self) -> Children<'_> {
        Children { e: self, k: 0, n: None }
    }
    pub fn is<N: AsRef<str>, S>(&self, name: N, _: S) -> bool {
        self.name() == name.as_ref()
    }
    pub fn get_child<N: AsRef<str>, S>(&self, name: N, _: S) -> Option<&Element> {
        let name = name.as_ref();
        self.children().find(|c| c.name() == name)
    }
    pub fn has_child<N: AsRef<str>, S>(&self, name: N, s: S) -> bool {
        self.get_child(name, s).is_some()
    }
}
pub struct Children<'a> {
    e: &'a Element,
    k: usize,
    n: Option<usize>,
}
impl<'a> Iterator for Children<'a> {
    type Item = &'a Element;
    fn next(&mut self) -> Option<&'a Element> {
        let n = match self.n {
            Some(n) => n,
            None => doc::children(self.e.0),
        };
        self.n = Some(n);
        if self.k < n {
            self.k += 1;
            Some(&NODES[doc::child(self.e.0, self.k - 1)])
        } else {
            None
        }
    }
}
