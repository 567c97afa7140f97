//! Symbol types the library is instantiated with.
use std::alloc::{GlobalAlloc, Layout, System};
use std::hash::{Hash, Hasher};

/// counts the bytes that this thread allocates and frees
pub struct Bytes;
thread_local! {
    static BYTES: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
impl Bytes {
    pub fn alive() -> i64 {
        BYTES.with(|c| c.get())
    }
    fn add(n: i64) {
        let _ = BYTES.try_with(|c| c.set(c.get() + n));
    }
}
unsafe impl GlobalAlloc for Bytes {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        Bytes::add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        Bytes::add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        Bytes::add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub trait Sym: Clone + Eq + Hash {
    fn of(s: &str) -> Self;
    fn name(&self) -> String;
    /// the type of a token with this lexeme
    fn token(s: &str, _lex: i64) -> Self {
        Self::of(s)
    }
    /// how the type of a token or node with this lexeme is written down
    fn shown(&self, _lex: i64) -> String {
        self.name()
    }
    /// operations on symbols so far, for types that count them
    fn ops() -> i64 {
        0
    }
    /// symbols that exist now, for types that count them
    fn alive() -> i64 {
        0
    }
}

thread_local! {
    static OPS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static SYMS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static LEXS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
fn count() {
    OPS.with(|c| c.set(c.get() + 1));
}

/// counts how often symbols are compared, hashed and cloned, and how many exist
pub struct Counted(pub String);
impl Counted {
    fn new(s: &str) -> Self {
        SYMS.with(|c| c.set(c.get() + 1));
        Counted(s.to_string())
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        SYMS.with(|c| c.set(c.get() - 1));
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        count();
        Counted::new(&self.0)
    }
}
impl PartialEq for Counted {
    fn eq(&self, o: &Self) -> bool {
        count();
        self.0 == o.0
    }
}
impl Eq for Counted {}
impl Hash for Counted {
    fn hash<H: Hasher>(&self, h: &mut H) {
        count();
        self.0.hash(h)
    }
}
impl Sym for Counted {
    fn of(s: &str) -> Self {
        Counted::new(s)
    }
    fn name(&self) -> String {
        self.0.clone()
    }
    fn ops() -> i64 {
        OPS.with(|c| c.get())
    }
    fn alive() -> i64 {
        SYMS.with(|c| c.get())
    }
}

impl Sym for String {
    fn of(s: &str) -> Self {
        s.to_string()
    }
    fn name(&self) -> String {
        self.clone()
    }
}

/// every symbol has the same hash value
#[derive(Clone, PartialEq, Eq)]
pub struct SameHash(pub String);
impl Hash for SameHash {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
impl Sym for SameHash {
    fn of(s: &str) -> Self {
        SameHash(s.to_string())
    }
    fn name(&self) -> String {
        self.0.clone()
    }
}

/// a few hash values only, numbers instead of text
#[derive(Clone, PartialEq, Eq)]
pub struct Num(pub u64);
impl Hash for Num {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.0 % 3)
    }
}
impl Sym for Num {
    fn of(s: &str) -> Self {
        // up to 8 bytes of text, packed
        assert!(s.len() <= 8, "harness: symbol too long for Num: {}", s);
        Num(s.bytes().rev().fold(0u64, |a, b| (a << 8) | b as u64))
    }
    fn name(&self) -> String {
        let mut v = vec![];
        let mut n = self.0;
        while n != 0 {
            v.push((n & 255) as u8);
            n >>= 8;
        }
        String::from_utf8(v).unwrap()
    }
}

/// not Debug, not Copy, not comparable: all the library may do is clone it;
/// counts how many exist in this thread
pub struct Lx(pub i64);
impl Lx {
    pub fn new(x: i64) -> Self {
        LEXS.with(|c| c.set(c.get() + 1));
        Lx(x)
    }
    pub fn alive() -> i64 {
        LEXS.with(|c| c.get())
    }
}
impl Clone for Lx {
    fn clone(&self) -> Self {
        Lx::new(self.0)
    }
}
impl Drop for Lx {
    fn drop(&mut self) {
        LEXS.with(|c| c.set(c.get() - 1));
    }
}

/// equal when they differ in upper and lower case only
#[derive(Clone)]
pub struct Fold(pub String);
impl PartialEq for Fold {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_lowercase() == o.0.to_lowercase()
    }
}
impl Eq for Fold {}
impl Hash for Fold {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.to_lowercase().hash(h)
    }
}
impl Sym for Fold {
    fn of(s: &str) -> Self {
        Fold(s.to_string())
    }
    fn name(&self) -> String {
        self.0.clone()
    }
}

/// equal when the symbol is; every token has a type of its own, marked with its
/// lexeme, and a type next to another token's lexeme is written with a quote
#[derive(Clone)]
pub struct Own(pub String, pub i64);
impl PartialEq for Own {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Own {}
impl Hash for Own {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Sym for Own {
    fn of(s: &str) -> Self {
        Own(s.to_string(), -1)
    }
    fn name(&self) -> String {
        self.0.clone()
    }
    fn token(s: &str, lex: i64) -> Self {
        Own(s.to_string(), lex)
    }
    fn shown(&self, lex: i64) -> String {
        if self.1 == lex {
            self.0.clone()
        } else {
            format!("{}'", self.0)
        }
    }
}

/// "nan" is not equal to itself
#[derive(Clone)]
pub struct Odd(pub String);
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0 && self.0 != "nan"
    }
}
impl Eq for Odd {}
impl Hash for Odd {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Sym for Odd {
    fn of(s: &str) -> Self {
        Odd(s.to_string())
    }
    fn name(&self) -> String {
        self.0.clone()
    }
}
