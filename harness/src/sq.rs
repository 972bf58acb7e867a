//! Runtime for the executable form of the contract language.
use std::rc::Rc;

/// Persistent sequence with O(1) slicing.
pub struct Sq<T> { v: Rc<Vec<T>>, lo: usize, hi: usize }
pub type Seq<T> = Sq<T>;
#[allow(non_camel_case_types)]
pub type int = i64;
pub type Str = Sq<char>;
pub type PR<T> = Result<(Str, T), super::contracts::NE>;
pub type Fun<A, B> = Rc<dyn Fn(A) -> B>;

impl<T> Clone for Sq<T> { fn clone(&self) -> Self { Sq { v: self.v.clone(), lo: self.lo, hi: self.hi } } }
impl<T: PartialEq> PartialEq for Sq<T> { fn eq(&self, o: &Self) -> bool { self.s() == o.s() } }
impl<T: std::fmt::Debug + 'static> std::fmt::Debug for Sq<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if let Some(s) = (self as &dyn std::any::Any).downcast_ref::<Str>() { return write!(f, "{:?}", s.string()); }
        f.debug_list().entries(self.s()).finish()
    }
}
impl<T> From<Vec<T>> for Sq<T> { fn from(v: Vec<T>) -> Self { let hi = v.len(); Sq { v: Rc::new(v), lo: 0, hi } } }
impl<T> Sq<T> {
    pub fn new() -> Self { Sq::from(vec![]) }
    pub fn s(&self) -> &[T] { &self.v[self.lo..self.hi] }
    pub fn len(&self) -> i64 { (self.hi - self.lo) as i64 }
    pub fn skip(&self, n: i64) -> Self { assert!(0 <= n && n <= self.len()); Sq { v: self.v.clone(), lo: self.lo + n as usize, hi: self.hi } }
    pub fn take(&self, n: i64) -> Self { assert!(0 <= n && n <= self.len()); Sq { v: self.v.clone(), lo: self.lo, hi: self.lo + n as usize } }
}
impl<T: Clone> Sq<T> {
    pub fn at(&self, i: i64) -> T { self.s()[i as usize].clone() }
    pub fn cat(&self, o: &Self) -> Self {
        if o.len() == 0 { return self.clone(); }
        if self.len() == 0 { return o.clone(); }
        let mut v = self.s().to_vec(); v.extend_from_slice(o.s()); Sq::from(v)
    }
    pub fn update(&self, i: i64, x: T) -> Sq<T> { let mut v: Vec<T> = self.s().to_vec(); v[i as usize] = x; v.into() }
    pub fn push(&self, x: T) -> Self { self.cat(&Sq::from(vec![x])) }
    pub fn last(&self) -> T { self.at(self.len() - 1) }
    pub fn drop_last(&self) -> Self { self.take(self.len() - 1) }
}
impl Str { pub fn string(&self) -> String { self.s().iter().collect() } }
pub fn slit(s: &str) -> Str { Sq::from(s.chars().collect::<Vec<_>>()) }
pub fn pfx(i: Str, d: Str) -> bool { i.s().starts_with(d.s()) }
pub fn c_alpha(c: char) -> bool { c.is_alphabetic() }
pub fn c_alnum(c: char) -> bool { c.is_alphanumeric() }
pub fn cow_borrowed(_: Str) -> bool { true }
pub fn x_lower(s: Str) -> Str { slit(&s.string().to_lowercase()) }
pub fn x_upper(s: Str) -> Str { slit(&s.string().to_uppercase()) }
pub fn x_escape_default(c: char) -> Str { slit(&c.escape_default().to_string()) }
pub fn int_to_char(n: int) -> char { char::from_u32(n as u32).unwrap() }
/// The standard parse of a number of the `k`-th type, as a code.
pub fn x_parse_num(k: int, s: Str) -> Option<int> {
    let t = s.string();
    match k {
        0 => t.parse::<i8>().ok().map(|x| x as i64), 1 => t.parse::<i16>().ok().map(|x| x as i64), 2 => t.parse::<i32>().ok().map(|x| x as i64), 3 => t.parse::<i64>().ok(),
        4 => t.parse::<u8>().ok().map(|x| x as i64), 5 => t.parse::<u16>().ok().map(|x| x as i64), 6 => t.parse::<u32>().ok().map(|x| x as i64), 7 => t.parse::<u64>().ok().map(|x| x as i64),
        8 => t.parse::<f32>().ok().map(|x| x.to_bits() as i64), _ => t.parse::<f64>().ok().map(|x| x.to_bits() as i64),
    }
}
