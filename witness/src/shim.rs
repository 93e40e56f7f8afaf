//! Reference bodies for library functions whose own bodies are outside the memory model.
//! Analysed in place of the originals, never executed.
use std::any::{Any, TypeId};
use std::borrow::Cow;
use std::fmt::{self, Write as _};

#[cfg(feature = "serde1")]
pub mod serbuf;
#[cfg(feature = "sval2")]
pub mod svalbuf;

pub fn fmt_ty(f: &mut fmt::Formatter<'_>) -> fmt::Result {
    Ok(())
}
pub fn w_write_str(w: &mut dyn fmt::Write, s: &str) -> fmt::Result {
    w.write_str(s)
}
pub fn t_write_str<W: fmt::Write + ?Sized>(w: &mut W, s: &str) -> fmt::Result {
    w.write_str(s)
}
pub fn fmt_display<T: fmt::Display + ?Sized>(x: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Display::fmt(x, f)
}
pub fn fmt_debug<T: fmt::Debug + ?Sized>(x: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(x, f)
}
pub fn fmt_lower_hex<T: fmt::LowerHex + ?Sized>(x: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::LowerHex::fmt(x, f)
}
pub fn fmt_upper_hex<T: fmt::UpperHex + ?Sized>(x: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::UpperHex::fmt(x, f)
}
pub fn dyn_debug(x: &dyn fmt::Debug, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(x, f)
}
pub fn list_entry(f: &mut fmt::Formatter<'_>, more: bool, x: &dyn fmt::Debug) -> fmt::Result {
    if more {
        f.write_str(", ")?;
    }
    fmt::Debug::fmt(x, f)
}
pub fn sval_escape<A: fmt::Display, F: FnMut(&str) -> fmt::Result>(input: A, mut output: F) -> fmt::Result {
    let s = to_string(&input);
    output(crate::opaque::escaped(&s))
}
pub fn slice_debug<T: fmt::Debug>(x: &[T], f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let mut l = f.debug_list();
    for e in x {
        l.entry(e);
    }
    l.finish()
}
pub fn list_entries<'a, 'b, 'c, D: fmt::Debug, I: IntoIterator<Item = D>>(l: &'c mut fmt::DebugList<'a, 'b>, it: I) -> &'c mut fmt::DebugList<'a, 'b> {
    for e in it {
        l.entry(&e);
    }
    l
}
pub fn set_entries<'a, 'b, 'c, D: fmt::Debug, I: IntoIterator<Item = D>>(l: &'c mut fmt::DebugSet<'a, 'b>, it: I) -> &'c mut fmt::DebugSet<'a, 'b> {
    for e in it {
        l.entry(&e);
    }
    l
}
pub fn map_entries<'a, 'b, 'c, K: fmt::Debug, D: fmt::Debug, I: IntoIterator<Item = (K, D)>>(l: &'c mut fmt::DebugMap<'a, 'b>, it: I) -> &'c mut fmt::DebugMap<'a, 'b> {
    for (k, e) in it {
        l.entry(&k, &e);
    }
    l
}
pub fn fmt_format(a: fmt::Arguments<'_>) -> String {
    let mut s = String::new();
    match s.write_fmt(a) {
        Ok(()) => s,
        Err(_) => panic!("a formatting trait implementation returned an error"),
    }
}
pub fn to_string<T: fmt::Display + ?Sized>(x: &T) -> String {
    let mut s = String::new();
    match s.write_fmt(format_args!("{}", x)) {
        Ok(()) => s,
        Err(_) => panic!("a formatting trait implementation returned an error"),
    }
}
pub fn cow_into_string(c: Cow<'_, str>) -> String {
    match c {
        Cow::Borrowed(s) => String::from(s),
        Cow::Owned(s) => s,
    }
}
pub fn cow_into_box(c: Cow<'_, str>) -> Box<str> {
    match c {
        Cow::Borrowed(s) => Box::from(s),
        Cow::Owned(s) => s.into_boxed_str(),
    }
}
pub fn box_clone<T: Clone>(b: &Box<T>) -> Box<T> {
    Box::new(T::clone(&**b))
}
pub fn slice_to_vec<T: Clone>(s: &[T]) -> Vec<T> {
    let mut v = Vec::new();
    for x in s {
        v.push(x.clone());
    }
    v
}
pub fn vec_extend_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) {
    for x in s {
        v.push(x.clone());
    }
}
pub fn vec_index<T, I: std::slice::SliceIndex<[T]>>(s: &[T], i: I) -> &I::Output {
    &s[i]
}
pub fn vec_index_mut<T, I: std::slice::SliceIndex<[T]>>(s: &mut [T], i: I) -> &mut I::Output {
    &mut s[i]
}
/// The error a text turns into.
pub struct TextError(String);
impl fmt::Debug for TextError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for TextError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl std::error::Error for TextError {}
pub fn text_error(s: String) -> Box<dyn std::error::Error + Send + Sync> {
    Box::new(TextError(s))
}
pub fn slice_to_box<T: Clone>(s: &[T]) -> Box<[T]> {
    slice_to_vec(s).into_boxed_slice()
}
pub fn vec_clone<T: Clone>(s: &Vec<T>) -> Vec<T> {
    slice_to_vec(&s[..])
}
pub fn box_slice_clone<T: Clone>(s: &Box<[T]>) -> Box<[T]> {
    slice_to_vec(&s[..]).into_boxed_slice()
}
pub fn vec_extend<T, A: Into2<T>, I: IntoIterator<Item = A>>(v: &mut Vec<T>, i: I) {
    for x in i {
        v.push(x.into2());
    }
}
pub trait Into2<T> {
    fn into2(self) -> T;
}
impl<T> Into2<T> for T {
    fn into2(self) -> T {
        self
    }
}
pub fn vec_from_iter<A, I: IntoIterator<Item = A>>(i: I) -> Vec<A> {
    let mut v = Vec::new();
    for x in i {
        v.push(x);
    }
    v
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.next() {
        b = f(b, x);
    }
    b
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn iter_count<I: Iterator>(it: I) -> usize {
    let mut it = it;
    let mut i = 0;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut n = n;
    while let Some(x) = it.next() {
        if n == 0 {
            return Some(x);
        }
        n -= 1;
    }
    None
}

pub fn any_is<T: Any>(x: &dyn Any) -> bool {
    x.type_id() == TypeId::of::<T>()
}
pub fn any_downcast_ref<T: Any>(x: &dyn Any) -> Option<&T> {
    if x.type_id() == TypeId::of::<T>() {
        Some(unsafe { &*(x as *const dyn Any as *const T) })
    } else {
        None
    }
}
pub fn any_downcast_mut<T: Any>(x: &mut dyn Any) -> Option<&mut T> {
    if (*x).type_id() == TypeId::of::<T>() {
        Some(unsafe { &mut *(x as *mut dyn Any as *mut T) })
    } else {
        None
    }
}
