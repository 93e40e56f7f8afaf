"""Client programs the compiler must reject, each with a twin it must accept.

A case is (name, features, prelude, rejected, accepted). The rejected program must fail with a
lifetime, borrow or trait-bound error (codes below) and with nothing else; the accepted twin
differs only in the lifetime, type or bound at stake.
"""
# what a rejection for the right reason looks like: borrow and lifetime errors, unmet bounds
LIFETIME = {"lifetime", "E0597", "E0505", "E0506", "E0515", "E0521", "E0716", "E0499", "E0502", "E0503", "E0310", "E0309", "E0478", "E0491", "E0621", "E0700", "E0713", "E0373", "E0594"}
BOUND = {"E0277", "E0310", "E0309"}

PRELUDE = """#![allow(unused, non_camel_case_types, dead_code)]
use value_bag::{ValueBag, Error, fill::{Fill, Slot}, visit::Visit};
use core::fmt::{self, Debug, Display};
pub struct Plain(u8);
impl Debug for Plain { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("p") } }
impl Display for Plain { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("p") } }
impl Fill for Plain { fn fill(&self, s: Slot) -> Result<(), Error> { s.fill_any(1u8) } }
pub struct Borrowing<'a>(&'a u8);
impl<'a> Debug for Borrowing<'a> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("p") } }
impl<'a> Display for Borrowing<'a> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("p") } }
pub struct NotSync(core::cell::Cell<u8>);
impl Debug for NotSync { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("p") } }
impl Display for NotSync { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("p") } }
pub struct NotSend(core::marker::PhantomData<*const u8>);
unsafe impl Sync for NotSend {}
impl Debug for NotSend { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("p") } }
impl Display for NotSend { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("p") } }
pub fn send<T: Send>(_: T) {}
pub fn sync<T: Sync>(_: T) {}
pub fn stat<T: 'static>(_: T) {}
"""
ERR = """impl std::error::Error for Plain {}
impl<'a> std::error::Error for Borrowing<'a> {}
impl std::error::Error for NotSync {}
impl std::error::Error for NotSend {}
"""
SERDE = """use value_bag_serde1::lib as serde;
macro_rules! ser { ($($t:ty)*) => { $(impl serde::Serialize for $t { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } })* } }
ser! { Plain NotSync NotSend }
impl<'a> serde::Serialize for Borrowing<'a> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
"""
SVAL = """use value_bag_sval2::{lib as sval, lib_ref as sval_ref};
macro_rules! sv { ($($t:ty)*) => { $(impl sval::Value for $t { fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result { s.null() } })* } }
sv! { Plain NotSync NotSend }
impl<'a> sval::Value for Borrowing<'a> { fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result { s.null() } }
pub fn vref<'x, T: sval_ref::ValueRef<'x>>(_: &T) {}
"""
CASES = []


def case(name, bad, good, feats="", codes=LIFETIME):
    CASES.append((name, feats.split(), bad, good, codes))


# --- a bag cannot outlive what it borrows
def ctor(name, ty, expr, feats=""):
    """expr captures `x: &'a ty`; the bag must not outlive 'a."""
    case(f"capture/{name}/longer",
         f"pub fn f<'a>(x: &'a {ty}) -> ValueBag<'static> {{ {expr} }}",
         f"pub fn f<'a>(x: &'a {ty}) -> ValueBag<'a> {{ {expr} }}", feats)
    case(f"capture/{name}/generic",
         f"pub fn f<'a, 'b>(x: &'a {ty}, y: &'b {ty}) -> ValueBag<'b> {{ {expr} }}",
         f"pub fn f<'a: 'b, 'b>(x: &'a {ty}, y: &'b {ty}) -> ValueBag<'b> {{ {expr} }}", feats)
    case(f"capture/{name}/mutated",
         f"pub fn g(x: &mut {ty}) {{}} pub fn f(mut v: {ty2(ty)}) {{ let x: &{ty} = own(&v); let b = {{ {expr} }}; g(own_mut(&mut v)); drop(b.clone()); }}" + OWN,
         f"pub fn g(x: &mut {ty}) {{}} pub fn f(mut v: {ty2(ty)}) {{ let x: &{ty} = own(&v); let b = {{ {expr} }}; drop(b.clone()); g(own_mut(&mut v)); }}" + OWN, feats)


OWN = """
pub trait Own<T: ?Sized> { fn o(&self) -> &T; fn m(&mut self) -> &mut T; }
impl<T> Own<T> for T { fn o(&self) -> &T { self } fn m(&mut self) -> &mut T { self } }
impl<T: ?Sized> Own<T> for BoxLike<T> { fn o(&self) -> &T { loop {} } fn m(&mut self) -> &mut T { loop {} } }
pub struct BoxLike<T: ?Sized>(core::marker::PhantomData<T>);
pub fn own<T: ?Sized, O: Own<T>>(o: &O) -> &T { o.o() }
pub fn own_mut<T: ?Sized, O: Own<T>>(o: &mut O) -> &mut T { o.m() }
"""


def ty2(ty):
    ty = ty.strip("()") if ty.startswith("(dyn") else ty
    return f"BoxLike<{ty}>" if ty == "str" or ty.startswith("dyn") else ty


ctor("str", "str", "ValueBag::from(x)")
ctor("from_str", "str", "ValueBag::from_str(x)")
ctor("option_str", "str", "ValueBag::from(Some(x))")
ctor("from_option", "str", "ValueBag::from_option(Some(x))")
ctor("debug", "Plain", "ValueBag::capture_debug(x)")
ctor("display", "Plain", "ValueBag::capture_display(x)")
ctor("from_debug", "Plain", "ValueBag::from_debug(x)")
ctor("from_display", "Plain", "ValueBag::from_display(x)")
ctor("from_fill", "Plain", "ValueBag::from_fill(x)")
ctor("try_capture", "Plain", "ValueBag::try_capture(x).unwrap()")
ctor("dyn_debug", "Plain", "ValueBag::from_dyn_debug(x)")
ctor("dyn_display", "Plain", "ValueBag::from_dyn_display(x)")
ctor("into_debug", "Plain", "ValueBag::from(x as &dyn Debug)")
ctor("into_display", "Plain", "ValueBag::from(x as &dyn Display)")
ctor("opt_debug", "Plain", "ValueBag::from(Some(x as &dyn Debug))")
ctor("opt_display", "Plain", "ValueBag::from(Some(x as &dyn Display))")
for n in ("u128", "i128"):
    ctor(n, n, f"ValueBag::from_{n}_ref(x)", "no:inline-i128")
    ctor(n + "_into", n, "ValueBag::from(x)", "no:inline-i128")
ctor("string", "String", "ValueBag::from(x)", "std")
ctor("error", "Plain", "ValueBag::capture_error(x)", "error")
ctor("dyn_error", "Plain", "ValueBag::from_dyn_error(x)", "error")
ctor("into_error", "Plain", "ValueBag::from(x as &(dyn std::error::Error + 'static))", "error")
ctor("serde", "Plain", "ValueBag::capture_serde1(x)", "serde1")
ctor("from_serde", "Plain", "ValueBag::from_serde1(x)", "serde1")
ctor("sval", "Plain", "ValueBag::capture_sval2(x)", "sval2")
ctor("from_sval", "Plain", "ValueBag::from_sval2(x)", "sval2")
ctor("owned", "value_bag::OwnedValueBag", "x.by_ref()", "owned")
ctor("from_owned", "value_bag::OwnedValueBag", "ValueBag::from(x)", "owned")
for t in ("u8", "u64", "i32", "i64", "u128", "i128", "f64", "bool", "char"):
    ctor(f"arr_{t}", f"[{t}; 2]", "ValueBag::from(x)", "seq")
    ctor(f"opt_arr_{t}", f"[{t}; 2]", "ValueBag::from(Some(x))", "seq")
    ctor(f"vec_{t}", f"Vec<{t}>", "ValueBag::from(x)", "seq std")
ctor("seq_arr", "[u64; 2]", "ValueBag::from_seq_slice(x)", "seq")
ctor("seq_vec", "Vec<bool>", "ValueBag::from_seq_slice(x)", "seq std")
ctor("strings", "Vec<String>", "ValueBag::from(x)", "seq std")
ctor("bag_ref", "ValueBag<'static>", "x.by_ref()")

for n, ty, e, fs in [
    ("str_ref", "&'u str", "ValueBag::from(x)", ""),
    ("slice", "&'u [u64]", "ValueBag::from(x)", "seq"),
    ("slice_seq", "&'u [u64]", "ValueBag::from_seq_slice(x)", "seq"),
    ("strs", "[&'u str; 2]", "ValueBag::from(x)", "seq"),
    ("strs_slice", "&'u [&'u str]", "ValueBag::from(x)", "seq"),
    ("dyn_debug_ref", "&'u dyn Debug", "ValueBag::from(x)", ""),
    ("dyn_display_ref", "&'u dyn Display", "ValueBag::from(x)", ""),
    ("cow", "std::borrow::Cow<'a, str>", "ValueBag::from(x)", "std"),
    ("from_debug", "Borrowing<'u>", "ValueBag::from_debug(x)", ""),
    ("from_display", "Borrowing<'u>", "ValueBag::from_display(x)", ""),
    ("from_serde", "Borrowing<'u>", "ValueBag::from_serde1(x)", "serde1"),
    ("from_sval", "Borrowing<'u>", "ValueBag::from_sval2(x)", "sval2"),
]:
    case(f"nested/{n}/inner",
         f"pub fn f<'a, 'u: 'a>(x: &'a {ty}) -> ValueBag<'u> {{ {e} }}",
         f"pub fn f<'a, 'u: 'a>(x: &'a {ty}) -> ValueBag<'a> {{ {e} }}", fs)
    case(f"nested/{n}/longer",
         f"pub fn f<'a, 'u: 'a>(x: &'a {ty}) -> ValueBag<'static> {{ {e} }}",
         f"pub fn f<'a, 'u: 'a>(x: &'a {ty}) -> ValueBag<'a> {{ {e} }}", fs)

# --- values kept for downcasting hold no borrowed data
for n, e, fs in [
    ("debug", "capture_debug", ""), ("display", "capture_display", ""), ("try_capture", "try_capture", ""),
    ("error", "capture_error", "error"), ("serde", "capture_serde1", "serde1"), ("sval", "capture_sval2", "sval2"),
]:
    case(f"static/{n}",
         f"pub fn f<'a, 'u: 'a>(x: &'a Borrowing<'u>) {{ ValueBag::{e}(x); }}",
         f"pub fn f<'a>(x: &'a Borrowing<'static>) {{ ValueBag::{e}(x); }}", fs)
case("static/downcast",
     "pub fn f<'a, 'u>(x: &'a ValueBag<'u>) { x.downcast_ref::<Borrowing<'u>>(); }",
     "pub fn f<'a, 'u>(x: &'a ValueBag<'u>) { x.downcast_ref::<Borrowing<'static>>(); }")
case("static/is",
     "pub fn f<'a, 'u>(x: &'a ValueBag<'u>) { x.is::<Borrowing<'u>>(); }",
     "pub fn f<'a, 'u>(x: &'a ValueBag<'u>) { x.is::<Borrowing<'static>>(); }")
case("static/dyn_error",
     "pub fn f<'a, 'u: 'a>(x: &'a Borrowing<'u>) { ValueBag::from_dyn_error(x); }",
     "pub fn f<'a>(x: &'a Borrowing<'static>) { ValueBag::from_dyn_error(x); }", "error")
case("static/fill_error",
     "pub fn f<'u>(s: Slot, x: Borrowing<'u>) { let _ = s.fill_error(x); }",
     "pub fn f(s: Slot, x: Borrowing<'static>) { let _ = s.fill_error(x); }", "error")
case("static/fill_dyn_error",
     "pub fn f<'u>(s: Slot, x: &Borrowing<'u>) { let _ = s.fill_dyn_error(x); }",
     "pub fn f(s: Slot, x: &Borrowing<'static>) { let _ = s.fill_dyn_error(x); }", "error")

# --- what is read from a bag lives as long as the captured value, and no longer
for n, e, ty, fs in [
    ("str", "to_borrowed_str()", "Option<&{} str>", ""),
    ("cow", "to_str()", "Option<std::borrow::Cow<{}, str>>", "std"),
    ("error", "to_borrowed_error()", "Option<&{} (dyn std::error::Error + 'static)>", "error"),
    ("strs", "to_borrowed_str_seq::<Vec<Option<&{} str>>>()", "Option<Vec<Option<&{} str>>>", "seq std"),
    ("cows", "to_str_seq::<Vec<Option<std::borrow::Cow<{}, str>>>>()", "Option<Vec<Option<std::borrow::Cow<{}, str>>>>", "seq std"),
]:
    # 'v is the captured value, 'b the borrow of the bag
    def prog(l):
        return f"pub fn f<'b, 'v: 'b>(x: &'b ValueBag<'v>) -> {ty.format(l)} {{ x.{e.format(l)} }}"
    case(f"read/{n}", prog("'static"), prog("'v"), fs)
    case(f"read/{n}/other",
         f"pub fn f<'b, 'v, 'w>(x: &'b ValueBag<'v>, y: &'w u8) -> {ty.format(chr(39)+'w')} {{ x.{e.format(chr(39)+'w')} }}",
         f"pub fn f<'b, 'v: 'w, 'w>(x: &'b ValueBag<'v>, y: &'w u8) -> {ty.format(chr(39)+'w')} {{ x.{e.format(chr(39)+'w')} }}", fs)
case("read/downcast/value", "pub fn f<'b, 'v: 'b>(x: &'b ValueBag<'v>) -> Option<&'v Plain> { x.downcast_ref() }",
     "pub fn f<'b, 'v: 'b>(x: &'b ValueBag<'v>) -> Option<&'b Plain> { x.downcast_ref() }")
case("read/downcast/dropped", "pub fn f<'v>(x: ValueBag<'v>) { let d: Option<&Plain> = x.downcast_ref(); drop(x); d.is_some(); }",
     "pub fn f<'v>(x: ValueBag<'v>) { let d: Option<&Plain> = x.downcast_ref(); d.is_some(); drop(x); }")
case("read/downcast/by_ref", "pub fn f<'b, 'v: 'b>(x: &'b ValueBag<'v>) -> ValueBag<'v> { x.by_ref() }",
     "pub fn f<'b, 'v: 'b>(x: &'b ValueBag<'v>) -> ValueBag<'b> { x.by_ref() }")
for n, ty, fs in [("str", "&{} str", ""), ("error", "&{} (dyn std::error::Error + 'static)", "error"), ("cow", "std::borrow::Cow<{}, str>", "std")]:
    case(f"try_from/{n}",
         f"pub fn f<'v>(x: ValueBag<'v>) -> Option<{ty.format(chr(39)+'static')}> {{ <{ty.format(chr(39)+'static')}>::try_from(x).ok() }}",
         f"pub fn f<'v>(x: ValueBag<'v>) -> Option<{ty.format(chr(39)+'v')}> {{ <{ty.format(chr(39)+'v')}>::try_from(x).ok() }}", fs)
case("read/owned/str", "pub fn f(x: value_bag::OwnedValueBag) -> Option<String> { let b = x.by_ref(); let s = b.to_borrowed_str(); drop(x); s.map(|s| s.into()) }",
     "pub fn f(x: value_bag::OwnedValueBag) -> Option<String> { let b = x.by_ref(); let s = b.to_borrowed_str(); let r = s.map(|s| s.into()); drop(x); r }", "owned std")
case("read/owned/error", "pub fn f(x: value_bag::OwnedValueBag) { let b = x.by_ref(); let s = b.to_borrowed_error(); drop(x); s.is_some(); }",
     "pub fn f(x: value_bag::OwnedValueBag) { let b = x.by_ref(); let s = b.to_borrowed_error(); s.is_some(); drop(x); }", "owned error")
case("read/dropped/str", "pub fn f() -> bool { let r; { let s = [1u8; 3]; let t: &str = core::str::from_utf8(&s).unwrap(); r = ValueBag::from(t).to_borrowed_str(); } r.is_some() }",
     "pub fn f() -> bool { let r; { let t: &'static str = \"abc\"; r = ValueBag::from(t).to_borrowed_str(); } r.is_some() }")

# --- lengthening a bag
case("variance/longer", "pub fn f<'a>(x: ValueBag<'a>) -> ValueBag<'static> { x }", "pub fn f<'a>(x: ValueBag<'a>) -> ValueBag<'a> { x }")
case("variance/unrelated", "pub fn f<'a, 'b>(x: ValueBag<'a>, y: ValueBag<'b>) -> ValueBag<'b> { x }", "pub fn f<'a: 'b, 'b>(x: ValueBag<'a>, y: ValueBag<'b>) -> ValueBag<'b> { x }")
case("variance/clone", "pub fn f<'b, 'a>(x: &'b ValueBag<'a>) -> ValueBag<'static> { x.clone() }", "pub fn f<'b, 'a>(x: &'b ValueBag<'a>) -> ValueBag<'a> { x.clone() }")
case("variance/into", "pub fn f<'b, 'a>(x: ValueBag<'a>) -> ValueBag<'static> { ValueBag::from(x) }", "pub fn f<'b, 'a>(x: ValueBag<'a>) -> ValueBag<'a> { ValueBag::from(x) }")
case("variance/option", "pub fn f<'a>(x: Option<ValueBag<'a>>) -> ValueBag<'static> { ValueBag::from_option(x) }", "pub fn f<'a>(x: Option<ValueBag<'a>>) -> ValueBag<'a> { ValueBag::from_option(x) }")
case("variance/owned", "pub fn f<'a>(x: ValueBag<'a>) -> ValueBag<'static> { x }", "pub fn f<'a>(x: ValueBag<'a>) -> value_bag::OwnedValueBag { x.to_owned() }", "owned")
case("variance/shared", "pub fn f<'a>(x: ValueBag<'a>) -> ValueBag<'static> { x.to_shared().by_ref() }", "pub fn f<'a>(x: ValueBag<'a>) -> value_bag::OwnedValueBag { x.to_shared() }", "owned")
case("static/stat", "pub fn f<'a>(x: ValueBag<'a>) { stat(x) }", "pub fn f(x: ValueBag<'static>) { stat(x) }")

# --- filling
case("fill/escape_slot",
     "pub fn f() { let mut k: Option<&str> = None; let f = |s: Slot| { Ok::<(), Error>(()) }; fn g<'a>(s: Slot<'a, '_>) -> Slot<'static, 'static> { s } }",
     "pub fn f() { let mut k: Option<&str> = None; let f = |s: Slot| { Ok::<(), Error>(()) }; fn g<'a, 'b>(s: Slot<'a, 'b>) -> Slot<'a, 'b> { s } }")
case("fill/closure", "pub fn f<'a>(n: u8) -> ValueBag<'a> { let c = move |s: Slot| s.fill_any(n); ValueBag::from_fill(&c) }",
     "pub fn f<'a>(n: u8, k: fn(ValueBag)) { let c = move |s: Slot| s.fill_any(n); k(ValueBag::from_fill(&c)) }")
case("fill/seq", "pub fn f(s: Slot) { let x = [1u64, 2]; let _ = s.fill_seq_slice(&x); }",
     "pub fn f(s: Slot) { static X: [u64; 2] = [1u64, 2]; let _ = s.fill_seq_slice(&X); }", "seq")
case("fill/seq_vec", "pub fn f(s: Slot) { let x = vec![1u64, 2]; let _ = s.fill_seq_slice(&x); }",
     "pub fn f<'f>(s: Slot<'_, 'f>, x: &'f Vec<u64>) { let _ = s.fill_seq_slice(x); }", "seq std")
case("fill/twice", "pub fn f(s: Slot) { let _ = s.fill_any(1u8); let _ = s.fill_any(2u8); }",
     "pub fn f(s: Slot) { let _ = s.fill_any(1u8); }", "", {"E0382"})
case("fill/twice_debug", "pub fn f(s: Slot) { let _ = s.fill_debug(1u8); let _ = s.fill_display(2u8); }",
     "pub fn f(s: Slot) { let _ = s.fill_debug(1u8); }", "", {"E0382"})

# --- visiting
VIS = "pub struct K<'v>(pub Option<&'v str>); impl<'v> Visit<'v> for K<'v> {{ fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {{ Ok(()) }} {} }}"
case("visit/str", VIS.format("fn visit_str(&mut self, s: &str) -> Result<(), Error> { self.0 = Some(s); Ok(()) }"),
     VIS.format("fn visit_borrowed_str(&mut self, s: &'v str) -> Result<(), Error> { self.0 = Some(s); Ok(()) }"))
case("visit/any", VIS.format("").replace("v: ValueBag) -> Result<(), Error> { Ok(()) }", "v: ValueBag) -> Result<(), Error> { self.0 = v.to_borrowed_str(); Ok(()) }"),
     VIS.format("").replace("v: ValueBag) -> Result<(), Error> { Ok(()) }", "v: ValueBag) -> Result<(), Error> { let _ = v.to_borrowed_str(); Ok(()) }"))
case("visit/collect", VIS.format("") + " pub fn f<'v>(x: ValueBag<'v>) -> Option<&'static str> { let mut k = K(None); let _ = x.visit(&mut k); k.0 }",
     VIS.format("") + " pub fn f<'v>(x: ValueBag<'v>) -> Option<&'v str> { let mut k = K(None); let _ = x.visit(&mut k); k.0 }")
case("visit/static", VIS.format("") + " pub fn f<'v>(x: ValueBag<'v>, k: &mut K<'static>) { let _ = x.visit(k); }",
     VIS.format("") + " pub fn f<'v>(x: ValueBag<'v>, k: &mut K<'v>) { let _ = x.visit(k); }")
EVIS = "pub struct K<'v>(pub Option<&'v (dyn std::error::Error + 'static)>); impl<'v> Visit<'v> for K<'v> {{ fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {{ Ok(()) }} {} }}"
case("visit/error", EVIS.format("fn visit_error(&mut self, s: &(dyn std::error::Error + 'static)) -> Result<(), Error> { self.0 = Some(s); Ok(()) }"),
     EVIS.format("fn visit_borrowed_error(&mut self, s: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> { self.0 = Some(s); Ok(()) }"), "error")

# --- threads
case("threads/bag_send", "pub fn f(x: ValueBag<'static>) { send(x) }", "pub fn f(x: ValueBag<'static>) { stat(x) }", "", BOUND)
case("threads/bag_sync", "pub fn f(x: ValueBag<'static>) { sync(x) }", "pub fn f(x: ValueBag<'static>) { stat(x) }", "", BOUND)
case("threads/bag_ref_send", "pub fn f(x: &'static ValueBag<'static>) { send(x) }", "pub fn f(x: &'static ValueBag<'static>) { stat(x) }", "", BOUND)
case("threads/owned", "pub fn f(x: value_bag::OwnedValueBag) { send(x.by_ref()) }", "pub fn f(x: value_bag::OwnedValueBag) { send(x.clone()); sync(x.clone()); send(&x); stat(x) }", "owned", BOUND)
case("threads/spawn", "pub fn f(x: value_bag::OwnedValueBag) { let b = x.by_ref(); std::thread::scope(|s| { s.spawn(|| b.to_u64()); }) }",
     "pub fn f(x: value_bag::OwnedValueBag) { std::thread::spawn(move || x.by_ref().to_u64()); }", "owned std", BOUND)
for n, e, fs in [("debug", "capture_shared_debug", ""), ("display", "capture_shared_display", ""), ("error", "capture_shared_error", "error"),
                 ("serde", "capture_shared_serde1", "serde1"), ("sval", "capture_shared_sval2", "sval2")]:
    case(f"shared/{n}/sync", f"pub fn f(x: NotSync) {{ ValueBag::{e}(x); }}", f"pub fn f(x: Plain) {{ ValueBag::{e}(x); }}", "owned " + fs, BOUND)
    case(f"shared/{n}/send", f"pub fn f(x: NotSend) {{ ValueBag::{e}(x); }}", f"pub fn f(x: Plain) {{ ValueBag::{e}(x); }}", "owned " + fs, BOUND)
    case(f"shared/{n}/static", f"pub fn f<'a>(x: Borrowing<'a>) {{ ValueBag::{e}(x); }}", f"pub fn f(x: Borrowing<'static>) {{ ValueBag::{e}(x); }}", "owned " + fs)
SH = "pub struct L<T>(pub T, pub [u64; 1]); impl<T> AsRef<[u64]> for L<T> { fn as_ref(&self) -> &[u64] { &self.1 } }"
case("shared/seq/sync", SH + "pub fn f(x: L<core::cell::Cell<u8>>) { ValueBag::capture_shared_seq_slice(x); }", SH + "pub fn f(x: L<u8>) { ValueBag::capture_shared_seq_slice(x); }", "owned seq", BOUND)
case("shared/seq/send", SH + "pub fn f(x: L<NotSend>) { ValueBag::capture_shared_seq_slice(x); }", SH + "pub fn f(x: L<u8>) { ValueBag::capture_shared_seq_slice(x); }", "owned seq", BOUND)
case("shared/seq/static", SH + "pub fn f<'a>(x: L<&'a u8>) { ValueBag::capture_shared_seq_slice(x); }", SH + "pub fn f(x: L<&'static u8>) { ValueBag::capture_shared_seq_slice(x); }", "owned seq")

# --- streaming by reference
case("sval/ref", "pub fn f<'v>(x: ValueBag<'v>) { vref::<'static, ValueBag<'v>>(&x) }", "pub fn f<'v>(x: ValueBag<'v>) { vref::<'v, ValueBag<'v>>(&x) }", "sval2")
case("sval/ref_other", "pub fn f<'v, 'w>(x: ValueBag<'v>, y: &'w u8) { vref::<'w, ValueBag<'v>>(&x) }", "pub fn f<'v: 'w, 'w>(x: ValueBag<'v>, y: &'w u8) { vref::<'w, ValueBag<'w>>(&x) }", "sval2")

# --- errors
case("error/msg", "pub fn f<'a>(m: &'a str) -> Error { Error::msg(m) }", "pub fn f(m: &'static str) -> Error { Error::msg(m) }")
case("error/boxed_static", "pub fn f<'a>(m: Borrowing<'a>) -> Error { Error::boxed(m) }", "pub fn f(m: Borrowing<'static>) -> Error { Error::boxed(m) }", "error")
case("error/boxed_send", "pub fn f(m: NotSend) -> Error { Error::boxed(m) }", "pub fn f(m: Plain) -> Error { Error::boxed(m) }", "error", BOUND)
case("error/boxed_sync", "pub fn f(m: NotSync) -> Error { Error::boxed(m) }", "pub fn f(m: Plain) -> Error { Error::boxed(m) }", "error", BOUND)
