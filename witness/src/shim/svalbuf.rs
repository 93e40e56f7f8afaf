//! What `sval_buffer::Value` keeps: the calls made to its stream.
use value_bag_sval2::lib::{self as sval, *};

#[derive(Clone)]
pub struct Meta {
    tag: Option<Tag>,
    label: Option<Label<'static>>,
    index: Option<Index>,
    n: usize,
}
#[derive(Clone)]
pub enum Part {
    Null,
    Text(String),
    Binary(Vec<u8>),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    Bool(bool),
    MapBegin(usize),
    MapEnd,
    MapKeyBegin,
    MapKeyEnd,
    MapValueBegin,
    MapValueEnd,
    SeqBegin(usize),
    SeqEnd,
    SeqValueBegin,
    SeqValueEnd,
    TagHint(Tag),
    Tag(Meta),
    EnumBegin(Meta),
    EnumEnd(Meta),
    TaggedBegin(Meta),
    TaggedEnd(Meta),
    RecordBegin(Meta),
    RecordEnd(Meta),
    RecordValueBegin(Meta),
    RecordValueEnd(Meta),
    TupleBegin(Meta),
    TupleEnd(Meta),
    TupleValueBegin(Meta),
    TupleValueEnd(Meta),
    RecordTupleBegin(Meta),
    RecordTupleEnd(Meta),
    RecordTupleValueBegin(Meta),
    RecordTupleValueEnd(Meta),
}
#[derive(Clone)]
pub struct Rec {
    parts: Vec<Part>,
    open: Vec<usize>,
    text: String,
    bytes: Vec<u8>,
}
fn label(l: &Label) -> Label<'static> {
    unsafe { std::mem::transmute::<Label<'_>, Label<'static>>(l.clone()) }
}
fn meta(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Meta {
    Meta {
        tag: match t { Some(t) => Some(t.clone()), None => None },
        label: match l { Some(l) => Some(label(l)), None => None },
        index: match i { Some(i) => Some(i.clone()), None => None },
        n: 0,
    }
}
impl Rec {
    fn put(&mut self, p: Part) -> sval::Result {
        self.parts.push(p);
        Ok(())
    }
    fn begin(&mut self, p: Part) -> sval::Result {
        self.open.push(self.parts.len());
        self.parts.push(p);
        Ok(())
    }
    fn entry(&mut self, p: Part) -> sval::Result {
        let n = self.open.len();
        if n > 0 {
            let at = self.open[n - 1];
            match &mut self.parts[at] {
                Part::MapBegin(n) | Part::SeqBegin(n) => *n += 1,
                Part::RecordBegin(m) | Part::TupleBegin(m) | Part::RecordTupleBegin(m) => m.n += 1,
                _ => (),
            }
        }
        self.begin(p)
    }
    fn end(&mut self, p: Part) -> sval::Result {
        match self.open.pop() {
            Some(_) => self.put(p),
            None => sval::error(),
        }
    }
}
impl<'sval> Stream<'sval> for Rec {
    fn null(&mut self) -> sval::Result { self.put(Part::Null) }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { self.text = String::new(); Ok(()) }
    fn text_fragment(&mut self, v: &'sval str) -> sval::Result { self.text.push_str(v); Ok(()) }
    fn text_fragment_computed(&mut self, v: &str) -> sval::Result { self.text.push_str(v); Ok(()) }
    fn text_end(&mut self) -> sval::Result { let t = self.text.clone(); self.put(Part::Text(t)) }
    fn binary_begin(&mut self, _: Option<usize>) -> sval::Result { self.bytes = Vec::new(); Ok(()) }
    fn binary_fragment(&mut self, v: &'sval [u8]) -> sval::Result { self.binary_fragment_computed(v) }
    fn binary_fragment_computed(&mut self, v: &[u8]) -> sval::Result { self.bytes.extend_from_slice(v); Ok(()) }
    fn binary_end(&mut self) -> sval::Result { let t = self.bytes.clone(); self.put(Part::Binary(t)) }
    fn u8(&mut self, v: u8) -> sval::Result { self.put(Part::U8(v)) }
    fn u16(&mut self, v: u16) -> sval::Result { self.put(Part::U16(v)) }
    fn u32(&mut self, v: u32) -> sval::Result { self.put(Part::U32(v)) }
    fn u64(&mut self, v: u64) -> sval::Result { self.put(Part::U64(v)) }
    fn u128(&mut self, v: u128) -> sval::Result { self.put(Part::U128(v)) }
    fn i8(&mut self, v: i8) -> sval::Result { self.put(Part::I8(v)) }
    fn i16(&mut self, v: i16) -> sval::Result { self.put(Part::I16(v)) }
    fn i32(&mut self, v: i32) -> sval::Result { self.put(Part::I32(v)) }
    fn i64(&mut self, v: i64) -> sval::Result { self.put(Part::I64(v)) }
    fn i128(&mut self, v: i128) -> sval::Result { self.put(Part::I128(v)) }
    fn f32(&mut self, v: f32) -> sval::Result { self.put(Part::F32(v)) }
    fn f64(&mut self, v: f64) -> sval::Result { self.put(Part::F64(v)) }
    fn bool(&mut self, v: bool) -> sval::Result { self.put(Part::Bool(v)) }
    fn map_begin(&mut self, _: Option<usize>) -> sval::Result { self.begin(Part::MapBegin(0)) }
    fn map_end(&mut self) -> sval::Result { self.end(Part::MapEnd) }
    fn map_key_begin(&mut self) -> sval::Result { self.entry(Part::MapKeyBegin) }
    fn map_key_end(&mut self) -> sval::Result { self.end(Part::MapKeyEnd) }
    fn map_value_begin(&mut self) -> sval::Result { self.begin(Part::MapValueBegin) }
    fn map_value_end(&mut self) -> sval::Result { self.end(Part::MapValueEnd) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { self.begin(Part::SeqBegin(0)) }
    fn seq_end(&mut self) -> sval::Result { self.end(Part::SeqEnd) }
    fn seq_value_begin(&mut self) -> sval::Result { self.entry(Part::SeqValueBegin) }
    fn seq_value_end(&mut self) -> sval::Result { self.end(Part::SeqValueEnd) }
    fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.put(Part::Tag(meta(t, l, i))) }
    fn tag_hint(&mut self, t: &Tag) -> sval::Result { self.put(Part::TagHint(t.clone())) }
    fn enum_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.begin(Part::EnumBegin(meta(t, l, i))) }
    fn enum_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.end(Part::EnumEnd(meta(t, l, i))) }
    fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.begin(Part::TaggedBegin(meta(t, l, i))) }
    fn tagged_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.end(Part::TaggedEnd(meta(t, l, i))) }
    fn record_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, _: Option<usize>) -> sval::Result { self.begin(Part::RecordBegin(meta(t, l, i))) }
    fn record_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.end(Part::RecordEnd(meta(t, l, i))) }
    fn tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, _: Option<usize>) -> sval::Result { self.begin(Part::TupleBegin(meta(t, l, i))) }
    fn tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.end(Part::TupleEnd(meta(t, l, i))) }
    fn record_tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, _: Option<usize>) -> sval::Result { self.begin(Part::RecordTupleBegin(meta(t, l, i))) }
    fn record_tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.end(Part::RecordTupleEnd(meta(t, l, i))) }
    fn record_value_begin(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result { self.entry(Part::RecordValueBegin(meta(t, Some(l), None))) }
    fn record_value_end(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result { self.end(Part::RecordValueEnd(meta(t, Some(l), None))) }
    fn tuple_value_begin(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result { self.entry(Part::TupleValueBegin(meta(t, None, Some(i)))) }
    fn tuple_value_end(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result { self.end(Part::TupleValueEnd(meta(t, None, Some(i)))) }
    fn record_tuple_value_begin(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result { self.entry(Part::RecordTupleValueBegin(meta(t, Some(l), Some(i)))) }
    fn record_tuple_value_end(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result { self.end(Part::RecordTupleValueEnd(meta(t, Some(l), Some(i)))) }
}
pub struct RecErr;
pub fn sval_buffer<T: Value>(v: T) -> Result<Rec, RecErr> {
    let mut r = Rec { parts: Vec::new(), open: Vec::new(), text: String::new(), bytes: Vec::new() };
    match sval::stream_computed(&mut r, v) {
        Ok(()) => Ok(r),
        Err(_) => Err(RecErr),
    }
}
pub fn sval_replay<'sval, S: Stream<'sval> + ?Sized>(r: &Rec, s: &mut S) -> sval::Result {
    if r.parts.len() == 0 {
        return s.null();
    }
    for p in &r.parts[..] {
        match p {
            Part::Null => s.null()?,
            Part::Text(v) => {
                s.text_begin(Some(v.len()))?;
                s.text_fragment_computed(v)?;
                s.text_end()?
            }
            Part::Binary(v) => {
                s.binary_begin(Some(v.len()))?;
                s.binary_fragment_computed(&v[..])?;
                s.binary_end()?
            }
            Part::MapBegin(n) => s.map_begin(Some(*n))?,
            Part::MapEnd => s.map_end()?,
            Part::MapKeyBegin => s.map_key_begin()?,
            Part::MapKeyEnd => s.map_key_end()?,
            Part::MapValueBegin => s.map_value_begin()?,
            Part::MapValueEnd => s.map_value_end()?,
            Part::SeqBegin(n) => s.seq_begin(Some(*n))?,
            Part::SeqEnd => s.seq_end()?,
            Part::SeqValueBegin => s.seq_value_begin()?,
            Part::SeqValueEnd => s.seq_value_end()?,
            Part::TagHint(t) => s.tag_hint(t)?,
            Part::Tag(m) => s.tag(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref())?,
            Part::U8(v) => s.u8(*v)?,
            Part::U16(v) => s.u16(*v)?,
            Part::U32(v) => s.u32(*v)?,
            Part::U64(v) => s.u64(*v)?,
            Part::U128(v) => s.u128(*v)?,
            Part::I8(v) => s.i8(*v)?,
            Part::I16(v) => s.i16(*v)?,
            Part::I32(v) => s.i32(*v)?,
            Part::I64(v) => s.i64(*v)?,
            Part::I128(v) => s.i128(*v)?,
            Part::F32(v) => s.f32(*v)?,
            Part::F64(v) => s.f64(*v)?,
            Part::Bool(v) => s.bool(*v)?,
            Part::EnumBegin(m) => s.enum_begin(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref())?,
            Part::EnumEnd(m) => s.enum_end(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref())?,
            Part::TaggedBegin(m) => s.tagged_begin(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref())?,
            Part::TaggedEnd(m) => s.tagged_end(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref())?,
            Part::RecordBegin(m) => s.record_begin(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref(), Some(m.n))?,
            Part::RecordEnd(m) => s.record_end(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref())?,
            Part::TupleBegin(m) => s.tuple_begin(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref(), Some(m.n))?,
            Part::TupleEnd(m) => s.tuple_end(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref())?,
            Part::RecordTupleBegin(m) => s.record_tuple_begin(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref(), Some(m.n))?,
            Part::RecordTupleEnd(m) => s.record_tuple_end(m.tag.as_ref(), m.label.as_ref(), m.index.as_ref())?,
            Part::RecordValueBegin(m) => s.record_value_begin(m.tag.as_ref(), get(&m.label))?,
            Part::RecordValueEnd(m) => s.record_value_end(m.tag.as_ref(), get(&m.label))?,
            Part::TupleValueBegin(m) => s.tuple_value_begin(m.tag.as_ref(), get(&m.index))?,
            Part::TupleValueEnd(m) => s.tuple_value_end(m.tag.as_ref(), get(&m.index))?,
            Part::RecordTupleValueBegin(m) => s.record_tuple_value_begin(m.tag.as_ref(), get(&m.label), get(&m.index))?,
            Part::RecordTupleValueEnd(m) => s.record_tuple_value_end(m.tag.as_ref(), get(&m.label), get(&m.index))?,
        }
    }
    Ok(())
}
fn get<T>(x: &Option<T>) -> &T {
    match x {
        Some(x) => x,
        None => panic!("part without its key"),
    }
}
