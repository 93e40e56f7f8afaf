//! User types implementing the serialization frameworks.
#[cfg(feature = "serde1")]
pub mod serde {
    use value_bag_serde1::lib::ser::{self, *};
    macro_rules! ty {
        ($($n:ident { $($f:ident : $t:ty),* } |$x:ident, $s:ident| $e:expr;)*) => { $(
            pub struct $n { $(pub $f: $t),* }
            impl Serialize for $n {
                fn serialize<S: Serializer>(&self, $s: S) -> Result<S::Ok, S::Error> {
                    let $x = self;
                    $e
                }
            }
        )* }
    }
    ty! {
        U8 { x: u8 } |v, s| s.serialize_u8(v.x);
        U16 { x: u16 } |v, s| s.serialize_u16(v.x);
        U32 { x: u32 } |v, s| s.serialize_u32(v.x);
        U64 { x: u64 } |v, s| s.serialize_u64(v.x);
        U128 { x: u128 } |v, s| s.serialize_u128(v.x);
        I8 { x: i8 } |v, s| s.serialize_i8(v.x);
        I16 { x: i16 } |v, s| s.serialize_i16(v.x);
        I32 { x: i32 } |v, s| s.serialize_i32(v.x);
        I64 { x: i64 } |v, s| s.serialize_i64(v.x);
        I128 { x: i128 } |v, s| s.serialize_i128(v.x);
        F32 { x: f32 } |v, s| s.serialize_f32(v.x);
        F64 { x: f64 } |v, s| s.serialize_f64(v.x);
        Bool { x: bool } |v, s| s.serialize_bool(v.x);
        Char { x: char } |v, s| s.serialize_char(v.x);
        Str { x: &'static str } |v, s| s.serialize_str(v.x);
        None_ {} |v, s| s.serialize_none();
        Some_ { x: u64 } |v, s| s.serialize_some(&v.x);
        Unit {} |v, s| s.serialize_unit();
        Bytes { x: &'static [u8] } |v, s| s.serialize_bytes(v.x);
        UnitStruct {} |v, s| s.serialize_unit_struct("Us");
        UnitVariant {} |v, s| s.serialize_unit_variant("Uv", 3, "v");
        NewStruct { x: u64 } |v, s| s.serialize_newtype_struct("Ns", &v.x);
        NewVariant { x: u64 } |v, s| s.serialize_newtype_variant("Nv", 2, "w", &v.x);
        Fail_ {} |v, s| Err(ser::Error::custom("failed"));
        Seq { x: u64, y: &'static str } |v, s| {
            let mut q = s.serialize_seq(Some(2))?;
            q.serialize_element(&v.x)?;
            q.serialize_element(v.y)?;
            q.end()
        };
        Tuple { x: u64, y: bool } |v, s| {
            let mut q = s.serialize_tuple(2)?;
            q.serialize_element(&v.x)?;
            q.serialize_element(&v.y)?;
            q.end()
        };
        TupleStruct { x: u64, y: bool } |v, s| {
            let mut q = s.serialize_tuple_struct("Ts", 2)?;
            q.serialize_field(&v.x)?;
            q.serialize_field(&v.y)?;
            q.end()
        };
        TupleVariant { x: u64, y: bool } |v, s| {
            let mut q = s.serialize_tuple_variant("Tv", 1, "tv", 2)?;
            q.serialize_field(&v.x)?;
            q.serialize_field(&v.y)?;
            q.end()
        };
        Map { k: &'static str, x: u64, y: bool } |v, s| {
            let mut q = s.serialize_map(Some(2))?;
            q.serialize_entry(v.k, &v.x)?;
            q.serialize_key(&7u64)?;
            q.serialize_value(&v.y)?;
            q.end()
        };
        Entries { k: &'static str, x: u64, y: bool } |v, s| {
            let mut q = s.serialize_map(Some(2))?;
            q.serialize_entry(v.k, &v.x)?;
            q.serialize_entry(&7u64, &v.y)?;
            q.end()
        };
        Struct { x: u64, y: bool } |v, s| {
            let mut q = s.serialize_struct("St", 2)?;
            q.serialize_field("x", &v.x)?;
            q.serialize_field("y", &v.y)?;
            q.end()
        };
        StructVariant { x: u64, y: bool } |v, s| {
            let mut q = s.serialize_struct_variant("Sv", 4, "sv", 2)?;
            q.serialize_field("x", &v.x)?;
            q.serialize_field("y", &v.y)?;
            q.end()
        };
        One { x: u64 } |v, s| {
            let mut q = s.serialize_seq(None)?;
            q.serialize_element(&v.x)?;
            q.end()
        };
        Nested { x: One, y: u64 } |v, s| {
            let mut q = s.serialize_seq(None)?;
            q.serialize_element(&v.x)?;
            q.serialize_element(&v.y)?;
            q.end()
        };
        SizedOne { x: u64 } |v, s| {
            let mut q = s.serialize_seq(Some(1))?;
            q.serialize_element(&v.x)?;
            q.end()
        };
        SizedNested { x: SizedOne, y: u64 } |v, s| {
            let mut q = s.serialize_map(Some(1))?;
            q.serialize_entry(&v.y, &v.x)?;
            q.end()
        };
        Lists { x: u64, y: bool } |v, s| {
            let mut q = s.serialize_seq(None)?;
            q.serialize_element(&Nested { x: One { x: v.x }, y: v.x })?;
            q.serialize_element(&v.x)?;
            q.serialize_element(&Struct { x: v.x, y: v.y })?;
            q.serialize_element(&v.y)?;
            q.end()
        };
        SomeSeq { x: u64, y: bool } |v, s| s.serialize_some(&Tuple { x: v.x, y: v.y });
        Kinds { i: i32, f: f64, c: char } |v, s| {
            let mut q = s.serialize_seq(Some(5))?;
            q.serialize_element(&v.i)?;
            q.serialize_element(&v.f)?;
            q.serialize_element(&v.c)?;
            q.serialize_element(&())?;
            q.serialize_element(&Map { k: "k", x: 1, y: true })?;
            q.end()
        };
        Ints { a: u8, b: u16, c: u32, d: i8, e: i16, f: i64 } |v, s| {
            let mut q = s.serialize_seq(Some(6))?;
            q.serialize_element(&v.a)?;
            q.serialize_element(&v.b)?;
            q.serialize_element(&v.c)?;
            q.serialize_element(&v.d)?;
            q.serialize_element(&v.e)?;
            q.serialize_element(&v.f)?;
            q.end()
        };
        Odd { a: u128, b: i128, c: f32, d: &'static [u8] } |v, s| {
            let mut q = s.serialize_seq(None)?;
            q.serialize_element(&v.a)?;
            q.serialize_element(&v.b)?;
            q.serialize_element(&v.c)?;
            q.serialize_element(&Bytes { x: v.d })?;
            q.serialize_element(&Some_ { x: 5 })?;
            q.serialize_element(&None_ {})?;
            q.serialize_element(&UnitStruct {})?;
            q.serialize_element(&TupleVariant { x: 1, y: true })?;
            q.serialize_element(&StructVariant { x: 1, y: true })?;
            q.end()
        };
        SeqFail { x: u64 } |v, s| {
            let mut q = s.serialize_seq(None)?;
            q.serialize_element(&v.x)?;
            Err(ser::Error::custom("failed"))
        };
        ElemFail { x: u64 } |v, s| {
            let mut q = s.serialize_seq(None)?;
            q.serialize_element(&v.x)?;
            q.serialize_element(&Fail_ {})?;
            q.end()
        };
    }
}

#[cfg(feature = "sval2")]
pub mod sval {
    use value_bag_sval2::lib::{self as sval, *};
    macro_rules! ty {
        ($($n:ident { $($f:ident : $t:ty),* } |$x:ident, $s:ident| $e:expr;)*) => { $(
            pub struct $n { $(pub $f: $t),* }
            impl Value for $n {
                fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, $s: &mut S) -> sval::Result {
                    let $x = self;
                    $e
                }
            }
        )* }
    }
    ty! {
        U8 { x: u8 } |v, s| s.u8(v.x);
        U16 { x: u16 } |v, s| s.u16(v.x);
        U32 { x: u32 } |v, s| s.u32(v.x);
        U64 { x: u64 } |v, s| s.u64(v.x);
        U128 { x: u128 } |v, s| s.u128(v.x);
        I8 { x: i8 } |v, s| s.i8(v.x);
        I16 { x: i16 } |v, s| s.i16(v.x);
        I32 { x: i32 } |v, s| s.i32(v.x);
        I64 { x: i64 } |v, s| s.i64(v.x);
        I128 { x: i128 } |v, s| s.i128(v.x);
        F32 { x: f32 } |v, s| s.f32(v.x);
        F64 { x: f64 } |v, s| s.f64(v.x);
        Bool { x: bool } |v, s| s.bool(v.x);
        Null {} |v, s| s.null();
        Str { x: &'static str } |v, s| s.value(v.x);
        StrComputed { x: &'static str } |v, s| s.value_computed(v.x);
        Text2 { x: &'static str, y: &'static str } |v, s| {
            s.text_begin(None)?;
            s.text_fragment(v.x)?;
            s.text_fragment(v.y)?;
            s.text_end()
        };
        TextMixed { x: &'static str, y: &'static str } |v, s| {
            s.text_begin(None)?;
            s.text_fragment(v.x)?;
            s.text_fragment_computed(v.y)?;
            s.text_end()
        };
        Some_ { x: Option<u64> } |v, s| s.value(&v.x);
        Unit {} |v, s| s.value(&());
        Bytes { x: &'static [u8] } |v, s| {
            s.binary_begin(None)?;
            s.binary_fragment(v.x)?;
            s.binary_end()
        };
        TagU64 { x: u64 } |v, s| {
            s.tagged_begin(Some(&tags::RUST_OPTION_SOME), Some(&Label::new("Some")), Some(&Index::new(1)))?;
            s.u64(v.x)?;
            s.tagged_end(Some(&tags::RUST_OPTION_SOME), Some(&Label::new("Some")), Some(&Index::new(1)))
        };
        Tag_ {} |v, s| s.tag(None, Some(&Label::new("t")), Some(&Index::new(2)));
        Fail_ {} |v, s| sval::error();
        Seq { x: u64, y: &'static str } |v, s| {
            s.seq_begin(Some(2))?;
            s.seq_value_begin()?;
            s.u64(v.x)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.value(v.y)?;
            s.seq_value_end()?;
            s.seq_end()
        };
        Map { k: &'static str, x: u64, y: bool } |v, s| {
            s.map_begin(None)?;
            s.map_key_begin()?;
            s.value(v.k)?;
            s.map_key_end()?;
            s.map_value_begin()?;
            s.u64(v.x)?;
            s.map_value_end()?;
            s.map_key_begin()?;
            s.u64(7)?;
            s.map_key_end()?;
            s.map_value_begin()?;
            s.bool(v.y)?;
            s.map_value_end()?;
            s.map_end()
        };
        Record { x: u64, y: bool } |v, s| {
            s.record_begin(None, Some(&Label::new("Rec")), Some(&Index::new(1)), Some(2))?;
            s.record_value_begin(None, &Label::new("x"))?;
            s.u64(v.x)?;
            s.record_value_end(None, &Label::new("x"))?;
            s.record_value_begin(None, &Label::new("y"))?;
            s.bool(v.y)?;
            s.record_value_end(None, &Label::new("y"))?;
            s.record_end(None, Some(&Label::new("Rec")), Some(&Index::new(1)))
        };
        Tuple { x: u64, y: bool } |v, s| {
            s.tuple_begin(None, Some(&Label::new("Tup")), None, Some(2))?;
            s.tuple_value_begin(None, &Index::new(0))?;
            s.u64(v.x)?;
            s.tuple_value_end(None, &Index::new(0))?;
            s.tuple_value_begin(None, &Index::new(1))?;
            s.bool(v.y)?;
            s.tuple_value_end(None, &Index::new(1))?;
            s.tuple_end(None, Some(&Label::new("Tup")), None)
        };
        Enum { x: u64 } |v, s| {
            s.enum_begin(None, Some(&Label::new("En")), None)?;
            s.tagged_begin(None, Some(&Label::new("V")), Some(&Index::new(1)))?;
            s.u64(v.x)?;
            s.tagged_end(None, Some(&Label::new("V")), Some(&Index::new(1)))?;
            s.enum_end(None, Some(&Label::new("En")), None)
        };
        One { x: u64 } |v, s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.u64(v.x)?;
            s.seq_value_end()?;
            s.seq_end()
        };
        Nested { x: One, y: u64 } |v, s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.value(&v.x)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.value(&v.y)?;
            s.seq_value_end()?;
            s.seq_end()
        };
        SizedSeq { x: u64, y: &'static str } |v, s| {
            s.seq_begin(Some(2))?;
            s.seq_value_begin()?;
            s.u64(v.x)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.value_computed(v.y)?;
            s.seq_value_end()?;
            s.seq_end()
        };
        SizedMap { k: &'static str, x: u64, y: bool } |v, s| {
            s.map_begin(Some(2))?;
            s.map_key_begin()?;
            s.value_computed(v.k)?;
            s.map_key_end()?;
            s.map_value_begin()?;
            s.u64(v.x)?;
            s.map_value_end()?;
            s.map_key_begin()?;
            s.u64(7)?;
            s.map_key_end()?;
            s.map_value_begin()?;
            s.bool(v.y)?;
            s.map_value_end()?;
            s.map_end()
        };
        SizedNested { x: u64, y: i64 } |v, s| {
            s.seq_begin(Some(2))?;
            s.seq_value_begin()?;
            s.seq_begin(Some(1))?;
            s.seq_value_begin()?;
            s.u64(v.x)?;
            s.seq_value_end()?;
            s.seq_end()?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.i64(v.y)?;
            s.seq_value_end()?;
            s.seq_end()
        };
        Blob { x: &'static [u8] } |v, s| {
            s.binary_begin(Some(v.x.len()))?;
            s.binary_fragment_computed(v.x)?;
            s.binary_end()
        };
        Lists { x: u64, y: bool } |v, s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.u64(v.x)?;
            s.seq_value_end()?;
            s.seq_end()?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.u64(v.x)?;
            s.seq_value_end()?;
            s.seq_end()?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.u64(v.x)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.map_begin(None)?;
            s.map_key_begin()?;
            s.value("k")?;
            s.map_key_end()?;
            s.map_value_begin()?;
            s.u64(v.x)?;
            s.map_value_end()?;
            s.map_end()?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.bool(v.y)?;
            s.seq_value_end()?;
            s.seq_end()
        };
        Kinds { i: i32, f: f64 } |v, s| {
            s.seq_begin(Some(3))?;
            s.seq_value_begin()?;
            s.i32(v.i)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.f64(v.f)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.null()?;
            s.seq_value_end()?;
            s.seq_end()
        };
        Ints { a: u8, b: u16, c: u32, d: i8, e: i16, f: i64 } |v, s| {
            s.seq_begin(Some(6))?;
            s.seq_value_begin()?;
            s.u8(v.a)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.u16(v.b)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.u32(v.c)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.i8(v.d)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.i16(v.e)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.i64(v.f)?;
            s.seq_value_end()?;
            s.seq_end()
        };
        Odd { a: u128, b: i128, c: f32, d: &'static str, e: &'static str } |v, s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.u128(v.a)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.i128(v.b)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.f32(v.c)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.value(v.d)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.value_computed(v.e)?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.bool(true)?;
            s.seq_value_end()?;
            s.seq_end()
        };
        Texts { a: &'static str, b: &'static str, c: &'static str, d: &'static str, e: &'static str } |v, s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.text_begin(None)?;
            s.text_fragment(v.a)?;
            s.text_fragment_computed(v.b)?;
            s.text_end()?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.text_begin(None)?;
            s.text_fragment(v.c)?;
            s.text_end()?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.text_begin(None)?;
            s.text_fragment_computed(v.d)?;
            s.text_fragment_computed(v.e)?;
            s.text_end()?;
            s.seq_value_end()?;
            s.seq_end()
        };
        SeqFail { x: u64 } |v, s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.u64(v.x)?;
            s.seq_value_end()?;
            sval::error()
        };
    }
}
