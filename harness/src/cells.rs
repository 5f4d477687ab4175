//! Reads generated mazes through their public serialised form.

use serde::ser::{Impossible, Serialize, SerializeStruct, Serializer};

#[derive(Debug)]
pub struct E(String);

impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: std::fmt::Display>(msg: T) -> Self {
        E(msg.to_string())
    }
}

#[derive(Default, Clone)]
pub struct Seen {
    pub fields: Vec<(&'static str, bool)>,
    pub variant: Option<&'static str>,
}

struct Bool<'a>(&'a mut Seen, &'static str);
struct Top<'a>(&'a mut Seen);
struct Fields<'a>(&'a mut Seen);

impl SerializeStruct for Fields<'_> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<(), E> {
        value.serialize(Bool(self.0, key))
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

macro_rules! no {
    ($($name:ident($($t:ty),*) -> $r:ty;)*) => {
        $(fn $name(self, $(_: $t),*) -> Result<$r, E> { Err(E(stringify!($name).into())) })*
    };
}

macro_rules! common {
    () => {
        type Ok = ();
        type Error = E;
        type SerializeSeq = Impossible<(), E>;
        type SerializeTuple = Impossible<(), E>;
        type SerializeTupleStruct = Impossible<(), E>;
        type SerializeTupleVariant = Impossible<(), E>;
        type SerializeMap = Impossible<(), E>;
        type SerializeStructVariant = Impossible<(), E>;
        no! {
            serialize_i8(i8) -> (); serialize_i16(i16) -> (); serialize_i32(i32) -> (); serialize_i64(i64) -> ();
            serialize_u8(u8) -> (); serialize_u16(u16) -> (); serialize_u32(u32) -> (); serialize_u64(u64) -> ();
            serialize_f32(f32) -> (); serialize_f64(f64) -> (); serialize_char(char) -> (); serialize_str(&str) -> ();
            serialize_bytes(&[u8]) -> (); serialize_none() -> (); serialize_unit() -> ();
            serialize_unit_struct(&'static str) -> ();
            serialize_seq(Option<usize>) -> Self::SerializeSeq;
            serialize_tuple(usize) -> Self::SerializeTuple;
            serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
            serialize_map(Option<usize>) -> Self::SerializeMap;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> {
            Err(E("some".into()))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), E> {
            Err(E("newtype".into()))
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<(), E> {
            Err(E("newtype variant".into()))
        }
    };
}

impl Serializer for Bool<'_> {
    common!();
    type SerializeStruct = Impossible<(), E>;
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.0.fields.push((self.1, v));
        Ok(())
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E("nested".into()))
    }
    no! { serialize_unit_variant(&'static str, u32, &'static str) -> (); }
}

impl<'a> Serializer for Top<'a> {
    common!();
    type SerializeStruct = Fields<'a>;
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields<'a>, E> {
        Ok(Fields(self.0))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), E> {
        self.0.variant = Some(v);
        Ok(())
    }
    no! { serialize_bool(bool) -> (); }
}

/// (right wall, bottom wall)
pub fn cell(node: &impl Serialize) -> (bool, bool) {
    let mut seen = Seen::default();
    let r = node.serialize(Top(&mut seen));
    let get = |name: &str| {
        seen.fields
            .iter()
            .find(|(n, _)| *n == name)
            .map(|(_, v)| *v)
    };
    match (r, get("right"), get("down")) {
        (Ok(()), Some(r), Some(d)) => (r, d),
        _ => crate::shm::harness_error(format_args!("cannot read a maze cell")),
    }
}

/// b'R', b'D', b'L' or b'U'
pub fn direction(d: &impl Serialize) -> u8 {
    let mut seen = Seen::default();
    let r = d.serialize(Top(&mut seen));
    match (r, seen.variant) {
        (Ok(()), Some("Right")) => b'R',
        (Ok(()), Some("Down")) => b'D',
        (Ok(()), Some("Left")) => b'L',
        (Ok(()), Some("Up")) => b'U',
        _ => crate::shm::harness_error(format_args!("cannot read a maze direction")),
    }
}
