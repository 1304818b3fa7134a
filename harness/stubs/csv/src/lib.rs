//! Offline stand-in for `csv`: a writer of records, quoting fields that need it, with a header row
//! ahead of serialized structs.
use serde::ser::{self, Impossible, Serialize};
use std::io::{self, Write};

pub type Error = io::Error;

pub struct Writer<W: Write> {
  out: W,
  headed: bool,
}
impl<W: Write> Writer<W> {
  pub fn from_writer(out: W) -> Writer<W> { Writer { out, headed: false } }
  pub fn write_record<I, T>(&mut self, record: I) -> io::Result<()>
  where
    I: IntoIterator<Item = T>,
    T: AsRef<[u8]>,
  {
    let fields: Vec<Vec<u8>> = record.into_iter().map(|f| f.as_ref().to_vec()).collect();
    for (i, f) in fields.iter().enumerate() {
      if i > 0 {
        self.out.write_all(b",")?;
      }
      if f.iter().any(|b| b",\"\r\n".contains(b)) || (f.is_empty() && fields.len() == 1) {
        self.out.write_all(b"\"")?;
        for b in f {
          self.out.write_all(if *b == b'"' { b"\"\"" } else { std::slice::from_ref(b) })?;
        }
        self.out.write_all(b"\"")?;
      } else {
        self.out.write_all(f)?;
      }
    }
    self.out.write_all(b"\n")
  }
  pub fn serialize<S: Serialize>(&mut self, record: S) -> io::Result<()> {
    let mut fields = Fields(Vec::new());
    record.serialize(&mut fields).map_err(|e| io::Error::other(e.0))?;
    if !std::mem::replace(&mut self.headed, true) {
      self.write_record(fields.0.iter().map(|f| f.0))?;
    }
    self.write_record(fields.0.iter().map(|f| &f.1))
  }
  pub fn flush(&mut self) -> io::Result<()> { self.out.flush() }
}
impl<W: Write> Drop for Writer<W> {
  fn drop(&mut self) { let _ = self.out.flush(); }
}

#[derive(Debug)]
pub struct Failed(String);
impl std::fmt::Display for Failed {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Failed {}
impl ser::Error for Failed {
  fn custom<T: std::fmt::Display>(m: T) -> Failed { Failed(m.to_string()) }
}

/// a flat struct of strings and numbers
struct Fields(Vec<(&'static str, String)>);
struct Field;

macro_rules! shown {
  ($($f:ident: $t:ty),*) => { $(fn $f(self, v: $t) -> Result<String, Failed> { Ok(v.to_string()) })* };
}
macro_rules! refuse {
  ($ok:ty) => {
    type SerializeSeq = Impossible<$ok, Failed>;
    type SerializeTuple = Impossible<$ok, Failed>;
    type SerializeTupleStruct = Impossible<$ok, Failed>;
    type SerializeTupleVariant = Impossible<$ok, Failed>;
    type SerializeMap = Impossible<$ok, Failed>;
    type SerializeStructVariant = Impossible<$ok, Failed>;
    fn serialize_bytes(self, _: &[u8]) -> Result<$ok, Failed> { no() }
    fn serialize_unit_struct(self, _: &'static str) -> Result<$ok, Failed> { no() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<$ok, Failed> { no() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<$ok, Failed> { no() }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<$ok, Failed> { no() }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Failed> { no() }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Failed> { no() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Failed> { no() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Failed> { no() }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Failed> { no() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Failed> { no() }
  };
}
fn no<T>() -> Result<T, Failed> { Err(Failed("only flat structs of strings and numbers".into())) }

impl ser::Serializer for Field {
  type Ok = String;
  type Error = Failed;
  type SerializeStruct = Impossible<String, Failed>;
  shown!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_str: &str);
  fn serialize_none(self) -> Result<String, Failed> { Ok(String::new()) }
  fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<String, Failed> { v.serialize(self) }
  fn serialize_unit(self) -> Result<String, Failed> { Ok(String::new()) }
  fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Failed> { no() }
  refuse!(String);
}

macro_rules! no_scalar {
  ($($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), Failed> { no() })* };
}
impl ser::Serializer for &mut Fields {
  type Ok = ();
  type Error = Failed;
  type SerializeStruct = Self;
  no_scalar!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_str: &str);
  fn serialize_none(self) -> Result<(), Failed> { no() }
  fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Failed> { no() }
  fn serialize_unit(self) -> Result<(), Failed> { no() }
  fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Failed> { Ok(self) }
  refuse!(());
}
impl ser::SerializeStruct for &mut Fields {
  type Ok = ();
  type Error = Failed;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, name: &'static str, v: &T) -> Result<(), Failed> {
    self.0.push((name, v.serialize(Field)?));
    Ok(())
  }
  fn end(self) -> Result<(), Failed> { Ok(()) }
}
