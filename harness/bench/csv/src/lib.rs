//! Stands in for csv: records of plain fields, as it would write them; each is told to the scenario (SCN) with its time.
use serde::ser::{self, Serialize};
use std::fmt::Display;
use std::io::Write;

extern "C" {
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}

#[derive(Debug)]
pub struct Error(String);
impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Default)]
pub struct WriterBuilder {
    headers: Option<bool>,
}
impl WriterBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn has_headers(&mut self, yes: bool) -> &mut Self {
        self.headers = Some(yes);
        self
    }
    pub fn from_writer<W: Write>(&self, w: W) -> Writer<W> {
        Writer { w, pending: vec![], headers: self.headers.unwrap_or(true) }
    }
}
pub struct Writer<W: Write> {
    w: W,
    pending: Vec<u8>,
    headers: bool,
}
impl<W: Write> Writer<W> {
    pub fn from_writer(w: W) -> Self {
        WriterBuilder::new().from_writer(w)
    }
    pub fn serialize<S: Serialize>(&mut self, record: S) -> Result<()> {
        let mut row = Row::default();
        record.serialize(&mut row)?;
        if std::mem::take(&mut self.headers) && !row.names.is_empty() {
            let names = row.names.clone();
            self.write_record(&names)?;
        }
        self.write_record(&row.fields)
    }
    pub fn write_record<I: IntoIterator<Item = T>, T: AsRef<[u8]>>(&mut self, fields: I) -> Result<()> {
        let mut line: Vec<u8> = vec![];
        for (k, f) in fields.into_iter().enumerate() {
            let f = f.as_ref();
            if k > 0 {
                line.push(b',');
            }
            if f.iter().any(|b| matches!(b, b',' | b'"' | b'\n' | b'\r')) {
                line.push(b'"');
                for b in f {
                    if *b == b'"' {
                        line.push(b'"');
                    }
                    line.push(*b);
                }
                line.push(b'"');
            } else {
                line.extend_from_slice(f);
            }
        }
        line.push(b'\n');
        if let Ok(scn) = std::env::var("SCN") {
            let mut t = [0i64; 2];
            unsafe { clock_gettime(1, &mut t) };
            let t = t[0] * 1_000_000_000 + t[1];
            let mut log = std::fs::OpenOptions::new().create(true).append(true).open(format!("{scn}/log")).unwrap();
            log.write_all(format!("record|{t}\n").as_bytes()).unwrap();
        }
        self.pending.extend(line);
        if self.pending.len() > 8192 {
            self.flush().map_err(|e| Error(e.to_string()))?;
        }
        Ok(())
    }
    pub fn flush(&mut self) -> std::io::Result<()> {
        self.w.write_all(&self.pending)?;
        self.pending.clear();
        self.w.flush()
    }
}
impl<W: Write> Drop for Writer<W> {
    fn drop(&mut self) {
        let _ = self.flush();
    }
}

#[derive(Default)]
struct Row {
    names: Vec<String>,
    fields: Vec<String>,
}
macro_rules! shown { ($($f:ident $t:ty)*) => { $(fn $f(self, v: $t) -> Result<()> { self.fields.push(v.to_string()); Ok(()) })* } }
macro_rules! refused { ($($f:ident ($($t:ty),*) $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r> { Err(Error("not a field".into())) })* } }
impl ser::Serializer for &mut Row {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = ser::Impossible<(), Error>;
    type SerializeTupleVariant = ser::Impossible<(), Error>;
    type SerializeMap = ser::Impossible<(), Error>;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), Error>;
    shown! { serialize_bool bool serialize_i8 i8 serialize_i16 i16 serialize_i32 i32 serialize_i64 i64 serialize_i128 i128
    serialize_u8 u8 serialize_u16 u16 serialize_u32 u32 serialize_u64 u64 serialize_u128 u128 serialize_f32 f32 serialize_f64 f64
    serialize_char char serialize_str &str }
    fn serialize_none(self) -> Result<()> {
        self.fields.push(String::new());
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<()> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<()> {
        self.serialize_none()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<()> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<()> {
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self> {
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self> {
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self> {
        Ok(self)
    }
    refused! {
        serialize_bytes(&[u8]) ();
        serialize_unit_struct(&'static str) ();
        serialize_tuple_struct(&'static str, usize) ser::Impossible<(), Error>;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) ser::Impossible<(), Error>;
        serialize_map(Option<usize>) ser::Impossible<(), Error>;
        serialize_struct_variant(&'static str, u32, &'static str, usize) ser::Impossible<(), Error>;
    }
}
impl ser::SerializeStruct for &mut Row {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, name: &'static str, v: &T) -> Result<()> {
        self.names.push(name.into());
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<()> {
        Ok(())
    }
}
impl ser::SerializeSeq for &mut Row {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<()> {
        Ok(())
    }
}
impl ser::SerializeTuple for &mut Row {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<()> {
        Ok(())
    }
}
