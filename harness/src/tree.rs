//! Ordered document trees.
use ciborium::value::Value as Cb;

/// JSON text of an ordered tree
pub fn json(v: &Cb, s: &mut String) {
    match v {
        Cb::Map(m) => {
            s.push('{');
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                json(k, s);
                s.push(':');
                json(v, s);
            }
            s.push('}');
        }
        Cb::Array(a) => {
            s.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                json(v, s);
            }
            s.push(']');
        }
        Cb::Text(t) => s.push_str(&serde_json::to_string(t).unwrap()),
        Cb::Float(f) => s.push_str(&serde_json::to_string(f).unwrap()),
        Cb::Integer(i) => s.push_str(&i128::from(*i).to_string()),
        Cb::Bool(b) => s.push_str(&b.to_string()),
        Cb::Null => s.push_str("null"),
        x => panic!("unexpected CBOR item {x:?}"),
    }
}
pub fn leaves(v: &Cb, out: &mut Vec<f64>) {
    match v {
        Cb::Map(m) => m.iter().for_each(|(_, v)| leaves(v, out)),
        Cb::Array(a) => a.iter().for_each(|v| leaves(v, out)),
        Cb::Float(f) => out.push(*f),
        Cb::Integer(i) => out.push(i128::from(*i) as f64),
        _ => {}
    }
}
/// the same document with the fields of every map permuted
pub fn shuffle(v: &Cb, seed: &mut u64) -> Cb {
    match v {
        Cb::Map(m) => {
            let mut m: Vec<(Cb, Cb)> = m.iter().map(|(k, v)| (k.clone(), shuffle(v, seed))).collect();
            for i in (1..m.len()).rev() {
                *seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                m.swap(i, (*seed >> 33) as usize % (i + 1));
            }
            Cb::Map(m)
        }
        Cb::Array(a) => Cb::Array(a.iter().map(|x| shuffle(x, seed)).collect()),
        x => x.clone(),
    }
}
/// JSON text of an ordered tree of numbers of type R, as short as R permits
pub fn json_r<R: crate::model::Real>(v: &Cb, s: &mut String) {
    match v {
        Cb::Map(m) => {
            s.push('{');
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                json(k, s);
                s.push(':');
                json_r::<R>(v, s);
            }
            s.push('}');
        }
        Cb::Array(a) => {
            s.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                json_r::<R>(v, s);
            }
            s.push(']');
        }
        Cb::Float(f) => s.push_str(&serde_json::to_string(&R::of(*f)).unwrap()),
        x => json(x, s),
    }
}

/// How a document is handed to serde's visitors.
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Keys {
    Borrowed,
    Owned,
    Transient,
    Bytes,
    ByteBuf,
}
/// A deserializer over a tree, which uses every freedom the data model gives.
#[derive(Clone, Copy)]
pub struct Walk<'a> {
    pub v: &'a Cb,
    pub keys: Keys,
    pub readable: bool,
}
pub struct Oops(String);
impl std::fmt::Debug for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Oops {}
impl serde::de::Error for Oops {
    fn custom<T: std::fmt::Display>(x: T) -> Self {
        Oops(x.to_string())
    }
}
struct Key<'a>(&'a str, Keys);
impl<'de> serde::Deserializer<'de> for Key<'de> {
    type Error = Oops;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
        match self.1 {
            Keys::Borrowed => v.visit_borrowed_str(self.0),
            Keys::Owned => v.visit_string(self.0.to_string()),
            Keys::Transient => v.visit_str(&self.0.to_string()),
            Keys::Bytes => v.visit_borrowed_bytes(self.0.as_bytes()),
            Keys::ByteBuf => v.visit_byte_buf(self.0.as_bytes().to_vec()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
/// the fields of a map
struct Fields<'a>(Vec<(&'a str, &'a Cb)>, Option<&'a Cb>, Walk<'a>);
impl<'de> serde::de::MapAccess<'de> for Fields<'de> {
    type Error = Oops;
    fn next_key_seed<K: serde::de::DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Oops> {
        match self.0.pop() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(Key(k, self.2.keys)).map(Some)
            }
        }
    }
    fn next_value_seed<V: serde::de::DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Oops> {
        s.deserialize(Walk { v: self.1.take().expect("value before key"), ..self.2 })
    }
}
struct Items<'a>(std::slice::Iter<'a, Cb>, Walk<'a>);
impl<'de> serde::de::SeqAccess<'de> for Items<'de> {
    type Error = Oops;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Oops> {
        self.0.next().map(|v| s.deserialize(Walk { v, ..self.1 })).transpose()
    }
}
impl<'de> serde::Deserializer<'de> for Walk<'de> {
    type Error = Oops;
    fn is_human_readable(&self) -> bool {
        self.readable
    }
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
        match self.v {
            Cb::Map(m) => {
                // (handed out last to first)
                let f = m.iter().map(|(k, v)| (k.as_text().unwrap_or(""), v)).collect();
                v.visit_map(Fields(f, None, self))
            }
            Cb::Array(a) => v.visit_seq(Items(a.iter(), self)),
            Cb::Float(f) => v.visit_f64(*f),
            Cb::Integer(i) => v.visit_i64(i128::from(*i) as i64),
            Cb::Bool(b) => v.visit_bool(*b),
            Cb::Text(t) => v.visit_borrowed_str(t),
            Cb::Null => v.visit_unit(),
            x => panic!("unexpected CBOR item {x:?}"),
        }
    }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Oops> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
