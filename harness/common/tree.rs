//! Generic access to serializable values as trees (positional, so independent of field names).
use std::prelude::v1::*;
pub use ciborium::Value;
use serde::{Serialize, de::DeserializeOwned};

pub fn to_tree<T: Serialize>(t: &T) -> Value { Value::serialized(t).expect("serializable") }
pub fn from_tree<T: DeserializeOwned>(v: &Value) -> Result<T, String> { v.deserialized().map_err(|e| e.to_string()) }
/// A round trip through the actual binary format.
pub fn to_cbor<T: Serialize>(t: &T) -> Vec<u8> { let mut v = vec![]; ciborium::into_writer(t, &mut v).expect("serializable"); v }
pub fn from_cbor<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> { ciborium::from_reader(b).map_err(|e| e.to_string()) }
pub type Path = Vec<usize>;
fn is_leaf(v: &Value) -> bool { !matches!(v, Value::Array(_) | Value::Map(_)) }
/// Paths of all leaves. Map entries are addressed by position (the values only).
pub fn leaves(v: &Value) -> Vec<Path> { let mut r = vec![]; walk(v, &mut vec![], &mut |p, x| if is_leaf(x) { r.push(p.clone()) }); r }
/// Paths of all sequences and maps.
pub fn containers(v: &Value) -> Vec<Path> { let mut r = vec![]; walk(v, &mut vec![], &mut |p, x| if !is_leaf(x) { r.push(p.clone()) }); r }
pub fn walk(v: &Value, p: &mut Path, f: &mut impl FnMut(&Path, &Value)) {
    f(p, v);
    match v {
        Value::Array(a) => for (i, x) in a.iter().enumerate() { p.push(i); walk(x, p, f); p.pop(); },
        Value::Map(m) => for (i, (_, x)) in m.iter().enumerate() { p.push(i); walk(x, p, f); p.pop(); },
        _ => {}
    }
}
pub fn get<'a>(v: &'a Value, p: &[usize]) -> &'a Value { match p { [] => v, [i, r @ ..] => match v { Value::Array(a) => get(&a[*i], r), Value::Map(m) => get(&m[*i].1, r), _ => panic!("path") } } }
pub fn get_mut<'a>(v: &'a mut Value, p: &[usize]) -> &'a mut Value { match p { [] => v, [i, r @ ..] => match v { Value::Array(a) => get_mut(&mut a[*i], r), Value::Map(m) => get_mut(&mut m[*i].1, r), _ => panic!("path") } } }
pub fn set(v: &Value, p: &[usize], x: Value) -> Value { let mut r = v.clone(); *get_mut(&mut r, p) = x; r }
/// Human readable name of a path (field names where there are any).
pub fn name(v: &Value, p: &[usize]) -> String {
    match p { [] => String::new(), [i, r @ ..] => match v {
        Value::Array(a) => format!("[{i}]{}", name(&a[*i], r)),
        Value::Map(m) => { let k = match &m[*i].0 { Value::Text(s) => format!(".{s}"), _ => format!("{{{i}}}") }; format!("{k}{}", name(&m[*i].1, r)) }
        _ => "?".into() } }
}
/// Like `name`, but without indices, for stable keys.
pub fn class(v: &Value, p: &[usize]) -> String {
    match p { [] => String::new(), [i, r @ ..] => match v {
        Value::Array(a) => format!("[]{}", class(&a[*i], r)),
        Value::Map(m) => { let k = match &m[*i].0 { Value::Text(s) => format!(".{s}"), _ => "{}".into() }; format!("{k}{}", class(&m[*i].1, r)) }
        _ => "?".into() } }
}
pub fn bytes(v: &Value) -> Option<&Vec<u8>> { if let Value::Bytes(b) = v { Some(b) } else { None } }
