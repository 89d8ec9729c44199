//! Wire formats. CBOR is a binary (not human-readable) self-describing format, JSON is a human-readable one.
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BoxedFormat {
    Cbor,
    Json,
}

impl BoxedFormat {
    pub fn serialize<T: Serialize>(&self, value: &T) -> Result<Vec<u8>, String> {
        match self {
            Self::Cbor => {
                let mut v = Vec::new();
                ciborium::into_writer(value, &mut v).map_err(|e| format!("{e}"))?;
                Ok(v)
            }
            Self::Json => serde_json::to_vec(value).map_err(|e| format!("{e}")),
        }
    }
    pub fn deserialize<T: for<'de> Deserialize<'de>>(&self, bytes: &[u8]) -> Result<T, String> {
        match self {
            Self::Cbor => {
                let mut rest: &[u8] = bytes;
                let v = ciborium::from_reader(&mut rest).map_err(|e| format!("{e}"))?;
                if !rest.is_empty() {
                    return Err("trailing bytes".into());
                }
                Ok(v)
            }
            Self::Json => serde_json::from_slice(bytes).map_err(|e| format!("{e}")),
        }
    }
}
