//! The universal test case: every generator produces one, every check consumes one.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    /// the main text
    #[serde(serialize_with = "ser_bytes", deserialize_with = "de_bytes")]
    pub text: Vec<u8>,
    /// a second byte string (symbol lists, positions, operation lists ...)
    #[serde(serialize_with = "ser_bytes", deserialize_with = "de_bytes")]
    pub aux: Vec<u8>,
    /// numeric parameters
    pub nums: Vec<u64>,
}

impl Case {
    pub fn text(t: Vec<u8>) -> Case {
        Case { text: t, ..Default::default() }
    }
    pub fn nums(n: Vec<u64>) -> Case {
        Case { nums: n, ..Default::default() }
    }
    pub fn new(text: Vec<u8>, aux: Vec<u8>, nums: Vec<u64>) -> Case {
        Case { text, aux, nums }
    }
    pub fn num(&self, i: usize) -> u64 {
        self.nums.get(i).copied().unwrap_or(0)
    }
    pub fn hash64(&self) -> u64 {
        let mut h = Fnv::new();
        h.put(&(self.text.len() as u64).to_le_bytes());
        h.put(&self.text);
        h.put(&(self.aux.len() as u64).to_le_bytes());
        h.put(&self.aux);
        for n in &self.nums {
            h.put(&n.to_le_bytes());
        }
        h.0
    }
    pub fn brief(&self) -> serde_json::Value {
        let mut m = serde_json::Map::new();
        if !self.text.is_empty() || self.nums.is_empty() {
            m.insert("text".into(), brief_bytes(&self.text).into());
            m.insert("text_len".into(), self.text.len().into());
        }
        if !self.aux.is_empty() {
            m.insert("aux".into(), brief_bytes(&self.aux).into());
        }
        if !self.nums.is_empty() {
            m.insert("nums".into(), serde_json::json!(self.nums));
        }
        m.into()
    }
}

pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    pub fn put(&mut self, b: &[u8]) {
        for &x in b {
            self.0 ^= x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = Fnv::new();
    h.put(s.as_bytes());
    h.0
}

pub fn brief_bytes(b: &[u8]) -> String {
    let cut = &b[..b.len().min(96)];
    let mut s: String = cut.iter().flat_map(|&c| std::ascii::escape_default(c)).map(|c| c as char).collect();
    if b.len() > cut.len() {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

fn ser_bytes<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
    // printable ASCII as is, everything else as hex
    if b.iter().all(|&c| (0x20..0x7f).contains(&c)) && !b.starts_with(b"hex:") {
        s.serialize_str(std::str::from_utf8(b).unwrap())
    } else {
        let mut h = String::with_capacity(4 + b.len() * 2);
        h.push_str("hex:");
        for x in b {
            h.push_str(&format!("{:02x}", x));
        }
        s.serialize_str(&h)
    }
}

fn de_bytes<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = String::deserialize(d)?;
    match s.strip_prefix("hex:") {
        None => Ok(s.into_bytes()),
        Some(h) => (0..h.len() / 2)
            .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
            .collect(),
    }
}
