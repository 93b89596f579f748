//! Stands in for BLAKE3, whose inversion no solver can decide: like it, it tells the texts of the
//! harness apart (it is injective on up to 31 bytes).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hash([u8; 32]);
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_hex(&self) -> String {
        self.0.iter().map(|b| format!("{b:02x}")).collect()
    }
}
pub fn hash(x: &[u8]) -> Hash {
    let mut h = [0u8; 32];
    for (i, b) in x.iter().enumerate() {
        let k = i % 31;
        h[k] = h[k].rotate_left(3).wrapping_add(*b);
    }
    h[31] = x.len() as u8;
    Hash(h)
}
