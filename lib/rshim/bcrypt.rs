//! A stand-in for bcrypt 0.10 with a salted hash which is not cryptographic, as those of the C and TypeScript programs.
use std::cell::Cell;
pub const DEFAULT_COST: u32 = 12;
#[derive(Debug)]
pub enum BcryptError { CostNotAllowed(u32), InvalidHash(String) }
impl std::fmt::Display for BcryptError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for BcryptError {}
pub type BcryptResult<T> = Result<T, BcryptError>;
thread_local!(static N: Cell<u32> = Cell::new(0));
thread_local!(pub static COST: Cell<u32> = Cell::new(0));
fn fnv(l: &[&[u8]]) -> u64 {
    let mut x: u64 = 1469598103934665603;
    for (i, p) in l.iter().enumerate() {
        if i > 0 { x = (x ^ 255).wrapping_mul(1099511628211); }
        for b in p.iter() { x = (x ^ *b as u64).wrapping_mul(1099511628211); }
    }
    x
}
pub fn hash<P: AsRef<[u8]>>(p: P, cost: u32) -> BcryptResult<String> {
    if cost < 4 || cost > 31 { return Err(BcryptError::CostNotAllowed(cost)); }
    COST.with(|c| c.set(cost));
    let n = N.with(|n| { n.set(n.get() + 1); n.get() });
    let s = format!("{:06}", n % 1000000);
    Ok(format!("$2b$08${}${:016x}{}", s, fnv(&[s.as_bytes(), p.as_ref()]), "0".repeat(28)))
}
pub fn verify<P: AsRef<[u8]>>(p: P, h: &str) -> BcryptResult<bool> {
    // as the crate, whose hashes have three parts
    let b = h.as_bytes();
    if b.len() != 7 + 6 + 1 + 16 + 28 || !h.starts_with("$2b$08$") || b[13] != b'$' || !b[7..13].iter().all(|c| c.is_ascii_digit()) { return Err(BcryptError::InvalidHash(h.to_string())); }
    Ok(h[14..30] == format!("{:016x}", fnv(&[&b[7..13], p.as_ref()])))
}
