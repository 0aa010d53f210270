//! A stand-in for base64 0.13.
pub fn encode<T: AsRef<[u8]>>(x: T) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in x.as_ref().chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { if i <= c.len() { o.push(A[(v >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') } }
    }
    o
}
