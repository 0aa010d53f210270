//! What the drivers of all configurations share.
use rusqlite::ffi::*;
use std::io::Write;
use std::ffi::CString;
pub fn hexs(t: char, b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2 + 3); s.push('"'); s.push(t); for x in b { s += &format!("{:02x}", x); } s.push('"'); s }
pub fn outi(v: i64) -> String { format!("\"i{}\"", v) }
pub fn outr(v: f64) -> String {
    if v.is_nan() { return "\"rnan\"".into(); }
    if v.is_infinite() { return if v > 0.0 { "\"rinf\"".into() } else { "\"r-inf\"".into() }; }
    let u = v.to_bits(); let s = if u >> 63 != 0 { "-" } else { "" }; let e = ((u >> 52) & 0x7ff) as i64; let m = u & 0xfffffffffffff;
    if e == 0 && m == 0 { return format!("\"r{}0x0.0p+0\"", s); }
    let (l, e) = if e == 0 { (0, 1) } else { (1, e) };
    format!("\"r{}0x{}.{:013x}p{:+}\"", s, l, m, e - 1023)
}
pub fn outs(v: &str) -> String { hexs('s', v.as_bytes()) }
pub fn outb(v: &[u8]) -> String { hexs('b', v) }
pub fn isnul(t: &str) -> bool { t.starts_with('~') }
pub fn toi(t: &str) -> i64 { t[1..].parse().unwrap() }
pub fn tor(t: &str) -> f64 {
    // hexadecimal floats as of C
    let b = &t[1..]; let (neg, b) = if let Some(x) = b.strip_prefix('-') { (true, x) } else { (false, b) };
    if b == "inf" { return if neg { -f64::INFINITY } else { f64::INFINITY }; }
    if b == "nan" { return f64::NAN; }
    let b = &b[2..]; let p = b.find('p').unwrap(); let e: i32 = b[p + 1..].parse().unwrap();
    let mut m: f64 = 0.0; let mut sc = 0; let mut dot = false;
    for c in b[..p].chars() { if c == '.' { dot = true; continue; } m = m * 16.0 + c.to_digit(16).unwrap() as f64; if dot { sc += 4; } }
    let mut e = e - sc; 
    while e < -1000 { m *= 2f64.powi(-500); e += 500; }
    let v = m * 2f64.powi(e); if neg { -v } else { v }
}
pub fn tob(t: &str) -> Vec<u8> {
    if t.starts_with('@') {
        let l: Vec<&str> = t[1..].split('.').collect();
        let q = CString::new(format!("SELECT {} FROM {} WHERE _rowid_ = {}", l[1], l[0], l[2])).unwrap();
        let mut st = std::ptr::null_mut(); let mut o = Vec::new();
        unsafe {
            if sqlite3_prepare_v2(rusqlite::shim_db(), q.as_ptr(), -1, &mut st, std::ptr::null_mut()) != 0 { std::process::exit(78); }
            if sqlite3_step(st) == 100 && sqlite3_column_type(st, 0) != 5 { let p = sqlite3_column_text(st, 0); let n = sqlite3_column_bytes(st, 0) as usize; o = std::slice::from_raw_parts(p, n).to_vec(); }
            sqlite3_finalize(st);
        }
        return o;
    }
    (0..(t.len() - 1) / 2).map(|i| u8::from_str_radix(&t[1 + 2 * i..3 + 2 * i], 16).unwrap()).collect()
}
pub fn tos(t: &str) -> String { String::from_utf8(tob(t)).unwrap() }
pub fn opt<T, F: Fn(&str) -> T>(t: &str, f: F) -> Option<T> { if isnul(t) { None } else { Some(f(t)) } }
pub fn dumptable(t: &str, q: &str) -> String {
    let c = CString::new(q).unwrap(); let mut st = std::ptr::null_mut(); let mut o = format!("\"{}\":[", t); let mut n = 0;
    unsafe {
        if sqlite3_prepare_v2(rusqlite::shim_db(), c.as_ptr(), -1, &mut st, std::ptr::null_mut()) != 0 { std::process::exit(79); }
        while sqlite3_step(st) == 100 {
            if n > 0 { o.push(','); } n += 1; o.push('[');
            for i in 0..sqlite3_column_count(st) {
                if i > 0 { o.push(','); }
                o += &match sqlite3_column_type(st, i) {
                    1 => outi(sqlite3_column_int64(st, i)), 2 => outr(sqlite3_column_double(st, i)),
                    3 => { let p = sqlite3_column_text(st, i); let n = sqlite3_column_bytes(st, i) as usize; hexs('s', std::slice::from_raw_parts(p, n)) }
                    4 => { let p = sqlite3_column_blob(st, i); let n = sqlite3_column_bytes(st, i) as usize; if n == 0 { hexs('b', &[]) } else { hexs('b', std::slice::from_raw_parts(p, n)) } }
                    _ => "null".into(),
                };
            }
            o.push(']');
        }
        sqlite3_finalize(st);
    }
    o + "]"
}
pub fn say(s: &str) { let o = std::io::stdout(); let mut l = o.lock(); let _ = l.write_all(s.as_bytes()); let _ = l.write_all(b"\n"); let _ = l.flush(); }
pub fn violated(e: &rusqlite::Error) -> bool { match e { rusqlite::Error::SqliteFailure(x, _) => x.code == ErrorCode::ConstraintViolation, _ => false } }
pub fn die(what: &str, e: rusqlite::Error) -> ! { eprintln!("driver: {}: {:?}", what, e); std::process::exit(71) }
pub fn fail(what: &str) -> ! { eprintln!("driver: {}", what); std::process::exit(76) }
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        eprintln!("panic: {} {:?}", m, i.location());
        std::process::exit(if m == "role violation" { 70 } else { 101 });
    }));
}
