//! A stand-in for rusqlite 0.25, after its documentation: the part that generated modules use.
//! All connections share one database in memory, which the driver sets up.
pub use libsqlite3_sys as ffi;
use ffi::*;
use std::cell::Cell;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_void};
thread_local!(static DB: Cell<*mut sqlite3> = Cell::new(std::ptr::null_mut()));
pub fn shim_db() -> *mut sqlite3 {
    DB.with(|d| {
        if d.get().is_null() { let mut p = std::ptr::null_mut(); unsafe { sqlite3_open(b":memory:\0".as_ptr() as *const c_char, &mut p) }; d.set(p); }
        d.get()
    })
}
pub fn shim_exec(sql: &str) -> std::result::Result<(), String> {
    let s = CString::new(sql).unwrap();
    let rc = unsafe { sqlite3_exec(shim_db(), s.as_ptr(), std::ptr::null(), std::ptr::null_mut(), std::ptr::null_mut()) };
    if rc == 0 { Ok(()) } else { Err(msg()) }
}
fn msg() -> String { unsafe { CStr::from_ptr(sqlite3_errmsg(shim_db())) }.to_string_lossy().into_owned() }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Type { Null, Integer, Real, Text, Blob }
#[derive(Debug)]
#[non_exhaustive]
pub enum Error {
    SqliteFailure(ffi::Error, Option<String>), IntegralValueOutOfRange(usize, i64), Utf8Error(std::str::Utf8Error), ExecuteReturnedResults, QueryReturnedNoRows,
    InvalidColumnIndex(usize), InvalidColumnType(usize, String, Type), StatementChangedRows(usize), InvalidParameterCount(usize, usize), MultipleStatement,
}
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
fn fail() -> Error { Error::SqliteFailure(ffi::Error::new(unsafe { sqlite3_extended_errcode(shim_db()) }), Some(msg())) }

pub enum Value<'a> { Null, Int(i64), Real(f64), Text(&'a str), Blob(&'a [u8]) }
pub trait ToSql { fn shim_value(&self) -> Value<'_>; }
macro_rules! ints { ($($t:ty)*) => { $(impl ToSql for $t { fn shim_value(&self) -> Value<'_> { Value::Int(*self as i64) } })* } }
ints!(i8 i16 i32 i64 isize u8 u16 u32 bool);
impl ToSql for f64 { fn shim_value(&self) -> Value<'_> { Value::Real(*self) } }
impl ToSql for String { fn shim_value(&self) -> Value<'_> { Value::Text(self) } }
impl ToSql for str { fn shim_value(&self) -> Value<'_> { Value::Text(self) } }
impl ToSql for Vec<u8> { fn shim_value(&self) -> Value<'_> { Value::Blob(self) } }
impl ToSql for [u8] { fn shim_value(&self) -> Value<'_> { Value::Blob(self) } }
impl<T: ToSql> ToSql for Option<T> { fn shim_value(&self) -> Value<'_> { match self { Some(x) => x.shim_value(), None => Value::Null } } }
impl<'b, T: ToSql + ?Sized> ToSql for &'b T { fn shim_value(&self) -> Value<'_> { (**self).shim_value() } }
impl<T: ToSql + ?Sized> ToSql for Box<T> { fn shim_value(&self) -> Value<'_> { (**self).shim_value() } }

pub trait Params { fn shim_bind(self, st: &mut Statement<'_>) -> Result<()>; }
fn bind_all(st: &mut Statement<'_>, l: &[&dyn ToSql]) -> Result<()> {
    unsafe {
        let n = sqlite3_bind_parameter_count(st.st) as usize;
        if n != l.len() { return Err(Error::InvalidParameterCount(l.len(), n)); }
        for (i, v) in l.iter().enumerate() {
            let k = i as c_int + 1;
            let rc = match v.shim_value() {
                Value::Null => sqlite3_bind_null(st.st, k),
                Value::Int(x) => sqlite3_bind_int64(st.st, k, x),
                Value::Real(x) => sqlite3_bind_double(st.st, k, x),
                Value::Text(s) => sqlite3_bind_text(st.st, k, if s.is_empty() { b"\0".as_ptr() } else { s.as_ptr() } as *const c_char, s.len() as c_int, -1),
                Value::Blob(b) => if b.is_empty() { sqlite3_bind_zeroblob(st.st, k, 0) } else { sqlite3_bind_blob(st.st, k, b.as_ptr() as *const c_void, b.len() as c_int, -1) },
            };
            if rc != 0 { return Err(fail()); }
        }
    }
    Ok(())
}
impl Params for [&(dyn ToSql + Send + Sync); 0] { fn shim_bind(self, st: &mut Statement<'_>) -> Result<()> { bind_all(st, &[]) } }
impl Params for &[&dyn ToSql] { fn shim_bind(self, st: &mut Statement<'_>) -> Result<()> { bind_all(st, self) } }
impl<const N: usize> Params for &[&dyn ToSql; N] { fn shim_bind(self, st: &mut Statement<'_>) -> Result<()> { bind_all(st, &self[..]) } }
#[macro_export]
macro_rules! params {
    () => { &[] as &[&dyn $crate::ToSql] };
    ($($p:expr),+ $(,)?) => { &[$(&$p as &dyn $crate::ToSql),+] as &[&dyn $crate::ToSql] };
}

pub struct Connection { _p: () }
impl Connection {
    pub fn open<P: AsRef<std::path::Path>>(p: P) -> Result<Connection> { let _ = p.as_ref(); shim_db(); Ok(Connection { _p: () }) }
    pub fn prepare(&self, sql: &str) -> Result<Statement<'_>> {
        let mut st = std::ptr::null_mut(); let mut tail = std::ptr::null();
        let rc = unsafe { sqlite3_prepare_v2(shim_db(), sql.as_ptr() as *const c_char, sql.len() as c_int, &mut st, &mut tail) };
        if rc != 0 { return Err(fail()); }
        Ok(Statement { st, _c: self })
    }
    pub fn execute<P: Params>(&self, sql: &str, p: P) -> Result<usize> { self.prepare(sql)?.execute(p) }
    pub fn last_insert_rowid(&self) -> i64 { unsafe { sqlite3_last_insert_rowid(shim_db()) } }
}
pub struct Statement<'c> { st: *mut sqlite3_stmt, _c: &'c Connection }
impl Drop for Statement<'_> { fn drop(&mut self) { unsafe { sqlite3_finalize(self.st) }; } }
impl<'c> Statement<'c> {
    pub fn execute<P: Params>(&mut self, p: P) -> Result<usize> {
        p.shim_bind(self)?;
        let rc = unsafe { sqlite3_step(self.st) };
        let e = if rc == 101 || rc == 100 { None } else { Some(fail()) };
        let n = unsafe { sqlite3_changes(shim_db()) } as usize;
        unsafe { sqlite3_reset(self.st) };
        match rc { 101 => if unsafe { sqlite3_column_count(self.st) } == 0 { Ok(n) } else { Err(Error::ExecuteReturnedResults) }, 100 => Err(Error::ExecuteReturnedResults), _ => Err(e.unwrap()) }
    }
    pub fn insert<P: Params>(&mut self, p: P) -> Result<i64> { match self.execute(p)? { 1 => Ok(self._c.last_insert_rowid()), n => Err(Error::StatementChangedRows(n)) } }
    pub fn query<P: Params>(&mut self, p: P) -> Result<Rows<'_>> { p.shim_bind(self)?; let st = self.st; Ok(Rows { row: Row { st, _l: std::marker::PhantomData }, done: false }) }
}
pub struct Rows<'s> { row: Row<'s>, done: bool }
pub struct Row<'s> { st: *mut sqlite3_stmt, _l: std::marker::PhantomData<&'s ()> }
impl Drop for Rows<'_> { fn drop(&mut self) { unsafe { sqlite3_reset(self.row.st) }; } }
impl<'s> Rows<'s> {
    pub fn next(&mut self) -> Result<Option<&Row<'s>>> {
        if self.done { return Ok(None); }
        match unsafe { sqlite3_step(self.row.st) } { 100 => Ok(Some(&self.row)), 101 => { self.done = true; Ok(None) }, _ => { self.done = true; Err(fail()) } }
    }
}
pub trait FromSql: Sized { fn shim_get(v: Value<'_>) -> std::result::Result<Self, Type>; }
fn ty(v: &Value<'_>) -> Type { match v { Value::Null => Type::Null, Value::Int(_) => Type::Integer, Value::Real(_) => Type::Real, Value::Text(_) => Type::Text, Value::Blob(_) => Type::Blob } }
impl FromSql for i64 { fn shim_get(v: Value<'_>) -> std::result::Result<i64, Type> { match v { Value::Int(x) => Ok(x), v => Err(ty(&v)) } } }
impl FromSql for f64 { fn shim_get(v: Value<'_>) -> std::result::Result<f64, Type> { match v { Value::Real(x) => Ok(x), Value::Int(x) => Ok(x as f64), v => Err(ty(&v)) } } }
impl FromSql for String { fn shim_get(v: Value<'_>) -> std::result::Result<String, Type> { match v { Value::Text(x) => Ok(x.to_string()), v => Err(ty(&v)) } } }
impl FromSql for Vec<u8> { fn shim_get(v: Value<'_>) -> std::result::Result<Vec<u8>, Type> { match v { Value::Blob(x) => Ok(x.to_vec()), v => Err(ty(&v)) } } }
impl<T: FromSql> FromSql for Option<T> { fn shim_get(v: Value<'_>) -> std::result::Result<Option<T>, Type> { match v { Value::Null => Ok(None), v => T::shim_get(v).map(Some) } } }
pub trait RowIndex { fn idx(&self) -> usize; }
impl RowIndex for usize { fn idx(&self) -> usize { *self } }
impl<'s> Row<'s> {
    pub fn get<I: RowIndex, T: FromSql>(&self, i: I) -> Result<T> {
        let i = i.idx(); let k = i as c_int;
        unsafe {
            if i >= sqlite3_column_count(self.st) as usize { return Err(Error::InvalidColumnIndex(i)); }
            let v = match sqlite3_column_type(self.st, k) {
                1 => Value::Int(sqlite3_column_int64(self.st, k)),
                2 => Value::Real(sqlite3_column_double(self.st, k)),
                3 => { let p = sqlite3_column_text(self.st, k); let n = sqlite3_column_bytes(self.st, k) as usize; Value::Text(std::str::from_utf8(std::slice::from_raw_parts(p, n)).map_err(Error::Utf8Error)?) }
                4 => { let p = sqlite3_column_blob(self.st, k); let n = sqlite3_column_bytes(self.st, k) as usize; Value::Blob(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) }) }
                _ => Value::Null,
            };
            T::shim_get(v).map_err(|t| Error::InvalidColumnType(i, String::new(), t))
        }
    }
}
