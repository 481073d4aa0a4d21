// Stand-in for marine-sqlite-connector off wasm: the same API over the system's SQLite library.
// Every path names one in-memory database per thread, so nothing is written to disk.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::rc::Rc;
use std::{error, fmt};
#[link(name = "sqlite3")]
extern "C" {
    fn sqlite3_open(p: *const c_char, db: *mut *mut c_void) -> c_int;
    fn sqlite3_close(db: *mut c_void) -> c_int;
    fn sqlite3_exec(db: *mut c_void, sql: *const c_char, cb: *const c_void, a: *const c_void, e: *mut *mut c_char) -> c_int;
    fn sqlite3_prepare_v2(db: *mut c_void, sql: *const c_char, n: c_int, s: *mut *mut c_void, tail: *mut *const c_char) -> c_int;
    fn sqlite3_finalize(s: *mut c_void) -> c_int;
    fn sqlite3_reset(s: *mut c_void) -> c_int;
    fn sqlite3_step(s: *mut c_void) -> c_int;
    fn sqlite3_bind_int64(s: *mut c_void, i: c_int, v: i64) -> c_int;
    fn sqlite3_bind_double(s: *mut c_void, i: c_int, v: f64) -> c_int;
    fn sqlite3_bind_null(s: *mut c_void, i: c_int) -> c_int;
    fn sqlite3_bind_text(s: *mut c_void, i: c_int, p: *const c_char, n: c_int, d: isize) -> c_int;
    fn sqlite3_bind_blob(s: *mut c_void, i: c_int, p: *const c_void, n: c_int, d: isize) -> c_int;
    fn sqlite3_column_count(s: *mut c_void) -> c_int;
    fn sqlite3_column_type(s: *mut c_void, i: c_int) -> c_int;
    fn sqlite3_column_int64(s: *mut c_void, i: c_int) -> i64;
    fn sqlite3_column_double(s: *mut c_void, i: c_int) -> f64;
    fn sqlite3_column_text(s: *mut c_void, i: c_int) -> *const u8;
    fn sqlite3_column_blob(s: *mut c_void, i: c_int) -> *const u8;
    fn sqlite3_column_bytes(s: *mut c_void, i: c_int) -> c_int;
    fn sqlite3_errmsg(db: *mut c_void) -> *const c_char;
    fn sqlite3_errcode(db: *mut c_void) -> c_int;
    fn sqlite3_changes(db: *mut c_void) -> c_int;
    fn sqlite3_total_changes(db: *mut c_void) -> c_int;
}
const TRANSIENT: isize = -1;
struct Db(*mut c_void);
impl Drop for Db { fn drop(&mut self) { unsafe { sqlite3_close(self.0); } } }
thread_local! {
    static DBS: RefCell<HashMap<String, Rc<Db>>> = Default::default();
    static CALLS: Cell<u64> = Cell::new(0);
    static FAIL_AT: Cell<u64> = Cell::new(u64::MAX);
    static FAILED: Cell<bool> = Cell::new(false);
}
/// make the n-th database call from now fail
pub fn vx_fail_at(n: u64) { CALLS.with(|c| c.set(0)); FAIL_AT.with(|c| c.set(n)); FAILED.with(|c| c.set(false)) }
pub fn vx_failed() -> bool { FAILED.with(|c| c.get()) }
fn tick() -> Result<()> {
    let n = CALLS.with(|c| { let n = c.get(); c.set(n + 1); n });
    if FAIL_AT.with(|f| f.get()) == n { FAILED.with(|c| c.set(true)); return Err(Error { code: Some(10), message: Some("disk I/O error".into()) }) }
    Ok(())
}
/// every row of every table, sorted: to see whether anything changed
pub fn vx_dump(path: &str) -> Vec<String> {
    let c = open(path).unwrap();
    let mut out = vec![];
    for t in vx_rows(&c, "SELECT name FROM sqlite_master WHERE type = 'table'") {
        let n = t[0].as_string().unwrap_or("").to_string();
        for r in vx_rows(&c, &format!("SELECT * FROM \"{n}\"")) { out.push(format!("{n} {r:?}")) }
    }
    out.sort(); out
}
pub fn vx_rows(c: &Connection, q: &str) -> Vec<Vec<Value>> {
    let f = FAIL_AT.with(|f| f.replace(u64::MAX));
    let mut v = vec![]; let mut cur = c.prepare(q).unwrap().cursor();
    while let Some(r) = cur.next().unwrap() { v.push(r.to_vec()) }
    FAIL_AT.with(|x| x.set(f));
    v
}
/// an empty (or equal) database with the same tables under another name
pub fn vx_clone(from: &str, to: &str, rows: bool) {
    let f = FAIL_AT.with(|f| f.replace(u64::MAX));
    DBS.with(|d| { d.borrow_mut().remove(to); });
    let (a, b) = (open(from).unwrap(), open(to).unwrap());
    for r in vx_rows(&a, "SELECT sql, name FROM sqlite_master WHERE sql IS NOT NULL") {
        b.execute(r[0].as_string().unwrap()).unwrap();
        if rows { let n = r[1].as_string().unwrap().to_string(); for v in vx_rows(&a, &format!("SELECT * FROM \"{n}\"")) {
            let mut s = b.prepare(format!("INSERT INTO \"{n}\" VALUES ({})", vec!["?"; v.len()].join(","))).unwrap();
            for (i, x) in v.iter().enumerate() { s.bind(i + 1, x).unwrap() }
            s.next().unwrap();
        } }
    }
    FAIL_AT.with(|x| x.set(f));
}

#[derive(Debug)]
pub struct Error { pub code: Option<isize>, pub message: Option<String> }
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Type { Binary, Float, Integer, String, Null }
#[derive(Clone, Debug, PartialEq)]
pub enum Value { Binary(Vec<u8>), Float(f64), Integer(i64), String(String), Null }
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match (self.code, &self.message) {
            (Some(code), Some(message)) => write!(f, "{} (code {})", message, code),
            (Some(code), _) => write!(f, "an SQLite error (code {})", code),
            (_, Some(message)) => message.fmt(f),
            _ => write!(f, "an SQLite error"),
        }
    }
}
impl error::Error for Error {}
impl Value {
    pub fn as_binary(&self) -> Option<&[u8]> { if let Value::Binary(v) = self { Some(v) } else { None } }
    pub fn as_float(&self) -> Option<f64> { if let Value::Float(v) = self { Some(*v) } else { None } }
    pub fn as_integer(&self) -> Option<i64> { if let Value::Integer(v) = self { Some(*v) } else { None } }
    pub fn as_string(&self) -> Option<&str> { if let Value::String(v) = self { Some(v) } else { None } }
    pub fn kind(&self) -> Type { match self { Value::Binary(_) => Type::Binary, Value::Float(_) => Type::Float, Value::Integer(_) => Type::Integer, Value::String(_) => Type::String, Value::Null => Type::Null } }
}
fn err(db: *mut c_void) -> Error { unsafe { Error { code: Some(sqlite3_errcode(db) as isize), message: Some(CStr::from_ptr(sqlite3_errmsg(db)).to_string_lossy().into_owned()) } } }
pub fn open<T: AsRef<std::path::Path>>(path: T) -> Result<Connection> { Connection::open(path) }
pub struct Connection(Rc<Db>);
impl Connection {
    pub fn open<T: AsRef<std::path::Path>>(path: T) -> Result<Connection> {
        let p = path.as_ref().to_string_lossy().into_owned();
        if let Some(d) = DBS.with(|d| d.borrow().get(&p).cloned()) { return Ok(Connection(d)) }
        let mut db = std::ptr::null_mut(); let m = CString::new(":memory:").unwrap();
        unsafe { if sqlite3_open(m.as_ptr(), &mut db) != 0 { return Err(err(db)) } }
        let d = Rc::new(Db(db));
        DBS.with(|x| x.borrow_mut().insert(p, d.clone()));
        Ok(Connection(d))
    }
    pub fn execute<T: AsRef<str>>(&self, statement: T) -> Result<()> {
        tick()?;
        let q = CString::new(statement.as_ref()).unwrap();
        unsafe { if sqlite3_exec(self.0 .0, q.as_ptr(), std::ptr::null(), std::ptr::null(), std::ptr::null_mut()) != 0 { return Err(err(self.0 .0)) } }
        Ok(())
    }
    pub fn prepare<T: AsRef<str>>(&self, statement: T) -> Result<Statement> {
        tick()?;
        let q = CString::new(statement.as_ref()).unwrap(); let mut s = std::ptr::null_mut();
        unsafe { if sqlite3_prepare_v2(self.0 .0, q.as_ptr(), -1, &mut s, std::ptr::null_mut()) != 0 { return Err(err(self.0 .0)) } }
        Ok(Statement { s, db: self.0.clone() })
    }
    pub fn changes(&self) -> usize { unsafe { sqlite3_changes(self.0 .0) as usize } }
    pub fn total_changes(&self) -> usize { unsafe { sqlite3_total_changes(self.0 .0) as usize } }
}
pub struct Statement { s: *mut c_void, db: Rc<Db> }
impl Drop for Statement { fn drop(&mut self) { unsafe { sqlite3_finalize(self.s); } } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum State { Row, Done }
pub trait Bindable { fn bind(self, _: &mut Statement, _: usize) -> Result<()>; }
pub trait Readable: Sized { fn read(_: &Statement, _: usize) -> Result<Self>; }
impl Statement {
    pub fn bind<T: Bindable>(&mut self, i: usize, v: T) -> Result<()> { tick()?; v.bind(self, i) }
    pub fn count(&self) -> usize { unsafe { sqlite3_column_count(self.s) as usize } }
    pub fn kind(&self, i: usize) -> Type { match unsafe { sqlite3_column_type(self.s, i as c_int) } { 1 => Type::Integer, 2 => Type::Float, 3 => Type::String, 4 => Type::Binary, _ => Type::Null } }
    pub fn next(&mut self) -> Result<State> { tick()?; match unsafe { sqlite3_step(self.s) } { 100 => Ok(State::Row), 101 => Ok(State::Done), _ => Err(err(self.db.0)) } }
    pub fn read<T: Readable>(&self, i: usize) -> Result<T> { Readable::read(self, i) }
    pub fn reset(&mut self) -> Result<()> { unsafe { if sqlite3_reset(self.s) != 0 { return Err(err(self.db.0)) } } Ok(()) }
    pub fn cursor(self) -> Cursor { Cursor { state: None, values: None, statement: self } }
    fn ok(&self, rc: c_int) -> Result<()> { if rc == 0 { Ok(()) } else { Err(err(self.db.0)) } }
}
impl Bindable for &Value { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { match self { Value::Binary(v) => v.bind(s, i), Value::Float(v) => (*v).bind(s, i), Value::Integer(v) => (*v).bind(s, i), Value::String(v) => v.as_str().bind(s, i), Value::Null => ().bind(s, i) } } }
impl Bindable for &Vec<u8> { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { let rc = unsafe { sqlite3_bind_blob(s.s, i as c_int, self.as_ptr() as _, self.len() as c_int, TRANSIENT) }; s.ok(rc) } }
impl Bindable for f64 { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { let rc = unsafe { sqlite3_bind_double(s.s, i as c_int, self) }; s.ok(rc) } }
impl Bindable for i64 { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { let rc = unsafe { sqlite3_bind_int64(s.s, i as c_int, self) }; s.ok(rc) } }
impl<'l> Bindable for &'l str { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { let rc = unsafe { sqlite3_bind_text(s.s, i as c_int, self.as_ptr() as _, self.len() as c_int, TRANSIENT) }; s.ok(rc) } }
impl Bindable for () { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { let rc = unsafe { sqlite3_bind_null(s.s, i as c_int) }; s.ok(rc) } }
impl<T: Bindable> Bindable for Option<T> { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { match self { Some(x) => x.bind(s, i), None => ().bind(s, i) } } }
impl Readable for Value { fn read(s: &Statement, i: usize) -> Result<Self> { Ok(match s.kind(i) { Type::Binary => Value::Binary(s.read(i)?), Type::Float => Value::Float(s.read(i)?), Type::Integer => Value::Integer(s.read(i)?), Type::String => Value::String(s.read(i)?), Type::Null => Value::Null }) } }
impl Readable for f64 { fn read(s: &Statement, i: usize) -> Result<Self> { Ok(unsafe { sqlite3_column_double(s.s, i as c_int) }) } }
impl Readable for i64 { fn read(s: &Statement, i: usize) -> Result<Self> { Ok(unsafe { sqlite3_column_int64(s.s, i as c_int) }) } }
fn raw(p: *const u8, n: c_int) -> Vec<u8> { if p.is_null() { vec![] } else { unsafe { std::slice::from_raw_parts(p, n as usize).to_vec() } } }
impl Readable for String { fn read(s: &Statement, i: usize) -> Result<Self> { unsafe { let p = sqlite3_column_text(s.s, i as c_int); let n = sqlite3_column_bytes(s.s, i as c_int); Ok(String::from_utf8_lossy(&raw(p, n)).into_owned()) } } }
impl Readable for Vec<u8> { fn read(s: &Statement, i: usize) -> Result<Self> { unsafe { let p = sqlite3_column_blob(s.s, i as c_int); let n = sqlite3_column_bytes(s.s, i as c_int); Ok(raw(p, n)) } } }
impl<T: Readable> Readable for Option<T> { fn read(s: &Statement, i: usize) -> Result<Self> { if s.kind(i) == Type::Null { Ok(None) } else { T::read(s, i).map(Some) } } }
/// as in the connector: one row is read ahead
pub struct Cursor { state: Option<State>, values: Option<Vec<Value>>, statement: Statement }
impl Cursor {
    pub fn bind(&mut self, values: &[Value]) -> Result<()> {
        self.state = None;
        self.statement.reset()?;
        for (i, v) in values.iter().enumerate() { self.statement.bind(i + 1, v)? }
        Ok(())
    }
    pub fn count(&self) -> usize { self.statement.count() }
    pub fn next(&mut self) -> Result<Option<&[Value]>> {
        match self.state {
            Some(State::Row) => {}
            Some(State::Done) => return Ok(None),
            _ => { self.state = Some(self.statement.next()?); return self.next() }
        }
        let n = self.statement.count(); let mut v = Vec::with_capacity(n);
        for i in 0..n { v.push(self.statement.read(i)?) }
        self.values = Some(v);
        self.state = Some(self.statement.next()?);
        Ok(Some(self.values.as_ref().unwrap()))
    }
}
