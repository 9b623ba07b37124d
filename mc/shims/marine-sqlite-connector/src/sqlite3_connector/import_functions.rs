//! Native replacement of the wasm import table. See ../../README.
#![allow(non_snake_case)]

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_double, c_int, c_uchar, c_uint, c_void};

pub type Sqlite3DbHandle = usize;
pub type Sqlite3StmtHandle = usize;

mod raw {
    use super::*;
    #[link(name = "sqlite3")]
    extern "C" {
        pub fn sqlite3_open_v2(f: *const c_char, db: *mut *mut c_void, flags: c_int, vfs: *const c_char) -> c_int;
        pub fn sqlite3_close_v2(db: *mut c_void) -> c_int;
        pub fn sqlite3_prepare_v2(db: *mut c_void, sql: *const c_char, n: c_int, st: *mut *mut c_void, tail: *mut *const c_char) -> c_int;
        pub fn sqlite3_exec(db: *mut c_void, sql: *const c_char, cb: *const c_void, arg: *mut c_void, err: *mut *mut c_char) -> c_int;
        pub fn sqlite3_libversion_number() -> c_int;
        pub fn sqlite3_changes(db: *mut c_void) -> c_int;
        pub fn sqlite3_total_changes(db: *mut c_void) -> c_int;
        pub fn sqlite3_busy_timeout(db: *mut c_void, ms: c_int) -> c_int;
        pub fn sqlite3_errmsg(db: *mut c_void) -> *const c_char;
        pub fn sqlite3_errcode(db: *mut c_void) -> c_int;
        pub fn sqlite3_column_type(st: *mut c_void, i: c_int) -> c_int;
        pub fn sqlite3_column_name(st: *mut c_void, i: c_int) -> *const c_char;
        pub fn sqlite3_step(st: *mut c_void) -> c_int;
        pub fn sqlite3_reset(st: *mut c_void) -> c_int;
        pub fn sqlite3_finalize(st: *mut c_void) -> c_int;
        pub fn sqlite3_bind_blob(st: *mut c_void, i: c_int, p: *const c_void, n: c_int, d: isize) -> c_int;
        pub fn sqlite3_bind_text(st: *mut c_void, i: c_int, p: *const c_char, n: c_int, d: isize) -> c_int;
        pub fn sqlite3_bind_double(st: *mut c_void, i: c_int, v: c_double) -> c_int;
        pub fn sqlite3_bind_int64(st: *mut c_void, i: c_int, v: i64) -> c_int;
        pub fn sqlite3_bind_null(st: *mut c_void, i: c_int) -> c_int;
        pub fn sqlite3_column_count(st: *mut c_void) -> c_int;
        pub fn sqlite3_column_blob(st: *mut c_void, i: c_int) -> *const c_void;
        pub fn sqlite3_column_bytes(st: *mut c_void, i: c_int) -> c_int;
        pub fn sqlite3_column_double(st: *mut c_void, i: c_int) -> c_double;
        pub fn sqlite3_column_int64(st: *mut c_void, i: c_int) -> i64;
        pub fn sqlite3_column_text(st: *mut c_void, i: c_int) -> *const c_uchar;
        pub fn sqlite3_serialize(db: *mut c_void, schema: *const c_char, sz: *mut i64, flags: c_uint) -> *mut c_uchar;
        pub fn sqlite3_deserialize(db: *mut c_void, schema: *const c_char, p: *mut c_uchar, n: i64, cap: i64, flags: c_uint) -> c_int;
        pub fn sqlite3_malloc64(n: u64) -> *mut c_void;
        pub fn sqlite3_free(p: *mut c_void);
        pub fn sqlite3_get_autocommit(db: *mut c_void) -> c_int;
        pub fn sqlite3_soft_heap_limit64(n: i64) -> i64;
        pub fn sqlite3_hard_heap_limit64(n: i64) -> i64;
        pub fn sqlite3_config(op: c_int, ...) -> c_int;
    }
}

const IN_MEMORY: c_int = 0x2 | 0x4 | 0x80 | 0x8000; // READWRITE|CREATE|MEMORY|NOMUTEX

pub struct DBOpenDescriptor {
    pub ret_code: i32,
    pub db_handle: usize,
}
pub struct DBPrepareDescriptor {
    pub ret_code: i32,
    pub stmt_handle: usize,
    pub tail: u32,
}
pub struct DBExecDescriptor {
    pub ret_code: i32,
    pub err_msg: String,
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// 0-based index of the first database call that fails
    pub at: u64,
    /// number of consecutive calls that fail
    pub len: u64,
    /// SQLite result code reported
    pub code: i32,
}

#[derive(Default)]
struct Ctx {
    dbs: BTreeMap<String, usize>,
    private: Vec<usize>,
    calls: u64,
    fault: Option<Fault>,
    injected: Option<i32>,
    fired: u64,
    record: bool,
    crash_images: Vec<Images>,
    stmt_db: BTreeMap<usize, usize>,
    committed: BTreeMap<String, Vec<u8>>,
}

pub type Images = BTreeMap<String, Vec<u8>>;

impl Drop for Ctx {
    fn drop(&mut self) {
        for (_, h) in std::mem::take(&mut self.dbs) {
            unsafe { raw::sqlite3_close_v2(h as *mut c_void) };
        }
        for h in std::mem::take(&mut self.private) {
            unsafe { raw::sqlite3_close_v2(h as *mut c_void) };
        }
    }
}

thread_local!(static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()));

fn is_persistent(path: &str) -> bool {
    !(path.is_empty() || path.contains(":memory:") || path.contains("mode=memory"))
}

unsafe fn serialize(db: usize) -> Vec<u8> {
    let mut sz: i64 = 0;
    let main = b"main\0";
    let p = raw::sqlite3_serialize(db as *mut c_void, main.as_ptr() as _, &mut sz, 0);
    if p.is_null() {
        return vec![];
    }
    let v = std::slice::from_raw_parts(p, sz as usize).to_vec();
    raw::sqlite3_free(p as *mut c_void);
    v
}

unsafe fn deserialize(db: usize, image: &[u8]) {
    if image.is_empty() {
        return;
    }
    let p = raw::sqlite3_malloc64(image.len() as u64) as *mut c_uchar;
    std::ptr::copy_nonoverlapping(image.as_ptr(), p, image.len());
    let main = b"main\0";
    // FREEONCLOSE | RESIZEABLE
    let rc = raw::sqlite3_deserialize(db as *mut c_void, main.as_ptr() as _, p, image.len() as i64, image.len() as i64, 3);
    assert_eq!(rc, 0, "sqlite3_deserialize failed");
}

unsafe fn open_memory() -> usize {
    // no global memory statistics, no connection mutexes: runs live on separate threads
    static INIT: std::sync::Once = std::sync::Once::new();
    INIT.call_once(|| {
        raw::sqlite3_config(9, 0 as c_int);
        raw::sqlite3_config(2);
    });
    let mut db: *mut c_void = std::ptr::null_mut();
    let name = CString::new(":memory:").unwrap();
    let rc = raw::sqlite3_open_v2(name.as_ptr(), &mut db, IN_MEMORY, std::ptr::null());
    assert_eq!(rc, 0, "cannot open in-memory sqlite");
    db as usize
}

impl Ctx {
    fn open(&mut self, path: &str) -> usize {
        if !is_persistent(path) {
            let h = unsafe { open_memory() };
            self.private.push(h);
            return h;
        }
        if let Some(h) = self.dbs.get(path) {
            return *h;
        }
        let h = unsafe { open_memory() };
        self.dbs.insert(path.to_string(), h);
        h
    }
    fn tick(&mut self) -> bool {
        let n = self.calls;
        self.calls += 1;
        self.injected = None;
        if let Some(f) = self.fault {
            if n >= f.at && n < f.at.saturating_add(f.len) {
                self.injected = Some(f.code);
                self.fired += 1;
                return true;
            }
        }
        false
    }
    fn refresh_committed(&mut self) {
        for (p, h) in &self.dbs {
            unsafe {
                if raw::sqlite3_get_autocommit(*h as *mut c_void) != 0 {
                    self.committed.insert(p.clone(), serialize(*h));
                }
            }
        }
    }
    fn after_write(&mut self) {
        if self.record {
            self.refresh_committed();
            let im = self.committed.clone();
            if self.crash_images.last() != Some(&im) {
                self.crash_images.push(im);
            }
        }
    }
}

fn ctx<T>(f: impl FnOnce(&mut Ctx) -> T) -> Option<T> {
    CTX.try_with(|c| f(&mut c.borrow_mut())).ok()
}

/// Harness controls.
pub mod control {
    use super::*;

    /// Start an incarnation on this thread from persisted images.
    pub fn load(images: &Images) {
        ctx(|c| {
            for (p, im) in images {
                let h = c.open(p);
                unsafe { deserialize(h, im) };
            }
        });
    }
    /// What would survive a crash right now (committed data only).
    pub fn committed() -> Images {
        ctx(|c| {
            c.refresh_committed();
            c.committed.clone()
        })
        .unwrap()
    }
    pub fn calls() -> u64 {
        ctx(|c| c.calls).unwrap()
    }
    pub fn set_fault(f: Option<Fault>) {
        ctx(|c| {
            c.fault = f.map(|f| Fault { at: c.calls + f.at, ..f });
            c.fired = 0;
        });
    }
    pub fn fired() -> u64 {
        ctx(|c| c.fired).unwrap()
    }
    /// Record an image after every database write call from now on.
    pub fn record_crash_points(on: bool) {
        ctx(|c| {
            c.record = on;
            c.crash_images.clear();
            if on {
                c.refresh_committed();
                let im = c.committed.clone();
                c.crash_images.push(im);
            }
        });
    }
    pub fn take_crash_points() -> Vec<Images> {
        ctx(|c| std::mem::take(&mut c.crash_images)).unwrap()
    }
    /// Canonical text dump of every persistent database (tables and rows sorted).
    pub fn dump() -> Vec<String> {
        let handles: Vec<(String, usize)> =
            ctx(|c| c.dbs.iter().map(|(p, h)| (p.clone(), *h)).collect()).unwrap();
        let mut out = vec![];
        for (p, h) in handles {
            let tables = rows(h, "SELECT name FROM sqlite_master WHERE type='table' ORDER BY name");
            for t in tables {
                let name = t.trim_start_matches('T').to_string();
                let mut rs = rows(h, &format!("SELECT * FROM \"{}\"", name));
                rs.sort();
                for r in rs {
                    out.push(format!("{p}|{name}|{r}"));
                }
            }
        }
        out
    }
    /// One value of a pragma on the first persistent database.
    pub fn pragma(name: &str) -> Option<String> {
        let h = ctx(|c| c.dbs.values().next().copied()).flatten()?;
        rows(h, &format!("PRAGMA {name}")).into_iter().next()
    }
    fn rows(h: usize, sql: &str) -> Vec<String> {
        let mut out = vec![];
        unsafe {
            let sql = CString::new(sql).unwrap();
            let mut st: *mut c_void = std::ptr::null_mut();
            let rc = raw::sqlite3_prepare_v2(h as *mut c_void, sql.as_ptr(), -1, &mut st, std::ptr::null_mut());
            if rc != 0 {
                return vec![format!("ERR{rc}")];
            }
            while raw::sqlite3_step(st) == 100 {
                let n = raw::sqlite3_column_count(st);
                let mut r = String::new();
                for i in 0..n {
                    if i > 0 {
                        r.push(',');
                    }
                    match raw::sqlite3_column_type(st, i) {
                        1 => r.push_str(&format!("I{}", raw::sqlite3_column_int64(st, i))),
                        2 => r.push_str(&format!("F{}", raw::sqlite3_column_double(st, i))),
                        3 => r.push_str(&format!("T{}", text(st, i))),
                        4 => {
                            r.push('B');
                            for b in blob(st, i) {
                                r.push_str(&format!("{b:02x}"));
                            }
                        }
                        _ => r.push('N'),
                    }
                }
                out.push(r);
            }
            raw::sqlite3_finalize(st);
        }
        out
    }
}

unsafe fn text(st: *mut c_void, i: c_int) -> String {
    let p = raw::sqlite3_column_text(st, i);
    if p.is_null() {
        return String::new();
    }
    let n = raw::sqlite3_column_bytes(st, i) as usize;
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}

unsafe fn blob(st: *mut c_void, i: c_int) -> Vec<u8> {
    let p = raw::sqlite3_column_blob(st, i) as *const u8;
    let n = raw::sqlite3_column_bytes(st, i) as usize;
    if p.is_null() || n == 0 {
        return vec![];
    }
    std::slice::from_raw_parts(p, n).to_vec()
}

fn tick() -> Option<i32> {
    ctx(|c| if c.tick() { c.injected } else { None }).flatten()
}

pub fn sqlite3_open_v2(filename: &str, _flags: i32, _vfs: &str) -> DBOpenDescriptor {
    // opening never fails: without its database file the service cannot run at all
    let h = ctx(|c| c.open(filename)).expect("database opened during thread teardown");
    DBOpenDescriptor { ret_code: 0, db_handle: h }
}

/// Handles belong to the incarnation; they are released when its thread ends.
pub fn sqlite3_close(_db: usize) -> i32 {
    0
}

pub fn sqlite3_prepare_v2(db: usize, sql: &str) -> DBPrepareDescriptor {
    if let Some(code) = tick() {
        return DBPrepareDescriptor { ret_code: code, stmt_handle: 0, tail: 0 };
    }
    let c = CString::new(sql).unwrap_or_default();
    let mut st: *mut c_void = std::ptr::null_mut();
    let rc = unsafe { raw::sqlite3_prepare_v2(db as *mut c_void, c.as_ptr(), -1, &mut st, std::ptr::null_mut()) };
    if rc == 0 {
        ctx(|c| c.stmt_db.insert(st as usize, db));
    }
    DBPrepareDescriptor { ret_code: rc, stmt_handle: st as usize, tail: 0 }
}

pub fn sqlite3_exec(db: usize, sql: &str, _cb: i32, _arg: i32) -> DBExecDescriptor {
    if let Some(code) = tick() {
        return DBExecDescriptor { ret_code: code, err_msg: "injected".into() };
    }
    let c = CString::new(sql).unwrap_or_default();
    let rc = unsafe {
        raw::sqlite3_exec(db as *mut c_void, c.as_ptr(), std::ptr::null(), std::ptr::null_mut(), std::ptr::null_mut())
    };
    ctx(|c| c.after_write());
    DBExecDescriptor { ret_code: rc, err_msg: String::new() }
}

pub fn sqlite3_libversion_number() -> i32 {
    unsafe { raw::sqlite3_libversion_number() }
}
pub fn sqlite3_changes(db: usize) -> i32 {
    unsafe { raw::sqlite3_changes(db as *mut c_void) }
}
pub fn sqlite3_total_changes(db: usize) -> i32 {
    unsafe { raw::sqlite3_total_changes(db as *mut c_void) }
}
pub fn sqlite3_busy_timeout(db: usize, ms: u32) -> i32 {
    unsafe { raw::sqlite3_busy_timeout(db as *mut c_void, ms as c_int) }
}
pub fn sqlite3_errmsg(db: usize) -> String {
    if let Some(Some(code)) = ctx(|c| c.injected) {
        return format!("injected fault {code}");
    }
    unsafe {
        let p = raw::sqlite3_errmsg(db as *mut c_void);
        if p.is_null() {
            String::new()
        } else {
            CStr::from_ptr(p).to_string_lossy().into_owned()
        }
    }
}
pub fn sqlite3_errcode(db: usize) -> i32 {
    if let Some(Some(code)) = ctx(|c| c.injected) {
        return code;
    }
    unsafe { raw::sqlite3_errcode(db as *mut c_void) }
}
pub fn sqlite3_column_type(st: usize, i: u32) -> i32 {
    unsafe { raw::sqlite3_column_type(st as *mut c_void, i as c_int) }
}
pub fn sqlite3_column_name(st: usize, i: u32) -> String {
    unsafe {
        let p = raw::sqlite3_column_name(st as *mut c_void, i as c_int);
        if p.is_null() {
            String::new()
        } else {
            CStr::from_ptr(p).to_string_lossy().into_owned()
        }
    }
}
pub fn sqlite3_step(st: usize) -> i32 {
    if let Some(code) = tick() {
        return code;
    }
    let rc = unsafe { raw::sqlite3_step(st as *mut c_void) };
    if rc != 100 {
        ctx(|c| c.after_write());
    }
    rc
}
pub fn sqlite3_reset(st: usize) -> i32 {
    unsafe { raw::sqlite3_reset(st as *mut c_void) }
}
pub fn sqlite3_bind_blob(st: usize, pos: i32, v: &Vec<u8>, _d: i32) -> i32 {
    if let Some(code) = tick() {
        return code;
    }
    unsafe { raw::sqlite3_bind_blob(st as *mut c_void, pos, v.as_ptr() as _, v.len() as c_int, -1) }
}
pub fn sqlite3_bind_double(st: usize, pos: i32, v: f64) -> i32 {
    unsafe { raw::sqlite3_bind_double(st as *mut c_void, pos, v) }
}
pub fn sqlite3_bind_int64(st: usize, pos: i32, v: i64) -> i32 {
    if let Some(code) = tick() {
        return code;
    }
    unsafe { raw::sqlite3_bind_int64(st as *mut c_void, pos, v) }
}
pub fn sqlite3_bind_null(st: usize, pos: i32) -> i32 {
    unsafe { raw::sqlite3_bind_null(st as *mut c_void, pos) }
}
pub fn sqlite3_bind_text(st: usize, pos: i32, v: &str, _d: i32) -> i32 {
    if let Some(code) = tick() {
        return code;
    }
    unsafe { raw::sqlite3_bind_text(st as *mut c_void, pos, v.as_ptr() as _, v.len() as c_int, -1) }
}
pub fn sqlite3_column_count(st: usize) -> i32 {
    unsafe { raw::sqlite3_column_count(st as *mut c_void) }
}
pub fn sqlite3_column_blob(st: usize, i: i32) -> Vec<u8> {
    unsafe { blob(st as *mut c_void, i) }
}
pub fn sqlite3_column_double(st: usize, i: i32) -> f64 {
    unsafe { raw::sqlite3_column_double(st as *mut c_void, i) }
}
pub fn sqlite3_column_int64(st: usize, i: u32) -> i64 {
    unsafe { raw::sqlite3_column_int64(st as *mut c_void, i as c_int) }
}
pub fn sqlite3_column_text(st: usize, i: u32) -> String {
    unsafe { text(st as *mut c_void, i as c_int) }
}
pub fn sqlite3_column_bytes(st: usize, i: u32) -> i32 {
    unsafe { raw::sqlite3_column_bytes(st as *mut c_void, i as c_int) }
}
pub fn sqlite3_finalize(st: usize) -> i32 {
    ctx(|c| c.stmt_db.remove(&st));
    unsafe { raw::sqlite3_finalize(st as *mut c_void) }
}
pub fn sqlite3_soft_heap_limit64(n: i64) -> i64 {
    unsafe { raw::sqlite3_soft_heap_limit64(n) }
}
pub fn sqlite3_hard_heap_limit64(n: i64) -> i64 {
    unsafe { raw::sqlite3_hard_heap_limit64(n) }
}
