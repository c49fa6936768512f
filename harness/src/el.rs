//! Elements and the comparator they all go through.
use std::cmp::Ordering::{self, *};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst, Ordering::Relaxed};
use std::sync::Mutex;

pub struct Boom;
pub struct TooMany;

pub static CALLS: AtomicU64 = AtomicU64::new(0);
pub static PANIC_AT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static MODE: AtomicU8 = AtomicU8::new(0);
pub static CSEED: AtomicU64 = AtomicU64::new(0);
pub static LOGGING: AtomicU8 = AtomicU8::new(0);
/// (candidate, other, answer) of every equality test when LOGGING
pub static LOG: Mutex<Vec<(u32, u32, bool)>> = Mutex::new(Vec::new());
pub static KEYLOG: Mutex<Vec<u32>> = Mutex::new(Vec::new());
/// McIlroy's adversary
pub static ADV: Mutex<Option<Adv>> = Mutex::new(None);
pub struct Adv { pub val: Vec<u32>, pub solid: u32, pub cand: u32, pub cap: u32 }
const GAS: u32 = u32::MAX;
impl Adv {
    pub fn new(n: usize) -> Adv { Adv { val: vec![GAS; n], solid: 0, cand: 0, cap: GAS } }
    fn cmp(&mut self, x: u32, y: u32) -> Ordering {
        if x == y { return Equal; }
        let (xu, yu) = (x as usize, y as usize);
        if self.val[xu] == GAS && self.val[yu] == GAS && self.solid < self.cap {
            if x == self.cand { self.val[xu] = self.solid; } else { self.val[yu] = self.solid; }
            self.solid += 1;
        }
        if self.val[xu] == GAS { self.cand = x; } else if self.val[yu] == GAS { self.cand = y; }
        self.val[xu].cmp(&self.val[yu])
    }
}

pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 33; x = x.wrapping_mul(0xff51afd7ed558ccd); x ^= x >> 33; x = x.wrapping_mul(0xc4ceb9fe1a85ec53); x ^ (x >> 33)
}
fn tick() -> u64 {
    let c = CALLS.fetch_add(1, Relaxed);
    if c == PANIC_AT.load(Relaxed) { std::panic::panic_any(Boom); }
    if c > LIMIT.load(Relaxed) { std::panic::panic_any(TooMany); }
    c
}
fn hash3(a: u64, b: u64) -> u64 { mix(CSEED.load(Relaxed) ^ mix(a.wrapping_mul(0x9E3779B97F4A7C15) ^ mix(b ^ 0x1234567))) }

/// The user's comparator on (key, id) pairs.
pub fn cmp_hook(a: (i32, u32), b: (i32, u32)) -> Ordering {
    let c = tick();
    match MODE.load(Relaxed) {
        0 => a.0.cmp(&b.0),
        1 => b.0.cmp(&a.0),
        2 => match hash3(c, 77) % 3 { 0 => Less, 1 => Equal, _ => Greater },
        3 => Less,
        4 => Greater,
        5 => Equal,
        6 => match (a.0.wrapping_sub(b.0)).rem_euclid(3) { 0 => Equal, 1 => Less, _ => Greater },
        7 => match hash3(a.1 as u64, b.1 as u64) % 2 { 0 => Less, _ => Greater },
        8 => ADV.lock().unwrap().as_mut().unwrap().cmp(a.1, b.1),
        9 => { let o = a.0.cmp(&b.0); if c > CSEED.load(Relaxed) % 4096 { o.reverse() } else { o } }
        10 => if hash3(c, 99) % 16 == 0 { Less } else { a.0.cmp(&b.0) },
        _ => if hash3(c, 98) % 16 == 0 { Greater } else { a.0.cmp(&b.0) },
    }
}
/// The same-bucket test (candidate, kept) by (key, id).
pub fn eq_hook(a: (i32, u32), b: (i32, u32)) -> bool {
    let c = tick();
    let r = match MODE.load(Relaxed) {
        0 | 1 => a.0 == b.0,
        2 => hash3(c, 5) % 2 == 0,
        3 => true,
        4 => false,
        5 => (a.0 - b.0).abs() <= 1,
        6 => a.0 >= b.0,
        7 => hash3(a.1 as u64, b.1 as u64) % 2 == 0,
        _ => a.0 <= b.0,
    };
    if LOGGING.load(Relaxed) != 0 { LOG.lock().unwrap().push((a.1, b.1, r)); }
    r
}
pub fn key_hook(a: (i32, u32)) -> i32 {
    if LOGGING.load(Relaxed) != 0 { KEYLOG.lock().unwrap().push(a.1); }
    tick();
    a.0
}
/// 0: less or equal for is_sorted
pub fn rel_hook(a: (i32, u32), b: (i32, u32)) -> bool {
    tick();
    match MODE.load(Relaxed) {
        0 => a.0 <= b.0,
        1 => b.0 <= a.0,
        2 => a.0 < b.0,
        3 => true,
        4 => a.0 != b.0,
        _ => hash3(a.1 as u64, b.1 as u64) % 64 != 0,
    }
}

// drops per id
pub static DROPS: Mutex<Vec<AtomicU32>> = Mutex::new(Vec::new());
pub static WILD: AtomicU64 = AtomicU64::new(0);
static TABLE: std::sync::atomic::AtomicPtr<AtomicU32> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static TABLEN: AtomicU64 = AtomicU64::new(0);
pub fn drops_reset(n: usize) {
    let mut d = DROPS.lock().unwrap();
    if d.len() < n { d.resize_with(n.next_power_of_two().max(1 << 16), || AtomicU32::new(0)); }
    for x in d.iter().take(n) { x.store(0, SeqCst); }
    TABLE.store(d.as_mut_ptr(), SeqCst);
    TABLEN.store(n as u64, SeqCst);
    WILD.store(0, SeqCst);
}
pub fn dropped(id: u32) -> u32 { DROPS.lock().unwrap()[id as usize].load(SeqCst) }
fn count_drop(id: u32) {
    if (id as u64) < TABLEN.load(Relaxed) {
        unsafe { (*TABLE.load(Relaxed).add(id as usize)).fetch_add(1, Relaxed); }
    } else {
        WILD.fetch_add(1, Relaxed);
    }
}

pub trait El: Ord + Send + Sync + Sized {
    fn mk(key: i32, id: u32) -> Self;
    fn key(&self) -> i32;
    fn id(&self) -> u32;
    fn ki(&self) -> (i32, u32) { (self.key(), self.id()) }
}
macro_rules! ords {
    ($t:ty) => {
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { eq_hook(self.ki(), o.ki()) } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { cmp_hook(self.ki(), o.ki()) } }
    };
}
/// Counts its drops.
pub struct Tracked { key: i32, id: u32 }
impl El for Tracked {
    fn mk(key: i32, id: u32) -> Self { Tracked { key, id } }
    fn key(&self) -> i32 { self.key }
    fn id(&self) -> u32 { self.id }
}
impl Drop for Tracked { fn drop(&mut self) { count_drop(self.id) } }
ords!(Tracked);
/// Plain and small.
pub struct Plain { key: i16, id: u16 }
impl El for Plain {
    fn mk(key: i32, id: u32) -> Self { Plain { key: key as i16, id: id as u16 } }
    fn key(&self) -> i32 { self.key as i32 }
    fn id(&self) -> u32 { self.id as u32 }
}
ords!(Plain);
/// Large, counts its drops.
pub struct Big { pad: [u64; 6], key: i32, id: u32 }
impl El for Big {
    fn mk(key: i32, id: u32) -> Self { Big { pad: [id as u64 ^ 0xABCD; 6], key, id } }
    fn key(&self) -> i32 { self.key }
    fn id(&self) -> u32 { if self.pad.iter().all(|p| *p == self.id as u64 ^ 0xABCD) { self.id } else { u32::MAX - 7 } }
}
impl Drop for Big { fn drop(&mut self) { count_drop(self.id) } }
ords!(Big);
/// Zero-sized, counts its drops.
pub struct Zst;
pub static ZDROPS: AtomicU64 = AtomicU64::new(0);
impl Drop for Zst { fn drop(&mut self) { ZDROPS.fetch_add(1, SeqCst); } }
impl El for Zst {
    fn mk(_: i32, _: u32) -> Self { Zst }
    fn key(&self) -> i32 { 0 }
    fn id(&self) -> u32 { 0 }
}
ords!(Zst);

/// What key functions return.
pub struct Key(pub i32, pub u32);
impl Key { fn ki(&self) -> (i32, u32) { (self.0, self.1) } }
ords!(Key);
