//! One case: build the array, run the operation on the real code, judge the outcome.
use crate::alloc;
use crate::el::*;
use ndarray::{s, Array1, Array2, ArrayView1, ArrayViewMut1};
use ndarray_slice::Slice1Ext;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

macro_rules! ops {
    ($($v:ident = $n:literal),*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        pub enum Op { $($v),* }
        impl Op {
            pub fn name(self) -> &'static str { match self { $(Op::$v => $n),* } }
            pub fn parse(s: &str) -> Op { match s { $($n => Op::$v,)* _ => panic!("op") } }
        }
    };
}
ops! {
    SortUnstable = "sort_unstable", SortUnstableBy = "sort_unstable_by", SortUnstableByKey = "sort_unstable_by_key",
    Sort = "sort", SortBy = "sort_by", SortByKey = "sort_by_key", SortByCachedKey = "sort_by_cached_key",
    Nth = "select_nth_unstable", NthBy = "select_nth_unstable_by", NthByKey = "select_nth_unstable_by_key",
    Many = "select_many_nth_unstable", ManyBy = "select_many_nth_unstable_by", ManyByKey = "select_many_nth_unstable_by_key",
    Dedup = "partition_dedup", DedupBy = "partition_dedup_by", DedupByKey = "partition_dedup_by_key",
    Search = "binary_search", SearchBy = "binary_search_by", SearchByKey = "binary_search_by_key", Point = "partition_point",
    Reverse = "reverse", IsSorted = "is_sorted", IsSortedBy = "is_sorted_by", IsSortedByKey = "is_sorted_by_key", Contains = "contains",
    ParSort = "par_sort", ParSortBy = "par_sort_by", ParSortByKey = "par_sort_by_key", ParSortByCachedKey = "par_sort_by_cached_key",
    ParSortUnstable = "par_sort_unstable", ParSortUnstableBy = "par_sort_unstable_by", ParSortUnstableByKey = "par_sort_unstable_by_key",
    ParMany = "par_select_many_nth_unstable", ParManyBy = "par_select_many_nth_unstable_by", ParManyByKey = "par_select_many_nth_unstable_by_key"
}
use Op::*;
pub const UNSTABLE: &[Op] = &[SortUnstable, SortUnstableBy, SortUnstableByKey];
pub const STABLE: &[Op] = &[Sort, SortBy, SortByKey, SortByCachedKey];
pub const NTH: &[Op] = &[Nth, NthBy, NthByKey];
pub const MANY: &[Op] = &[Many, ManyBy, ManyByKey];
pub const DEDUP: &[Op] = &[Dedup, DedupBy, DedupByKey];
pub const SEARCH: &[Op] = &[Search, SearchBy, SearchByKey, Point];
pub const DEFS: &[Op] = &[Reverse, IsSorted, IsSortedBy, IsSortedByKey, Contains];
pub const PARSTABLE: &[Op] = &[ParSort, ParSortBy, ParSortByKey, ParSortByCachedKey];
pub const PARUNSTABLE: &[Op] = &[ParSortUnstable, ParSortUnstableBy, ParSortUnstableByKey];
pub const PARMANY: &[Op] = &[ParMany, ParManyBy, ParManyByKey];
impl Op {
    pub fn is_in(self, l: &[Op]) -> bool { l.contains(&self) }
    pub fn par(self) -> bool { self.is_in(PARSTABLE) || self.is_in(PARUNSTABLE) || self.is_in(PARMANY) }
    pub fn cached(self) -> bool { matches!(self, SortByCachedKey | ParSortByCachedKey) }
}

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub struct Case {
    pub op: Op,
    /// 0 tracked, 1 plain, 2 big, 3 zero-sized
    pub ty: u8,
    /// 0 contiguous, 1 step 3, 2 reversed, 3 column, 4 reversed step 2, 5 inner slice
    pub layout: u8,
    pub mode: u8,
    pub cseed: u64,
    pub panic_at: u64,
    pub threads: u8,
    /// index, key width, target, depending on the operation
    pub arg: i64,
    pub indices: Vec<usize>,
    pub keys: Vec<i32>,
}
impl Case {
    pub fn text(&self) -> String {
        use std::fmt::Write;
        let mut s = format!(
            "op={} ty={} layout={} mode={} cseed={} panic_at={} threads={} arg={} indices=",
            self.op.name(), self.ty, self.layout, self.mode, self.cseed,
            if self.panic_at == u64::MAX { "-".into() } else { self.panic_at.to_string() }, self.threads, self.arg
        );
        for (i, k) in self.indices.iter().enumerate() { let _ = write!(s, "{}{k}", if i > 0 { "," } else { "" }); }
        s.push_str(" keys=");
        for (i, k) in self.keys.iter().enumerate() { let _ = write!(s, "{}{k}", if i > 0 { "," } else { "" }); }
        s
    }
    pub fn parse(t: &str) -> Case {
        let get = |k: &str| -> String { t.split_whitespace().find_map(|w| w.strip_prefix(&format!("{k}="))).unwrap_or("").to_string() };
        let list = |k: &str| -> Vec<i64> { get(k).split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
        Case {
            op: Op::parse(&get("op")), ty: get("ty").parse().unwrap(), layout: get("layout").parse().unwrap(), mode: get("mode").parse().unwrap(),
            cseed: get("cseed").parse().unwrap(), panic_at: get("panic_at").parse().unwrap_or(u64::MAX), threads: get("threads").parse().unwrap(),
            arg: get("arg").parse().unwrap(), indices: list("indices").into_iter().map(|x| x as usize).collect(), keys: list("keys").into_iter().map(|x| x as i32).collect(),
        }
    }
    pub fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        Hash::hash(self, &mut h);
        h.finish()
    }
}

pub struct Out { pub fails: Vec<(&'static str, String)>, pub calls: u64, pub digest: Vec<u64> }

pub fn judge(c: &Case, prop: &str) -> Out {
    let run1 = |c: &Case| match c.ty { 0 => run::<Tracked>(c), 1 => run::<Plain>(c), 2 => run::<Big>(c), _ => run::<Zst>(c) };
    alloc::ERRORS.store(0, SeqCst);
    let live = alloc::live();
    let mut o = run1(c);
    let held = |o: &Out| (o.digest.capacity() * 8 + o.fails.capacity() * std::mem::size_of::<(&str, String)>() + o.fails.iter().map(|f| f.1.capacity()).sum::<usize>()) as i64;
    let mut left = alloc::live() - live - held(&o);
    if prop == "C15" && !c.op.par() {
        // a first run may fill caches of the thread; a leak is there every time
        for _ in 0..3 {
            if left > 0 {
                let live = alloc::live();
                let p = run1(c);
                left = alloc::live() - live - held(&p);
            }
        }
        if left > 0 {
            o.fails.push(("C15", format!("{left} bytes of scratch not released")));
        }
    }
    if alloc::ERRORS.load(SeqCst) != 0 {
        o.fails.push(("C15", "allocation released with another layout or written beyond its end".into()));
    }
    if prop == "C13" && c.layout != 0 && !c.op.cached() {
        let mut c2 = c.clone();
        c2.layout = 0;
        let p = run1(&c2);
        if p.digest != o.digest && !(c.op.par() && c.panic_at != u64::MAX) && !c.op.is_in(PARMANY) && !c.op.is_in(PARUNSTABLE) {
            o.fails.push(("C13", "result differs from that on a contiguous copy".into()));
        }
    }
    o
}

enum Backing<T> { One(Array1<T>), Two(Array2<T>) }
impl<T: El> Backing<T> {
    /// positions of the backing store that the view shows, in view order
    fn build(c: &Case) -> (Backing<T>, Vec<usize>, usize) {
        let n = c.keys.len();
        let (total, pos): (usize, Vec<usize>) = match c.layout {
            0 => (n, (0..n).collect()),
            1 => (3 * n + 2, (0..n).map(|i| 1 + 3 * i).collect()),
            2 => (n, (0..n).rev().collect()),
            3 => (3 * n, (0..n).map(|i| 3 * i + 1).collect()),
            4 => (2 * n + 1, (0..n).map(|i| 2 * (n - 1 - i) + 2).collect()),
            _ => (n + 6, (0..n).map(|i| i + 3).collect()),
        };
        let mut what: Vec<(i32, u32)> = (0..total).map(|j| ((mix(j as u64 ^ 0xfeed) % 100) as i32 - 50, u32::MAX)).collect();
        for (i, &p) in pos.iter().enumerate() { what[p] = (c.keys[i], i as u32); }
        let mut extra = n as u32;
        for w in &mut what { if w.1 == u32::MAX { w.1 = extra; extra += 1; } }
        let v: Vec<T> = what.iter().map(|w| T::mk(w.0, w.1)).collect();
        let b = if c.layout == 3 { Backing::Two(Array2::from_shape_vec((n, 3), v).unwrap()) } else { Backing::One(Array1::from_vec(v)) };
        (b, pos, total)
    }
    fn view_mut(&mut self, c: &Case) -> ArrayViewMut1<'_, T> {
        let n = c.keys.len();
        match self {
            Backing::Two(a) => a.column_mut(1),
            Backing::One(a) => match c.layout {
                0 => a.view_mut(),
                1 => a.slice_mut(s![1..1 + 3 * n; 3]),
                2 => a.slice_mut(s![..;-1]),
                4 => a.slice_mut(s![1..2 * n + 1; -2]),
                _ => a.slice_mut(s![3..n + 3]),
            },
        }
    }
    fn ids(&self) -> Vec<u32> {
        match self { Backing::One(a) => a.iter().map(|x| x.id()).collect(), Backing::Two(a) => a.iter().map(|x| x.id()).collect() }
    }
}

#[derive(Default, Debug)]
enum Res {
    #[default]
    None,
    Nth(Vec<u32>, u32, usize, Vec<u32>),
    Many(Vec<(usize, u32, usize)>, bool),
    Dedup(Vec<u32>, Vec<u32>, bool),
    Search(Result<usize, usize>),
    Bool(bool),
}

fn pool(n: u8) -> &'static rayon::ThreadPool {
    use std::sync::OnceLock;
    static P: [OnceLock<rayon::ThreadPool>; 9] = [const { OnceLock::new() }; 9];
    P[n.clamp(1, 8) as usize].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(n.clamp(1, 8) as usize).build().unwrap())
}
fn by<T: El>(a: &T, b: &T) -> Ordering { cmp_hook(a.ki(), b.ki()) }
fn kf<T: El>(a: &T) -> Key { Key(key_hook(a.ki()), a.id()) }
fn addr<T>(v: &ArrayViewMut1<T>, i: usize) -> usize { (v.as_ptr() as isize + i as isize * v.strides()[0] * std::mem::size_of::<T>() as isize) as usize }
fn position<T>(base: isize, stride: isize, p: usize) -> usize {
    let sz = std::mem::size_of::<T>() as isize;
    if p as isize == base { return 0; }
    if sz == 0 || stride == 0 { return usize::MAX; }
    let d = p as isize - base;
    if d % (stride * sz) != 0 { return usize::MAX - 1; }
    (d / (stride * sz)) as usize
}

fn perform<T: El>(c: &Case, v: &mut ArrayViewMut1<'_, T>) -> Res {
    let n = v.len();
    let (base, stride) = (v.as_ptr() as isize, v.strides()[0]);
    let target = T::mk(c.arg as i32, u32::MAX - 1);
    let target = std::mem::ManuallyDrop::new(target);
    let target: &T = &target;
    let ids = |v: &ArrayViewMut1<'_, T>| v.iter().map(|x| x.id()).collect::<Vec<u32>>();
    match c.op {
        SortUnstable => v.sort_unstable(),
        SortUnstableBy => v.sort_unstable_by(by),
        SortUnstableByKey => v.sort_unstable_by_key(kf),
        Sort => v.sort(),
        SortBy => v.sort_by(by),
        SortByKey => v.sort_by_key(kf),
        SortByCachedKey => match c.arg {
            0 => v.sort_by_cached_key(|a| key_hook(a.ki()) as u8),
            1 => v.sort_by_cached_key(|a| key_hook(a.ki()) as u16),
            2 => v.sort_by_cached_key(|a| key_hook(a.ki()) as u32),
            3 => v.sort_by_cached_key(|a| key_hook(a.ki()) as u64),
            4 => v.sort_by_cached_key(|a| format!("{:08}", key_hook(a.ki()))),
            5 => v.sort_by_cached_key(|a| { key_hook(a.ki()); }),
            _ => v.sort_by_cached_key(kf),
        },
        Nth | NthBy | NthByKey => {
            let k = c.arg as usize;
            let (l, e, r) = match c.op { Nth => v.select_nth_unstable(k), NthBy => v.select_nth_unstable_by(k, by), _ => v.select_nth_unstable_by_key(k, kf) };
            let pos = position::<T>(base, stride, e as *const T as usize);
            let pl = if l.len() > 0 { position::<T>(base, stride, addr(&l, 0)) } else { 0 };
            let pr = if r.len() > 0 { position::<T>(base, stride, addr(&r, 0)) } else { k + 1 };
            let okp = std::mem::size_of::<T>() == 0 || n <= 1 || (pl == 0 && pr == k + 1);
            return Res::Nth(ids(&l), e.id(), if okp { pos } else { usize::MAX - 2 }, ids(&r));
        }
        Many | ManyBy | ManyByKey => {
            let idx = Array1::from_vec(c.indices.clone());
            let mut pre = std::mem::ManuallyDrop::new(T::mk(0, u32::MAX - 1));
            let pre: &mut T = &mut pre;
            let mut coll: Vec<(usize, &mut T)> = vec![(usize::MAX, pre)];
            // indices of any layout
            let big: Array1<usize> = (0..2 * idx.len()).map(|j| idx.get(j / 2).copied().unwrap_or(0)).collect();
            let iv: ArrayView1<usize> = if c.cseed & 1 == 1 { big.slice(s![..;2]) } else { idx.view() };
            match c.op {
                Many => v.select_many_nth_unstable(&iv, &mut coll),
                ManyBy => v.select_many_nth_unstable_by(&iv, &mut coll, by),
                _ => v.select_many_nth_unstable_by_key(&iv, &mut coll, kf),
            }
            let kept = coll.len() >= 1 && coll[0].0 == usize::MAX;
            return Res::Many(coll.iter().skip(1).map(|(i, e)| (*i, e.id(), position::<T>(base, stride, *e as *const T as usize))).collect(), kept);
        }
        Dedup | DedupBy | DedupByKey => {
            let (a, b) = match c.op {
                Dedup => v.partition_dedup(),
                DedupBy => v.partition_dedup_by(|x, y| eq_hook(x.ki(), y.ki())),
                _ => v.partition_dedup_by_key(|x| Key(x.key(), x.id())),
            };
            let ok = std::mem::size_of::<T>() == 0 || n <= 1 || ((a.len() == 0 || position::<T>(base, stride, addr(&a, 0)) == 0) && (b.len() == 0 || position::<T>(base, stride, addr(&b, 0)) == a.len()));
            return Res::Dedup(ids(&a), ids(&b), ok);
        }
        Search => return Res::Search(v.binary_search(target)),
        SearchBy => return Res::Search(v.binary_search_by(|p| { KEYLOG.lock().unwrap().push(p.id()); cmp_hook(p.ki(), (c.arg as i32, u32::MAX - 1)) })),
        SearchByKey => return Res::Search(v.binary_search_by_key(&Key(c.arg as i32, u32::MAX - 1), kf)),
        Point => return Res::Search(Err(v.partition_point(|p| { KEYLOG.lock().unwrap().push(p.id()); cmp_hook(p.ki(), (c.arg as i32, u32::MAX - 1)) == Ordering::Less }))),
        Reverse => v.reverse(),
        IsSorted => return Res::Bool(v.is_sorted()),
        IsSortedBy => return Res::Bool(v.is_sorted_by(|a, b| rel_hook(a.ki(), b.ki()))),
        IsSortedByKey => return Res::Bool(v.is_sorted_by_key(kf)),
        Contains => return Res::Bool(v.contains(target)),
        ParSort => pool(c.threads).install(|| v.par_sort()),
        ParSortBy => pool(c.threads).install(|| v.par_sort_by(by)),
        ParSortByKey => pool(c.threads).install(|| v.par_sort_by_key(kf)),
        ParSortByCachedKey => pool(c.threads).install(|| match c.arg {
            0 => v.par_sort_by_cached_key(|a| key_hook(a.ki()) as u8),
            1 => v.par_sort_by_cached_key(|a| key_hook(a.ki()) as u16),
            2 => v.par_sort_by_cached_key(|a| key_hook(a.ki()) as u32),
            3 => v.par_sort_by_cached_key(|a| key_hook(a.ki()) as u64),
            4 => v.par_sort_by_cached_key(|a| format!("{:08}", key_hook(a.ki()))),
            _ => v.par_sort_by_cached_key(kf),
        }),
        ParSortUnstable => pool(c.threads).install(|| v.par_sort_unstable()),
        ParSortUnstableBy => pool(c.threads).install(|| v.par_sort_unstable_by(by)),
        ParSortUnstableByKey => pool(c.threads).install(|| v.par_sort_unstable_by_key(kf)),
        ParMany | ParManyBy | ParManyByKey => {
            let idx = Array1::from_vec(c.indices.clone());
            let mut pre = std::mem::ManuallyDrop::new(T::mk(0, u32::MAX - 1));
            let prep = &*pre as *const T as usize;
            let pre: &mut T = &mut pre;
            let mut coll: Vec<&mut T> = Vec::with_capacity(1 + (c.cseed % 7) as usize);
            coll.push(pre);
            pool(c.threads).install(|| match c.op {
                ParMany => v.par_select_many_nth_unstable(&idx, &mut coll),
                ParManyBy => v.par_select_many_nth_unstable_by(&idx, &mut coll, by),
                _ => v.par_select_many_nth_unstable_by_key(&idx, &mut coll, kf),
            });
            let kept = coll.len() == 1 + idx.len() && coll[0] as *const T as usize == prep;
            // references to uninitialised slots must not be followed: check their positions first
            return Res::Many(coll.iter().skip(1).zip(c.indices.iter()).map(|(e, i)| { let p = position::<T>(base, stride, *e as *const T as usize); (*i, if p < n || std::mem::size_of::<T>() == 0 { e.id() } else { u32::MAX - 3 }, p) }).collect(), kept);
        }
    }
    Res::None
}

fn tight() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var("VERIF_TIGHT").is_ok())
}

fn run<T: El>(c: &Case) -> Out {
    let n = c.keys.len();
    let zst = std::mem::size_of::<T>() == 0;
    let counting = std::mem::needs_drop::<T>();
    let mut fails: Vec<(&'static str, String)> = vec![];
    let (mut b, pos, total) = Backing::<T>::build(c);
    drops_reset(total);
    ZDROPS.store(0, SeqCst);
    let before = b.ids();
    LOG.lock().unwrap().clear();
    KEYLOG.lock().unwrap().clear();
    LOGGING.store((c.op.is_in(DEDUP) || c.op.cached() || c.op == SearchByKey) as u8, SeqCst);
    MODE.store(c.mode, SeqCst);
    CSEED.store(c.cseed, SeqCst);
    CALLS.store(0, SeqCst);
    PANIC_AT.store(c.panic_at, SeqCst);
    let nn = n as u64;
    // selection on an inconsistent comparator may take far longer than it ever should on an order
    let bits = 64 - nn.leading_zeros() as u64;
    let per = if matches!(c.op, SortUnstableByKey | SortByKey) { 3 } else { 1 };    // hook calls per comparison
    LIMIT.store(if c.mode <= 1 || c.mode == 8 { 100_000 + 400 * per * nn * bits.max(1) } else { 200_000_000 }, SeqCst);
    if c.mode == 8 {
        let mut a = Adv::new(n);
        let cap = if c.op.is_in(UNSTABLE) { c.arg } else { c.cseed as i64 };
        if cap > 0 { a.cap = cap as u32; }
        *ADV.lock().unwrap() = Some(a);
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut v = b.view_mut(c);
        perform(c, &mut v)
    }));
    LIMIT.store(u64::MAX, SeqCst);
    PANIC_AT.store(u64::MAX, SeqCst);
    LOGGING.store(0, SeqCst);
    let calls = CALLS.load(SeqCst);
    let mut keys: Vec<i32> = c.keys.clone();
    if c.mode == 8 {
        let mut a = ADV.lock().unwrap().take().unwrap();
        for x in &mut a.val { if *x == u32::MAX { *x = a.solid; a.solid += 1; } }
        keys = a.val.iter().map(|x| *x as i32).collect();
    }
    let total_order = c.mode <= 1 || c.mode == 8;
    // for the proofs' order: smaller first
    let ord = |id: u32| -> i64 { let k = keys[id as usize] as i64; if c.mode == 1 { -k } else { k } };
    let log = std::mem::take(&mut *LOG.lock().unwrap());
    let keylog = std::mem::take(&mut *KEYLOG.lock().unwrap());
    let after = b.ids();
    let ids: Vec<u32> = pos.iter().map(|&p| after[p]).collect();
    let par = c.op.par();

    // what every outcome must satisfy
    let selecting = c.op.is_in(NTH) || c.op.is_in(MANY) || c.op.is_in(PARMANY);
    let (mut user, mut toomany, mut internal) = (false, false, None);
    let res = match r {
        Ok(x) => Some(x),
        Err(e) => {
            if e.is::<Boom>() { user = true } else if e.is::<TooMany>() { toomany = true } else {
                internal = Some(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()));
            }
            None
        }
    };
    let permuted = zst || {
        let mut seen = vec![false; n];
        ids.iter().all(|&i| (i as usize) < n && !std::mem::replace(&mut seen[i as usize], true))
    };
    let outside = zst || (0..total).all(|p| before[p] < n as u32 || after[p] == before[p]);
    let early = if zst { ZDROPS.load(SeqCst) } else if counting { (0..total as u32).map(|i| dropped(i) as u64).sum::<u64>() + WILD.load(SeqCst) } else { 0 };
    let returned = res.is_some();
    if !permuted {
        let m = "the array does not hold exactly its original elements";
        if user || toomany { fails.push(("C04", format!("{m} after a panicking call"))); }
        if c.op.is_in(DEDUP) { fails.push(("C09", m.into())); }
        if c.op.is_in(DEFS) { fails.push(("C10", m.into())); }
        if par && returned { fails.push((if c.op.is_in(PARMANY) { "C12" } else { "C11" }, m.into())); }
        if !par && returned && !c.op.is_in(DEDUP) && !c.op.is_in(DEFS) { fails.push(("C03", m.into())); }
        if selecting && internal.is_some() { fails.push(("C07", m.into())); }
        if ids.iter().any(|&i| i as usize >= total) { fails.push(("C15", "an element that was never stored is in the array".into())); }
        if !counting && !par { fails.push(("C15", "an element was duplicated".into())); }
    }
    if !outside {
        fails.push(("C13", "an element outside the view changed".into()));
        if !par { fails.push(("C15", "an element outside the view changed".into())); }
    }
    if early > 0 {
        let m = format!("{early} drops during the operation");
        if user || toomany { fails.push(("C04", m.clone())); }
        if !par { fails.push(("C15", m.clone())); }
        if returned && !par { fails.push(("C03", m.clone())); }
        if par { fails.push((if c.op.is_in(PARMANY) { "C12" } else { "C11" }, m)); }
    }
    if toomany && !par { fails.push(("C14", format!("still running after {calls} calls"))); }
    // the proved bounds; when the proof no longer goes through, growth four times the worst seen of the real algorithm
    let bound = if c.op.is_in(UNSTABLE) && total_order { if tight() && n >= 1000 { 12 * bits } else { 185 * bits + 65 } } else { u64::MAX };
    if bound < u64::MAX && calls > per * nn * bound { fails.push(("C17", format!("{calls} calls for {n} elements{}", if toomany { " and still running" } else { "" }))); }
    let many = if c.op.is_in(NTH) { 1 } else { (usize::BITS - c.indices.len().leading_zeros()) as u64 };
    let bound = if (c.op.is_in(NTH) || c.op.is_in(MANY)) && total_order { if tight() && n >= 1000 { (if (10_000..=131_072).contains(&n) { 150 } else { 600 }) * many } else { 13382 * many } } else { u64::MAX };
    if bound < u64::MAX && calls > per * nn * bound { fails.push(("C18", format!("{calls} calls for {n} elements{}", if toomany { " and still running" } else { "" }))); }
    let bound = if matches!(c.op, Sort | SortBy | SortByKey) && total_order { if tight() && n >= 1000 { 3 * bits } else { 8 * bits + 40 } } else { u64::MAX };
    if bound < u64::MAX && calls > per * nn * bound { fails.push(("C19", format!("{calls} calls for {n} elements{}", if toomany { " and still running" } else { "" }))); }
    // every probe is logged; the binary search itself never asks twice
    if matches!(c.op, SearchBy | SearchByKey | Point) && n < usize::MAX && keylog.len() as u64 > if n == 0 { 1 } else { bits + 1 } { fails.push(("C20", format!("{} calls for {n} elements", keylog.len()))); }
    if toomany && par && total_order { fails.push((if c.op.is_in(PARMANY) { "C12" } else { "C11" }, format!("still running after {calls} calls"))); }
    // index misuse
    let misuse = if c.op.is_in(NTH) { c.arg as usize >= n } else if c.op.is_in(MANY) || c.op.is_in(PARMANY) {
        c.indices.windows(2).any(|w| w[0] >= w[1]) || c.indices.iter().any(|&i| i >= n)
    } else { false };
    if let Some(m) = &internal {
        if par {
            if !misuse { fails.push((if c.op.is_in(PARMANY) { "C12" } else { "C11" }, format!("panicked: {m}"))); }
        } else if !misuse {
            fails.push(("C14", format!("panicked: {m}")));
            if selecting { fails.push(("C07", format!("panicked: {m}"))); }
        }
    }
    if returned && misuse { fails.push((if par { "C12" } else { "C07" }, "index misuse was accepted".into())); }
    if returned && misuse && par { /* references may be wild */ }

    // results
    let ascending = |ids: &[u32]| ids.windows(2).position(|w| ord(w[0]) > ord(w[1]));
    if returned && total_order && permuted && !zst {
        let stable = |f: &mut Vec<(&'static str, String)>, p: &'static str, ids: &[u32]| {
            if let Some(i) = ids.windows(2).position(|w| ord(w[0]) > ord(w[1]) || (ord(w[0]) == ord(w[1]) && w[0] > w[1])) {
                f.push((p, format!("positions {i} and {} are out of order or not in their original order", i + 1)));
                return false;
            }
            true
        };
        if c.op.is_in(UNSTABLE) { if let Some(i) = ascending(&ids) { fails.push(("C01", format!("positions {i} and {} are out of order", i + 1))); } }
        if c.op.is_in(STABLE) { if !stable(&mut fails, "C02", &ids) && c.op.cached() { fails.push(("C16", "differs from the stable sort by the same keys".into())); } }
        if c.op.is_in(PARSTABLE) { stable(&mut fails, "C11", &ids); }
        if c.op.is_in(PARUNSTABLE) { if let Some(i) = ascending(&ids) { fails.push(("C11", format!("positions {i} and {} are out of order", i + 1))); } }
    }
    let mut rank: Vec<i64> = vec![];
    if (selecting) && returned && total_order && !zst { rank = (0..n as u32).map(|i| ord(i)).collect(); rank.sort(); }
    let mut digest: Vec<u64> = ids.iter().map(|x| *x as u64).collect();
    match &res {
        Some(Res::Nth(l, e, p, r)) if !misuse => {
            let k = c.arg as usize;
            if l.len() != k || r.len() != n - 1 - k { fails.push(("C05", format!("views of {} and {} elements", l.len(), r.len()))); }
            if !zst && permuted {
                let mut all = l.clone(); all.push(*e); all.extend(r);
                if all != ids || (*p != k && n > 1) { fails.push(("C05", "the views and the element are not those of the array".into())); }
                if total_order && (*e as usize) < n {
                    let x = ord(*e);
                    if x != rank[k] { fails.push(("C05", format!("element {k} is not the one of sorted order"))); }
                    if l.iter().any(|i| (*i as usize) >= n || ord(*i) > x) { fails.push(("C05", "a larger element on the left".into())); }
                    if r.iter().any(|i| (*i as usize) >= n || ord(*i) < x) { fails.push(("C05", "a smaller element on the right".into())); }
                }
            }
            digest.extend(l.iter().chain(r).map(|x| *x as u64));
        }
        Some(Res::Many(got, kept)) if !misuse => {
            let p = if par { "C12" } else { "C06" };
            if !kept { fails.push((p, "what the collection held before is gone, or its length is wrong".into())); }
            let want: Vec<usize> = c.indices.clone();
            if got.iter().map(|x| x.0).collect::<Vec<_>>() != want { fails.push((p, "not one pair per requested index in order".into())); }
            if !zst && permuted {
                for (i, id, at) in got {
                    if *i < n && (ids[*i] != *id || (*at != *i && n > 1)) { fails.push((p, format!("the reference for {i} is not to slot {i}"))); break; }
                    if *i < n && total_order && ord(*id) != rank[*i] { fails.push((p, format!("element {i} is not the one of sorted order"))); break; }
                }
                if total_order {
                    let mut start = 0;
                    for e in c.indices.iter().copied().chain([n]) {
                        if c.indices.is_empty() { break; }
                        if e > n || start > e { break; }
                        let mut seg: Vec<i64> = ids[start..e].iter().map(|i| ord(*i)).collect(); seg.sort();
                        if seg != rank[start..e] { fails.push((p, format!("positions {start}..{e} do not hold what belongs there"))); break; }
                        start = (e + 1).min(n);
                    }
                }
            }
            digest.extend(got.iter().map(|x| x.1 as u64));
        }
        Some(Res::Dedup(a, d, adj)) => {
            if !zst {
                let mut all = a.clone(); all.extend(d);
                if all != ids || !adj { fails.push(("C09", "the two views do not cover the array".into())); }
                if log.len() != n.saturating_sub(1) { fails.push(("C09", format!("{} calls of the test", log.len()))); }
                let mut kept: Vec<u32> = vec![]; let mut rest: Vec<u32> = vec![];
                for i in 0..n as u32 {
                    if i == 0 { kept.push(0); continue; }
                    let Some(l) = log.get(i as usize - 1) else { break };
                    if l.0 != i || l.1 != *kept.last().unwrap() { fails.push(("C09", format!("call {} was ({}, {}) rather than ({i}, {})", i - 1, l.0, l.1, kept.last().unwrap()))); break; }
                    if l.2 { rest.push(i) } else { kept.push(i) }
                }
                let mut d2 = d.clone(); d2.sort();
                if log.len() == n.saturating_sub(1) && (kept != *a || rest != d2) { fails.push(("C09", "kept or removed elements differ from the definition".into())); }
                digest.push(a.len() as u64);
            } else if a.len() + d.len() != n { fails.push(("C09", "the two views do not cover the array".into())); }
        }
        Some(Res::Search(r)) => {
            let bad = match r { Ok(i) => *i >= n, Err(i) => *i > n };
            if bad { fails.push(("C08", format!("{r:?} is out of range"))); }
            if keylog.iter().any(|i| *i as usize >= n) && !zst { fails.push(("C08", "probed something that is not an element".into())); fails.push(("C15", "read outside the view".into())); }
            if total_order && !zst && !bad {
                let t = if c.mode == 1 { -c.arg } else { c.arg };
                let part = (0..n as u32).collect::<Vec<_>>().windows(2).all(|w| ord(w[0]) <= ord(w[1]));
                if part {
                    let lo = (0..n as u32).filter(|i| ord(*i) < t).count();
                    let hi = (0..n as u32).filter(|i| ord(*i) <= t).count();
                    let ok = match r { _ if c.op == Point => *r == Err(lo), Ok(i) => lo <= *i && *i < hi, Err(i) => lo == hi && *i == lo };
                    if !ok { fails.push(("C08", format!("{r:?} for a target at {lo}..{hi}"))); }
                }
            }
            digest.push(match r { Ok(i) => *i as u64, Err(i) => !(*i as u64) });
        }
        Some(Res::Bool(r)) => {
            if !zst {
                let k = |i: usize| (c.keys[i], i as u32);
                MODE.store(c.mode, SeqCst);
                let want = match c.op {
                    IsSortedBy => (1..n).all(|i| rel_hook(k(i - 1), k(i))),
                    Contains => (0..n).any(|i| eq_hook(k(i), (c.arg as i32, u32::MAX - 1))),
                    _ => (1..n).all(|i| cmp_hook(k(i - 1), k(i)) != Ordering::Greater),
                };
                if *r != want && c.mode != 2 && c.mode < 8 || (*r != want && c.mode == 2 && c.op == IsSortedBy) { fails.push(("C10", format!("answered {r}"))); }
            }
            if ids.iter().enumerate().any(|(i, x)| *x as usize != i) && !zst { fails.push(("C10", "the array changed".into())); }
            digest.push(*r as u64);
        }
        _ => {}
    }
    if c.op == Reverse && returned && !zst && ids.iter().enumerate().any(|(i, x)| *x as usize != n - 1 - i) { fails.push(("C10", "not reversed".into())); }
    if c.op.is_in(SEARCH) && !zst && ids.iter().enumerate().any(|(i, x)| *x as usize != i) { fails.push(("C08", "the array changed".into())); }
    if c.op.cached() && !zst {
        let mut cnt = vec![0u32; n];
        for i in &keylog { if (*i as usize) < n { cnt[*i as usize] += 1; } }
        if cnt.iter().any(|x| *x > 1) { fails.push(("C16", "a key was computed more than once".into())); }
        if c.op == SortByCachedKey {
            if keylog.windows(2).any(|w| w[0] >= w[1]) { fails.push(("C16", "keys were not computed in array order".into())); }
            if n < 2 && !keylog.is_empty() { fails.push(("C16", "a key was computed for fewer than two elements".into())); }
        }
        if par && user && !permuted { fails.push(("C04", "lost elements".into())); }
    }
    if !returned { digest.push(if user { 1 } else if toomany { 2 } else { 3 }); }


    drop(b);
    let twice = if zst { ZDROPS.load(SeqCst) != total as u64 } else { counting && ((0..total as u32).any(|i| dropped(i) != 1) || WILD.load(SeqCst) > 0) };
    if twice {
        let m = "some element was dropped twice or never";
        if user || toomany { fails.push(("C04", m.into())); }
        if !par { fails.push(("C15", m.into())); }
    }
    Out { fails, calls, digest }
}
