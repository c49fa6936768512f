//! Case generation, deterministic in (property, seed, shard).
use crate::el::*;
use crate::run::*;
use std::collections::VecDeque;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
    fn pick<T: Copy>(&mut self, l: &[T]) -> T { l[self.below(l.len())] }
}

pub struct Gen { prop: String, rng: Rng, queue: VecDeque<Case>, count: u64, shard: u64 }

fn case(op: Op, keys: Vec<i32>) -> Case {
    Case { op, ty: 0, layout: 0, mode: 0, cseed: 0, panic_at: u64::MAX, threads: 2, arg: 0, indices: vec![], keys }
}
const SHARDS: u64 = 4;

fn adversary(op: Op, n: usize, arg: i64) -> Vec<i32> {
    // the values McIlroy's adversary settles on while the real operation runs
    let mut c = case(op, vec![0; n]);
    c.mode = 8;
    c.arg = arg;
    let keys = std::panic::catch_unwind(|| {
        use ndarray::Array1;
        use ndarray_slice::Slice1Ext;
        *ADV.lock().unwrap() = Some(Adv::new(n));
        MODE.store(8, std::sync::atomic::Ordering::SeqCst);
        LIMIT.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
        CALLS.store(0, std::sync::atomic::Ordering::SeqCst);
        LIMIT.store(1_000_000 + 1000 * n as u64, std::sync::atomic::Ordering::SeqCst);
        let mut a: Array1<(i32, u32)> = (0..n as u32).map(|i| (0, i)).collect();
        if op.is_in(NTH) || op.is_in(MANY) { let _ = a.select_nth_unstable_by(arg as usize, |x, y| cmp_hook(*x, *y)); } else { a.sort_unstable_by(|x, y| cmp_hook(*x, *y)); }
    });
    LIMIT.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
    let a = ADV.lock().unwrap_or_else(|e| e.into_inner()).take();
    let _ = keys;
    match a {
        Some(mut a) => { for x in &mut a.val { if *x == u32::MAX { *x = a.solid; a.solid += 1; } } a.val.iter().map(|x| *x as i32).collect() }
        None => (0..n as i32).collect(),
    }
}

impl Gen {
    pub fn new(prop: &str, seed: u64, shard: u64) -> Gen {
        let mut g = Gen { prop: prop.to_string(), rng: Rng(mix(seed.wrapping_mul(1000003) ^ mix(shard ^ 0xabc) ^ prop.bytes().fold(7, |h, b| mix(h ^ b as u64)))), queue: VecDeque::new(), count: 0, shard };
        g.exhaustive();
        g
    }
    fn ops(&self) -> Vec<Op> {
        let mut v: Vec<Op> = vec![];
        let l: &[&[Op]] = match self.prop.as_str() {
            "C01" => &[UNSTABLE],
            "C02" => &[STABLE],
            "C03" => &[UNSTABLE, STABLE, NTH, MANY],
            "C04" => &[UNSTABLE, STABLE, NTH, MANY, DEDUP, PARSTABLE, PARUNSTABLE],
            "C05" => &[NTH],
            "C06" => &[MANY],
            "C07" => &[NTH, MANY],
            "C08" => &[SEARCH],
            "C09" => &[DEDUP],
            "C10" => &[DEFS],
            "C11" => &[PARSTABLE, PARUNSTABLE],
            "C12" => &[PARMANY],
            "C13" => &[UNSTABLE, STABLE, NTH, MANY, DEDUP, SEARCH, DEFS, PARSTABLE, PARUNSTABLE, PARMANY],
            "C14" => &[UNSTABLE, STABLE, NTH, MANY, DEDUP, SEARCH, DEFS],
            "C15" => &[UNSTABLE, STABLE, NTH, MANY, DEDUP, SEARCH, DEFS],
            "C16" => &[&[Op::SortByCachedKey, Op::SortByCachedKey, Op::SortByCachedKey, Op::ParSortByCachedKey]],
            "C17" => &[UNSTABLE],
            "C18" => &[NTH, NTH, MANY],
            "C20" => &[&[Op::SearchBy, Op::SearchByKey, Op::Point]],
            "C19" => &[&[Op::Sort, Op::SortBy, Op::SortByKey]],
            _ => &[UNSTABLE],
        };
        for x in l { v.extend(*x); }
        v
    }
    /// every small input, and the fixed awkward ones, first
    fn exhaustive(&mut self) {
        let ops = self.ops();
        let mut j = 0u64;
        let mut q: VecDeque<Case> = VecDeque::new();
        let mut push = |c: Case| { j += 1; if j % SHARDS == self.shard % SHARDS { q.push_back(c); } };
        for n in 0..=5usize {
            let base = 3usize.min(n.max(1));
            for code in 0..base.pow(n as u32) {
                let mut x = code;
                let keys: Vec<i32> = (0..n).map(|_| { let k = x % base; x /= base; k as i32 }).collect();
                for &op in &ops {
                    if op.par() && n > 3 { continue; }
                    if op.is_in(NTH) {
                        for k in 0..n + (self.prop == "C07") as usize * 2 { let mut c = case(op, keys.clone()); c.arg = k as i64; push(c); }
                    } else if op.is_in(MANY) || op.is_in(PARMANY) {
                        for m in 0..1usize << n { if n > 3 && m % 3 != 0 { continue; } let mut c = case(op, keys.clone()); c.indices = (0..n).filter(|i| m >> i & 1 == 1).collect(); push(c); }
                    } else if op.is_in(SEARCH) || op == Op::Contains {
                        if op.is_in(SEARCH) && self.prop == "C08" && keys.windows(2).any(|w| w[0] > w[1]) { continue; }
                        for t in -1..=3 { let mut c = case(op, keys.clone()); c.arg = t; push(c); }
                    } else { push(case(op, keys.clone())); }
                }
            }
        }
        for n in 6..=7usize {
            // 0-1-2 sequences
            for code in 0..3usize.pow(n as u32) {
                let mut x = code;
                let keys: Vec<i32> = (0..n).map(|_| { let k = x % 3; x /= 3; k as i32 }).collect();
                let op = ops[code % ops.len()];
                if op.par() || op.is_in(MANY) { continue; }
                if op.is_in(SEARCH) && keys.windows(2).any(|w| w[0] > w[1]) { continue; }
                let mut c = case(op, keys);
                c.arg = if op.is_in(NTH) { (code / 7 % n) as i64 } else if op.cached() { 0 } else { (code % 5) as i64 - 1 };
                push(c);
            }
        }
        if self.prop == "C08" {
            // sorted arrays of every length with runs of every target
            for n in 0..40usize {
                for t in 0..=n {
                    for run in 0..=3usize {
                        for &op in &ops {
                            let keys: Vec<i32> = (0..n).map(|i| if i < t { (i as i32) - 1000 } else if i < t + run { 0 } else { i as i32 + 10 }).collect();
                            let mut c = case(op, keys);
                            c.arg = 0;
                            c.mode = 0;
                            push(c);
                        }
                    }
                }
            }
        }
        if ["C02", "C04", "C11", "C14", "C15"].contains(&self.prop.as_str()) {
            // more pending runs than the run stack first has room for
            for m in [17usize, 18] {
                let mut l = vec![10usize, 11];
                while l.len() < m { let k = l.len(); l.push(l[k - 1] + l[k - 2] + 1); }
                for &op in &ops {
                    if !(op.is_in(STABLE) || op.is_in(PARSTABLE)) { continue; }
                    if !op.par() { l.reverse(); }
                    let mut c = case(op, l.iter().flat_map(|x| 0..*x as i32).collect());
                    if !op.par() { l.reverse(); }
                    if op.cached() { c.arg = 9; }
                    push(c);
                }
            }
        }
        if self.prop == "C17" {
            // an adversary that picks the answers while the sort runs, with all values and with few
            for n in if cfg!(debug_assertions) { vec![300usize, 2500] } else { vec![1000usize, 20_000, 60_000, 120_000, 250_000] } {
                for &op in &ops { for cap in [0i64, 64, 1000] { for ty in [0u8, 1] {
                    if ty == 1 && n > 60_000 || op == Op::SortUnstableByKey { continue; }
                    let mut c = case(op, vec![0; n]);
                    c.mode = 8; c.arg = cap; c.ty = ty; push(c);
                } } }
            }
        }
        if self.prop == "C20" {
            // every position of the target, and probes that always, never or erratically answer the same
            for n in (0..130usize).chain([255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 20_000, 65_535, 65_536, 131_071]) {
                for k in 0..24usize {
                    let t = match k { 0 => 0, 1 => n, 2 => n.saturating_sub(1), 3 => 1.min(n), 4 => n / 2, _ => mix((n * 31 + k) as u64) as usize % (n + 1) };
                    let run = [0usize, 1, 2, 40, 300][k % 5];
                    let op = ops[(n + k) % ops.len()];
                    let keys: Vec<i32> = (0..n).map(|i| if i < t { -1 } else if i < t + run { 0 } else { 1 }).collect();
                    let mut c = case(op, keys); c.layout = (k % 6) as u8; c.ty = (k / 6 % 2) as u8; push(c);
                }
                for mode in 2..8u8 { let mut c = case(ops[(n + mode as usize) % ops.len()], (0..n as i32).map(|i| i % 20_000).collect()); c.mode = mode; c.cseed = n as u64; push(c); }
            }
        }
        if self.prop == "C19" {
            // every way the lengths of the runs may develop; all runs span the same values, so that merging them is expensive
            for n in if cfg!(debug_assertions) { vec![300usize, 2500] } else { vec![1000usize, 20_000, 100_000, 400_000] } {
                let mut lens: Vec<Vec<usize>> = vec![];
                for w in [5usize, 10, 11, 16, 40, 300] { lens.push(vec![w; n / w + 1]); }
                for step in [1usize, 3] { // growing and shrinking by a step
                    let mut l = vec![10]; while l.iter().sum::<usize>() < n { l.push(l[l.len() - 1] + step); }
                    lens.push(l.clone()); l.reverse(); lens.push(l);
                }
                for (p, q) in [(11usize, 10usize), (3, 2), (2, 1), (5, 2)] { // geometrically
                    let mut l = vec![10]; while l.iter().sum::<usize>() < n { l.push(l[l.len() - 1] * p / q + 1); }
                    lens.push(l.clone()); l.reverse(); lens.push(l);
                }
                { let mut l = vec![10, 11]; while l.iter().sum::<usize>() < n { let k = l.len(); l.push(l[k - 1] + l[k - 2] + 1); } lens.push(l.clone()); l.reverse(); lens.push(l); }
                // a long run and many short ones, before, after, around
                lens.push(std::iter::once(n / 2).chain(vec![10; n / 20]).collect());
                lens.push(vec![10; n / 20].into_iter().chain([n / 2]).collect());
                lens.push(vec![10; n / 40].into_iter().chain([n / 2]).chain(vec![10; n / 40]).collect());
                lens.push([n / 2, n / 4].into_iter().chain(vec![10; n / 40]).collect());
                lens.push([n / 4, n / 2].into_iter().chain(vec![10; n / 40]).collect());
                lens.push([n / 5, n / 4, n / 4].into_iter().chain(vec![12; n / 40]).collect());
                for d in [4usize, 8, 10, 16, 40] { lens.push(std::iter::once(n - n / d).chain(vec![10; n / d / 10]).collect()); lens.push(vec![10; n / d / 10].into_iter().chain([n - n / d]).collect()); }
                for a in [40usize, 200, n / 20] { lens.push((0..2 * n / a).map(|i| if i % 2 == 0 { a } else { 10 }).collect()); lens.push((0..3 * n / a).map(|i| if i % 3 == 0 { a } else { 10 + i % 3 }).collect()); }
                for (i, l) in lens.into_iter().enumerate() {
                    for turn in 0..2usize { // ascending runs, or every other one strictly descending
                        let mut keys: Vec<i32> = vec![];
                        for (j, &x) in l.iter().enumerate() {
                            let at = |k: usize| (k * 29_000 / x) as i32 + (j % 7) as i32;
                            if turn == 1 && j % 2 == 1 && x <= 4000 { keys.extend((0..x).rev().map(at)); } else { keys.extend((0..x).map(at)); }
                        }
                        keys.truncate(n);
                        let mut c = case(ops[(i + turn) % ops.len()], keys);
                        if n <= 60_000 { c.ty = (i % 2) as u8; } push(c);
                    }
                }
                for &op in &ops { for kind in 0..3u64 {
                    push(case(op, (0..n).map(|i| (mix(i as u64 ^ kind << 40) % [30_000, 100, 4][kind as usize]) as i32).collect()));
                } }
            }
        }
        if self.prop == "C18" {
            // the same for selection, of the middle, a quarter, either end, and of several indices
            for n in if cfg!(debug_assertions) { vec![300usize, 2500] } else { vec![1000usize, 1025, 20_000, 60_000, 120_000, 250_000] } {
                for &op in &ops { for cap in [0usize, 64, 150, 250, 1000, n / 2] { for at in [n / 2, n / 4, 1, n - 2] { for ty in [0u8, 1] {
                    if ty == 1 && (n > 60_000 || cap > 64) || op == Op::NthByKey || op == Op::ManyByKey { continue; }
                    if op.is_in(MANY) && (n > 60_000 || at == n / 4) { continue; }
                    let mut c = case(op, vec![0; n]);
                    c.mode = 8; c.arg = at as i64; c.cseed = cap as u64; c.ty = ty;
                    if op.is_in(MANY) { c.indices = if at == 1 { vec![1, n / 2, n - 2] } else if at == n - 2 { (0..n).step_by(7).collect() } else { (0..n).step_by(n / 16).collect() }; }
                    push(c);
                } } } }
            }
        }
        if self.prop == "C16" {
            for n in [254usize, 255, 256, 257, 300] {
                for kw in 0..6 { for op in [Op::SortByCachedKey, Op::ParSortByCachedKey] {
                    if kw == 5 && op != Op::SortByCachedKey { continue; }
                    let mut c = case(op, (0..n).map(|i| if kw == 5 { 0 } else { (mix(i as u64 ^ kw) % 100) as i32 }).collect());
                    c.arg = kw as i64; push(c);
                } }
            }
            for n in [65534usize, 65535, 65536, 65537, 66000] {
                for kw in 0..4 {
                    let mut c = case(Op::SortByCachedKey, (0..n).map(|i| (mix(i as u64 ^ kw) % 250) as i32).collect());
                    c.arg = kw as i64; push(c);
                }
            }
        }
        if ["C14", "C03", "C04", "C15", "C13"].contains(&self.prop.as_str()) {
            for n in [0usize, 1, 2, 3, 7, 8, 9, 11, 20, 21, 49, 50, 51, 100, 300, 1000] {
                for &op in &ops {
                    if op.par() { continue; }
                    let mut c = case(op, vec![0; n]);
                    c.ty = 3;
                    if op.is_in(NTH) { if n == 0 { continue; } c.arg = (n / 2) as i64; }
                    if op.is_in(MANY) { c.indices = (0..n).step_by(3).collect(); }
                    if op.cached() { c.arg = 9; }
                    push(c);
                }
            }
        }
        self.queue = q;
    }
    fn size(&mut self) -> usize {
        let r = &mut self.rng;
        match r.below(100) {
            0..=14 => r.below(13),
            15..=34 => 8 + r.below(18),
            35..=54 => 20 + r.below(80),
            55..=79 => 100 + r.below(300),
            80..=94 => 300 + r.below(900),
            _ => 1000 + r.below(3000),
        }
    }
    fn par_size(&mut self) -> usize {
        let r = &mut self.rng;
        match r.below(100) {
            0..=9 => r.below(40),
            10..=29 => 1500 + r.below(1500),
            30..=59 => 3500 + r.below(3000),
            60..=84 => 5000 + r.below(9000),
            _ => 10000 + r.below(30000),
        }
    }
    fn keys(&mut self, n: usize) -> Vec<i32> {
        let r = &mut self.rng;
        let lim = 30000usize;
        match r.below(20) {
            0 | 1 => (0..n).map(|_| r.below(lim) as i32).collect(),
            2 => { let d = 1 + r.below(4); (0..n).map(|_| r.below(d) as i32).collect() }
            3 => { let d = 2 + r.below(20); (0..n).map(|_| r.below(d) as i32).collect() }
            4 => (0..n as i32).collect(),
            5 => (0..n as i32).rev().collect(),
            6 => { let m = 1 + r.below(n.max(1)); (0..n).map(|i| (i % m) as i32).collect() }
            7 => (0..n).map(|i| i.min(n - i) as i32).collect(),
            8 => (0..n).map(|i| i.max(n - i) as i32).collect(),
            9 => { // natural runs
                let mut v = vec![]; let avg = 1 + r.below(60);
                while v.len() < n {
                    let l = 1 + r.below(2 * avg); let up = r.chance(60); let strict = r.chance(50); let mut x = r.below(1000) as i32;
                    for _ in 0..l { v.push(x); let d = (r.below(4) + strict as usize) as i32; x += if up { d } else { -d }; }
                }
                v.truncate(n); v
            }
            10 => { // nearly sorted
                let mut v: Vec<i32> = (0..n as i32).collect();
                for _ in 0..1 + r.below(6) { let (i, j) = (r.below(n), r.below(n)); if n > 0 { v.swap(i, j); } }
                v
            }
            11 => { let mut v: Vec<i32> = (0..n as i32).rev().collect(); for _ in 0..1 + r.below(6) { let (i, j) = (r.below(n), r.below(n)); if n > 0 { v.swap(i, j); } } v }
            12 => { // two sorted halves, blocks
                let b = 1 + r.below(5); let l = n / b + 1; (0..n).map(|i| ((i % l) * 7 + i / l) as i32).collect()
            }
            13 => { // mostly one value
                let p = 1 + r.below(30); (0..n).map(|_| if r.chance(p) { r.below(50) as i32 } else { 25 }).collect()
            }
            14 => { // sorted with noise appended or prepended
                let t = r.below(20).min(n); let front = r.chance(50);
                let mut v: Vec<i32> = (0..(n - t) as i32).collect();
                for _ in 0..t { let x = r.below(n.max(1)) as i32; if front { v.insert(0, x) } else { v.push(x) } }
                v
            }
            15..=17 => { // pieces of the algorithms' own block sizes, with ties where they meet
                let b = if n > 2000 && r.chance(70) { 2000 } else { r.pick(&[4usize, 8, 10, 11, 20, 21, 32, 50, 64, 128, 256, 500]) };
                let mut v: Vec<i32> = vec![]; let mut kind = r.below(6);
                let sticky = r.pick(&[50usize, 80, 95, 100]);
                let join = r.below(5);
                let last_piece = |v: &Vec<i32>| if v.len() >= b { (v[v.len() - b], v[v.len() - 1]) } else { (10_000, 10_000) };
                while v.len() < n {
                    if !r.chance(sticky) { kind = r.below(6); }
                    let (first, last) = last_piece(&v);
                    let step = if r.chance(50) { 1 } else { 1 + r.below(2) as i32 };
                    // where this piece begins (or ends): tied with, just above or below the piece before it
                    let tie = match if join == 4 { r.below(4) } else { join } { 0 => last, 1 => last + 1, 2 => last - 1, _ => first };
                    let span = (b as i32 - 1) * step;
                    for i in 0..b as i32 {
                        v.push(match kind {
                            0 => tie + i * step,
                            1 => tie - i * step,
                            2 => tie - span + i * step,
                            3 => tie + i / 3,
                            4 => tie - i / 3,
                            _ => tie + r.below(b) as i32,
                        });
                    }
                }
                v.truncate(n); v
            }
            18 => { // run lengths that keep many runs pending
                let mut l = vec![1 + r.below(12), 10 + r.below(5)];
                while l.iter().sum::<usize>() < n { let k = l.len(); let x = l[k - 1] + l[k - 2] + r.below(3); l.push(x); }
                if r.chance(80) { l.reverse(); }
                let mut v = vec![];
                for x in l { let down = r.chance(10); let d = r.below(3) as i32; v.extend((0..x as i32).map(|i| if down { x as i32 - i } else { i + d })); }
                v.truncate(n); v
            }
            _ => { let mut v: Vec<i32> = (0..n as i32).map(|x| x % 30000).collect(); for i in (1..n).rev() { let j = r.below(i + 1); v.swap(i, j); } v }
        }
    }
    pub fn next(&mut self) -> Option<Case> {
        self.count += 1;
        // the queue is interleaved with random cases so that neither starves
        if self.count % 4 != 0 || self.queue.len() < 200 {
            if let Some(c) = self.queue.pop_front() { return Some(c); }
        }
        Some(self.random())
    }
    fn random(&mut self) -> Case {
        let ops = self.ops();
        let mut op = self.rng.pick(&ops);
        if self.prop == "C13" && op.par() && self.rng.chance(85) { op = self.rng.pick(&ops); }
        if self.prop == "C04" && op.par() && self.rng.chance(60) { op = self.rng.pick(&ops); }
        let par = op.par();
        let mut n = if par { self.par_size() } else { self.size() };
        if matches!(self.prop.as_str(), "C04") && !par { n = n.min(1200); }
        if op.is_in(NTH) && self.rng.chance(25) { n = 60 + self.rng.below(1200); }
        let mut keys = self.keys(n);
        let mut arg = 0i64;
        let killer = if self.prop == "C01" || self.prop == "C17" { 12 } else { 8 };
        if (op.is_in(UNSTABLE) || op.is_in(PARUNSTABLE)) && self.rng.chance(killer) { n = n.min(3000); keys = adversary(Op::SortUnstable, n, 0); }
        if op.is_in(NTH) || op.is_in(MANY) || op.is_in(PARMANY) {
            arg = match self.rng.below(10) { 0 => 0, 1 => n as i64 - 1, 2 => 1, 3 => n as i64 - 2, 4 | 5 => (n / 2) as i64, _ => self.rng.below(n) as i64 };
            arg = arg.max(0);
            if n > 2 && self.rng.chance(30) { let n2 = n.min(3000); arg = arg.min(n2 as i64 - 1); keys = adversary(Op::NthBy, n2, arg); n = n2; }
        }
        let mut c = case(op, keys);
        c.arg = arg;
        let r = &mut self.rng;
        c.cseed = r.next() % 1_000_000;
        c.ty = match r.below(10) { 0..=4 => 0, 5..=7 => 1, _ => 2 };
        c.layout = if r.chance(55) { 0 } else { 1 + r.below(5) as u8 };
        if self.prop == "C13" { c.layout = 1 + r.below(5) as u8; }
        c.threads = r.pick(&[1, 2, 3, 4, 8]);
        c.mode = if r.chance(15) { 1 } else { 0 };
        let weird = match self.prop.as_str() { "C03" => 60, "C14" | "C15" => 60, "C13" => 40, "C04" => 25, "C07" => 40, "C08" | "C09" | "C10" => 50, _ => 0 };
        if r.chance(weird) { c.mode = r.pick(&[2, 2, 3, 4, 5, 6, 7, 7, 9, 10, 10, 11, 11]); }
        if op == Op::Contains { c.mode = 0; }
        if op.par() && (c.mode > 1) { c.mode = 0; }
        if op.cached() {
            if c.mode > 1 { c.mode = 0; }
            c.mode = 0;
            c.arg = r.pick(&[0, 1, 2, 3, 4, 5, 9, 9]);
            if op.par() && c.arg == 5 { c.arg = 9; }
            if c.arg < 5 { let m = if c.arg == 0 { 256 } else { 1 << 15 }; for k in &mut c.keys { *k = k.rem_euclid(m); } }
            if c.arg == 5 { for k in &mut c.keys { *k = 0; } }
            if c.arg == 9 && r.chance(20) { c.mode = 1; }
        }
        if op.is_in(NTH) && self.prop == "C07" && r.chance(40) { c.arg = n as i64 + r.pick(&[0, 1, 2, 5, 100, i64::MAX / 2 - 100_000]); }
        if op.is_in(MANY) || op.is_in(PARMANY) {
            let d = r.pick(&[1usize, 2, 3, 10, 50, 100]);
            let mut ix: Vec<usize> = if r.chance(30) { let mut x: Vec<usize> = (0..r.below(6)).map(|_| r.below(n.max(1))).collect(); x.sort(); x.dedup(); x } else { (0..n).filter(|_| r.below(100) < d).collect() };
            if n == 0 { ix.clear(); }
            if r.chance(40) && n > 0 && !ix.contains(&(c.arg as usize)) && (c.arg as usize) < n { ix.push(c.arg as usize); ix.sort(); }
            if r.chance(8) { ix = (0..n).collect(); }
            let bad = if self.prop == "C07" { 45 } else if self.prop == "C12" { 15 } else { 0 };
            if r.chance(bad) && !ix.is_empty() {
                match r.below(5) {
                    0 => { let i = r.below(ix.len()); let x = ix[i]; ix.insert(i, x); }
                    1 => { let (i, j) = (r.below(ix.len()), r.below(ix.len())); ix.swap(i, j); }
                    2 => { let l = ix.len(); let i = r.below(l); ix[i] = n + r.below(3); }
                    3 => ix.push(n + r.below(2)),
                    _ => ix.reverse(),
                }
            }
            c.indices = ix;
        }
        if op.is_in(SEARCH) || op == Op::Contains {
            c.arg = if r.chance(70) && n > 0 { c.keys[r.below(n)] as i64 } else { r.below(60) as i64 - 5 };
            if r.chance(10) { c.arg = -31_000; } if r.chance(10) { c.arg = 31_000; }
            if op.is_in(SEARCH) { if c.mode == 1 { c.keys.sort_by(|a, b| b.cmp(a)); } else if c.mode == 0 { c.keys.sort(); } }
        }
        if op.is_in(DEFS) && op != Op::Contains && op != Op::Reverse && r.chance(60) {
            c.keys.sort();
            if r.chance(50) && n > 1 { let i = r.below(n); c.keys[i] -= 1; }
            if r.chance(30) && n > 1 { c.keys[n - 1] -= 1; }
        }
        if op.is_in(DEDUP) && r.chance(60) { c.keys.sort(); }
        if c.ty == 1 && c.keys.len() > 20000 { c.ty = 0; }
        if c.ty == 1 { for k in &mut c.keys { *k = (*k).clamp(-30000, 30000); } }
        c
    }
    /// what one base case stands for: for panic safety, the same case panicking at each call
    pub fn expand(&mut self, base: Case) -> Vec<Case> {
        let panics = match self.prop.as_str() { "C04" => true, "C13" | "C15" => self.rng.chance(25), _ => false };
        if !panics { return vec![base]; }
        let total = judge(&base, "").calls;
        if total == 0 { return vec![base]; }
        let cap = if base.op.par() { 6 } else if base.keys.len() <= 6 { 64 } else { 12 };
        let mut at: Vec<u64> = if total <= cap { (0..total).collect() } else { (0..cap).map(|i| if i == 0 { total - 1 } else { self.rng.next() % total }).collect() };
        at.sort(); at.dedup();
        let mut v = vec![];
        if self.prop != "C04" { v.push(base.clone()); }
        for p in at { let mut c = base.clone(); c.panic_at = p; v.push(c); }
        v
    }
}

/// A smaller case with the same kind of failure, within the time given.
pub fn shrink(c: Case, m: String, prop: &str, t: Duration) -> (Case, String) {
    let start = Instant::now();
    let (mut best, mut msg) = (c, m);
    if best.mode == 8 { return (best, msg); }
    let mut step = (best.keys.len() / 2).max(1);
    while start.elapsed() < t {
        let mut any = false;
        let mut i = 0;
        while i < best.keys.len() && start.elapsed() < t {
            let mut d = best.clone();
            let e = (i + step).min(d.keys.len());
            d.keys.drain(i..e);
            let n = d.keys.len();
            if d.op.is_in(NTH) && (best.arg as usize) < best.keys.len() { d.arg = d.arg.min(n as i64 - 1).max(0); if n == 0 { i += step; continue; } }
            if d.op.is_in(MANY) || d.op.is_in(PARMANY) { let ok = best.indices.iter().all(|x| *x < best.keys.len()); if ok { d.indices.retain(|x| *x < n); } }
            // a crash or hang here would lose the report: only cheap checks on cases like the first
            let o = judge(&d, prop);
            if let Some((_, m)) = o.fails.iter().find(|(p, _)| *p == prop) { best = d; msg = m.clone(); any = true; } else { i += step; }
        }
        if step == 1 && !any { break; }
        step = (step / 2).max(1);
    }
    (best, msg)
}
