# merge_sort.rs, stable_sort.rs
verus{
/// What the array becomes when the cells b[from..to) are copied to d.
pub open spec fn fill<T>(s: Seq<T>, b: Seq<T>, d: int, from: int, to: int) -> Seq<T> {
    Seq::new(s.len(), |i: int| if d <= i < d + (to - from) { b[from + i - d] } else { s[i] })
}
/// Taking s[r] before the buffered elements instead of after them.
pub proof fn lemma_fill_fwd<T>(s: Seq<T>, b: Seq<T>, d: int, from: int, to: int)
    requires 0 <= d, 0 <= from < to <= b.len(), d + (to - from) < s.len()
    ensures perm(fill(s, b, d, from, to), fill(s.update(d, s[d + (to - from)]), b, d + 1, from, to))
{
    let r = d + (to - from);
    let x = fill(s, b, d, from, to);
    let y = fill(s.update(d, s[r]), b, d + 1, from, to);
    let p = s.subrange(0, d);
    let m = b.subrange(from, to);
    let q = s.subrange(r + 1, s.len() as int);
    assert(x =~= p + (m + seq![s[r]]) + q);
    assert(y =~= p + (seq![s[r]] + m) + q);
    lemma_ms_mid(p, m + seq![s[r]], seq![s[r]] + m, q, m, seq![s[r]]);
}
/// Taking s[d-1] after the buffered elements instead of before them.
pub proof fn lemma_fill_bwd<T>(s: Seq<T>, b: Seq<T>, d: int, from: int, to: int)
    requires 0 < d, 0 <= from < to <= b.len(), d + (to - from) <= s.len()
    ensures perm(fill(s, b, d, from, to), fill(s.update(d - 1 + (to - from), s[d - 1]), b, d - 1, from, to))
{
    let r = d + (to - from);
    let x = fill(s, b, d, from, to);
    let y = fill(s.update(r - 1, s[d - 1]), b, d - 1, from, to);
    let p = s.subrange(0, d - 1);
    let m = b.subrange(from, to);
    let q = s.subrange(r, s.len() as int);
    assert(x =~= p + (seq![s[d - 1]] + m) + q);
    assert(y =~= p + (m + seq![s[d - 1]]) + q);
    lemma_ms_mid(p, seq![s[d - 1]] + m, m + seq![s[d - 1]], q, seq![s[d - 1]], m);
}
pub proof fn lemma_ms_mid<T>(p: Seq<T>, x: Seq<T>, y: Seq<T>, q: Seq<T>, a: Seq<T>, b: Seq<T>)
    requires x == a + b, y == b + a
    ensures perm(p + x + q, p + y + q)
{
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(b, a);
    vstd::seq_lib::lemma_multiset_commutative(p, x);
    vstd::seq_lib::lemma_multiset_commutative(p, y);
    vstd::seq_lib::lemma_multiset_commutative(p + x, q);
    vstd::seq_lib::lemma_multiset_commutative(p + y, q);
    assert(ms(p + x + q) =~= ms(p + y + q));
}
/// Everything before position b carries ranks at most those from b on.
pub open spec fn xr<T>(g: CmpG<T>, s: Seq<T>, lo: int, b: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < b <= j < hi ==> (g.rank)(s[i]) <= (g.rank)(s[j])
}
}verus
fn merge_sort::merge::MergeHole::drop, par::merge_sort::merge::MergeHole::drop
requires self_.start <= self_.end, self_.dest + (self_.end - self_.start) <= self_.v.len
requires hok(bp0, self_.buf), self_.buf.off + self_.end <= self_.buf.cap
requires forall|k: int| #![trigger bp0[self_.buf.blk][k]] self_.buf.off + self_.start <= k < self_.buf.off + self_.end ==> bp0[self_.buf.blk][k] is Some
requires self_.v.base + self_.v.len <= hp0.len()
ensures hp1 == fill(hp0, cells(bp0, self_.buf), self_.v.base + self_.dest, self_.start as int, self_.end as int)
inv 1 hp@ == fill(hp0, cells(bp0, self_.buf), self_.v.base + self_.dest, self_.start as int, self_.start + i)
at loop 1 before: assert(hp@ =~= fill(hp0, cells(bp0, self_.buf), self_.v.base + self_.dest, self_.start as int, self_.start as int))
at loop 1 begin: let ghost hp_b = hp@
at loop 1 end: assert(hp@ =~= fill(hp0, cells(bp0, self_.buf), self_.v.base + self_.dest, self_.start as int, self_.start + i + 1))

fn merge_sort::merge, par::merge_sort::merge
requires 0 < mid < v.len
requires hok(bp0, buf), buf.off + mid <= buf.cap || buf.off + (v.len - mid) <= buf.cap
requires buf.off + mid <= buf.cap || v.len - mid < mid, buf.off + (v.len - mid) <= buf.cap || mid <= v.len - mid
conserve v
ensures bp1.contains_key(buf.blk) && bp1[buf.blk].len() == buf.cap && bp1 == bp0.insert(buf.blk, bp1[buf.blk])
ensures[O] ok: merge_pre(g, hp0, v.lo(), v.lo() + mid, v.hi()) ==> sorted(g, hp1, v.lo(), v.hi())
iso 1
inv 1 i__end == mid, 0 < mid < v.len, len == v.len, buf.off + mid <= buf.cap, hok(bp@, buf), bp@ == bp0.insert(buf.blk, bp@[buf.blk]), hp@ == hp0
inv 1 forall|k: int| #![trigger bp@[buf.blk][k]] buf.off <= k < buf.off + i ==> bp@[buf.blk][k] == Some(hp0[v.base + k - buf.off])
at loop 1 begin: let ghost bp_b = bp@
at loop 1 end: assert(bp@ =~= bp0.insert(buf.blk, bp@[buf.blk]))
at let right 1: let ghost bs = cells(bp@, buf)
at let right 1: assert(fill(hp@, bs, v.lo(), 0, mid as int) =~= hp0)
at let right 1: assert(forall|k: int| #![trigger bs[k]] 0 <= k < mid ==> bs[k] == hp0[v.base + k])
iso 2
inv 2 0 < mid < v.len, buf.off + mid <= buf.cap, bs.len() == buf.cap - buf.off, hok(bp@, buf), bp@ == bp0.insert(buf.blk, bp@[buf.blk]), bs == cells(bp@, buf)
inv 2 forall|k: int| #![trigger bp@[buf.blk][k]] buf.off <= k < buf.off + mid ==> bp@[buf.blk][k] is Some
inv 2 hole.buf == buf, hole.v == v, hole.end == mid, hole.start <= mid <= right <= len, len == v.len, hole.dest + (mid - hole.start) == right
inv 2[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 2[C03,C04] perm(hp0, fill(hp@, bs, v.base + hole.dest, hole.start as int, mid as int))
inv 2[O] merge_pre(g, hp0, v.lo(), v.lo() + mid, v.hi()) ==> fwd(g, hp@, bs, v.lo(), v.lo() + hole.dest, hole.start as int, mid as int, v.lo() + right, v.hi())
dec 2 hole.end - hole.start, len - right
at loop 2 begin: let ghost (hp_b, hole_b, right_b) = (hp@, hole, right)
at loop 2 end: assert(hole.start == hole_b.start ==> hp@ == hp_b.update(v.base + hole_b.dest, hp_b[v.base + right_b])); assert(hole.start != hole_b.start ==> hp@ == hp_b.update(v.base + hole_b.dest, bs[hole_b.start as int]))
at[O] let right 1: if merge_pre(g, hp0, v.lo(), v.lo() + mid, v.hi()) { lemma_fwd_init(g, hp0, bs, v.lo(), v.lo() + mid, v.hi()); }
at[O] loop 2 end: if merge_pre(g, hp0, v.lo(), v.lo() + mid, v.hi()) { if hole.start == hole_b.start { lemma_fwd_right(g, hp_b, bs, v.lo(), v.lo() + hole_b.dest, hole_b.start as int, mid as int, v.lo() + right_b, v.hi()); } else { lemma_fwd_left(g, hp_b, bs, v.lo(), v.lo() + hole_b.dest, hole_b.start as int, mid as int, v.lo() + right_b, v.hi()); } }
at[O] loop 2 after: if merge_pre(g, hp0, v.lo(), v.lo() + mid, v.hi()) { lemma_fwd_done(g, hp@, bs, v.lo(), v.lo() + hole.dest, hole.start as int, mid as int, v.lo() + right, v.hi()); }
at[C03,C04] loop 2 end: if hole.start == hole_b.start { lemma_fill_fwd(hp_b, bs, v.base + hole_b.dest, hole_b.start as int, mid as int); } else { assert(fill(hp@, bs, v.base + hole.dest, hole.start as int, mid as int) =~= fill(hp_b, bs, v.base + hole_b.dest, hole_b.start as int, mid as int)); }
iso 3
inv 3 i__end == len - mid, 0 < mid < v.len, len == v.len, buf.off + (len - mid) <= buf.cap, hok(bp@, buf), bp@ == bp0.insert(buf.blk, bp@[buf.blk]), hp@ == hp0
inv 3 forall|k: int| #![trigger bp@[buf.blk][k]] buf.off <= k < buf.off + i ==> bp@[buf.blk][k] == Some(hp0[v.base + mid + k - buf.off])
at loop 3 begin: let ghost bp_b = bp@
at loop 3 end: assert(bp@ =~= bp0.insert(buf.blk, bp@[buf.blk]))
at let out 1: let ghost bs = cells(bp@, buf)
at let out 1: assert(fill(hp@, bs, v.lo() + mid, 0, len - mid) =~= hp0)
at let out 1: assert(forall|k: int| #![trigger bs[k]] 0 <= k < len - mid ==> bs[k] == hp0[v.base + mid + k])
iso 4
inv 4 0 < mid < v.len, buf.off + (v.len - mid) <= buf.cap, bs.len() == buf.cap - buf.off, hok(bp@, buf), bp@ == bp0.insert(buf.blk, bp@[buf.blk]), bs == cells(bp@, buf)
inv 4 forall|k: int| #![trigger bp@[buf.blk][k]] buf.off <= k < buf.off + (len - mid) ==> bp@[buf.blk][k] is Some
inv 4 hole.buf == buf, hole.v == v, hole.start == 0, hole.end <= len - mid, hole.dest <= mid, len == v.len, hole.dest + hole.end == out
inv 4[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 4[C03,C04] perm(hp0, fill(hp@, bs, v.base + hole.dest, 0, hole.end as int))
inv 4[O] merge_pre(g, hp0, v.lo(), v.lo() + mid, v.hi()) ==> bwd(g, hp@, bs, v.lo(), v.lo() + hole.dest, hole.end as int, v.lo() + out, v.hi())
dec 4 hole.end, hole.dest
at loop 4 begin: let ghost (hp_b, hole_b, out_b) = (hp@, hole, out)
at loop 4 end: assert(hole.end == hole_b.end ==> hp@ == hp_b.update(v.base + out, hp_b[v.base + hole.dest])); assert(hole.end != hole_b.end ==> hp@ == hp_b.update(v.base + out, bs[hole.end as int]))
at[O] let out 1: if merge_pre(g, hp0, v.lo(), v.lo() + mid, v.hi()) { lemma_bwd_init(g, hp0, bs, v.lo(), v.lo() + mid, v.hi()); }
at[O] loop 4 end: if merge_pre(g, hp0, v.lo(), v.lo() + mid, v.hi()) { if hole.end == hole_b.end { lemma_bwd_left(g, hp_b, bs, v.lo(), v.lo() + hole_b.dest, hole_b.end as int, v.lo() + out_b, v.hi()); } else { lemma_bwd_right(g, hp_b, bs, v.lo(), v.lo() + hole_b.dest, hole_b.end as int, v.lo() + out_b, v.hi()); } }
at[O] loop 4 after: if merge_pre(g, hp0, v.lo(), v.lo() + mid, v.hi()) { lemma_bwd_done(g, hp@, bs, v.lo(), v.lo() + hole.dest, hole.end as int, v.lo() + out, v.hi()); }
at[C03,C04] loop 4 end: if hole.end == hole_b.end { lemma_fill_bwd(hp_b, bs, v.base + hole_b.dest, 0, hole_b.end as int); } else { assert(fill(hp@, bs, v.base + hole.dest, 0, hole.end as int) =~= fill(hp_b, bs, v.base + hole_b.dest, 0, hole_b.end as int)); }

verus{
pub open spec fn cells<T>(h: Map<usize, Seq<Option<T>>>, p: HPtr) -> Seq<T> {
    Seq::new((p.cap - p.off) as nat, |i: int| h[p.blk][p.off + i]->Some_0)
}
}verus
verus{ O
/// Forward merging: [lo,d) is done, b[from..to) and s[r..hi) remain.
#[verifier::opaque]
pub open spec fn fwd<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, d: int, from: int, to: int, r: int, hi: int) -> bool {
    &&& sorted(g, s, lo, d)
    &&& sorted(g, s, r, hi)
    &&& sorted(g, b, from, to)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < d && r <= j < hi ==> le(g, s[i], s[j])
    &&& forall|i: int, j: int| #![trigger s[i], b[j]] lo <= i < d && from <= j < to ==> le(g, s[i], b[j])
    &&& forall|i: int, j: int| #![trigger b[i], s[j]] from <= i < to && r <= j < hi ==> (g.rank)(b[i]) <= (g.rank)(s[j])
}
/// Backward merging: [d,hi) is done, s[lo..l) and b[0..to) remain.
#[verifier::opaque]
pub open spec fn bwd<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, l: int, to: int, d: int, hi: int) -> bool {
    &&& sorted(g, s, d, hi)
    &&& sorted(g, s, lo, l)
    &&& sorted(g, b, 0, to)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < l && d <= j < hi ==> le(g, s[i], s[j])
    &&& forall|i: int, j: int| #![trigger b[i], s[j]] 0 <= i < to && d <= j < hi ==> le(g, b[i], s[j])
    &&& forall|i: int, j: int| #![trigger s[i], b[j]] lo <= i < l && 0 <= j < to ==> (g.rank)(s[i]) <= (g.rank)(b[j])
}
/// The precondition of a stable merge of [lo,m) and [m,hi).
pub open spec fn merge_pre<T>(g: CmpG<T>, s: Seq<T>, lo: int, m: int, hi: int) -> bool {
    g.ok && sorted(g, s, lo, m) && sorted(g, s, m, hi) && xr(g, s, lo, m, hi)
}
pub proof fn lemma_fwd_init<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, m: int, hi: int)
    requires 0 <= lo, merge_pre(g, s, lo, m, hi), forall|k: int| #![trigger b[k]] 0 <= k < m - lo ==> b[k] == s[lo + k]
    ensures fwd(g, s, b, lo, lo, 0, m - lo, m, hi)
{
    reveal(fwd);
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < m - lo implies le(g, b[i], b[j]) by { assert(le(g, s[lo + i], s[lo + j])); }
    assert forall|i: int, j: int| #![trigger b[i], s[j]] 0 <= i < m - lo && m <= j < hi implies (g.rank)(b[i]) <= (g.rank)(s[j]) by { assert((g.rank)(s[lo + i]) <= (g.rank)(s[j])); }
}
pub proof fn lemma_fwd_right<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, d: int, from: int, to: int, r: int, hi: int)
    requires fwd(g, s, b, lo, d, from, to, r, hi), 0 <= lo <= d < r < hi <= s.len(), from < to, lt(g, s[r], b[from])
    ensures fwd(g, s.update(d, s[r]), b, lo, d + 1, from, to, r + 1, hi)
{
    reveal(fwd);
    let t = s.update(d, s[r]);
    assert forall|j: int| #![trigger b[j]] from <= j < to implies le(g, s[r], b[j]) by { if j > from { assert(le(g, b[from], b[j])); } }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] lo <= i < d + 1 && r + 1 <= j < hi implies le(g, t[i], t[j]) by { assert(le(g, s[r], s[j])); }
}
pub proof fn lemma_fwd_left<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, d: int, from: int, to: int, r: int, hi: int)
    requires fwd(g, s, b, lo, d, from, to, r, hi), 0 <= lo <= d < r < hi <= s.len(), from < to, !lt(g, s[r], b[from])
    ensures fwd(g, s.update(d, b[from]), b, lo, d + 1, from + 1, to, r, hi)
{
    reveal(fwd);
    let t = s.update(d, b[from]);
    assert forall|j: int| #![trigger s[j]] r <= j < hi implies le(g, b[from], s[j]) by { if j > r { assert(le(g, s[r], s[j])); } assert((g.rank)(b[from]) <= (g.rank)(s[j])); }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] lo <= i < d + 1 && r <= j < hi implies le(g, t[i], t[j]) by { }
    assert forall|i: int, j: int| #![trigger t[i], b[j]] lo <= i < d + 1 && from + 1 <= j < to implies le(g, t[i], b[j]) by { if i == d { assert(le(g, b[from], b[j])); } }
}
pub proof fn lemma_fwd_done<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, d: int, from: int, to: int, r: int, hi: int)
    requires fwd(g, s, b, lo, d, from, to, r, hi), 0 <= lo <= d, from <= to, d + (to - from) == r, r <= hi <= s.len(), from == to || r == hi
    ensures sorted(g, fill(s, b, d, from, to), lo, hi)
{
    reveal(fwd);
    let t = fill(s, b, d, from, to);
    assert forall|i: int, j: int| #![trigger t[i], t[j]] lo <= i < j < hi implies le(g, t[i], t[j]) by {
        if i >= d && from < to { assert(le(g, b[from + i - d], b[from + j - d])); }
        else if i >= d { assert(le(g, s[i], s[j])); }
        else if j < d { assert(le(g, s[i], s[j])); }
        else if j < r { assert(le(g, s[i], b[from + j - d])); }
        else { assert(le(g, s[i], s[j])); }
    }
}
pub proof fn lemma_bwd_init<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, m: int, hi: int)
    requires 0 <= lo, merge_pre(g, s, lo, m, hi), forall|k: int| #![trigger b[k]] 0 <= k < hi - m ==> b[k] == s[m + k]
    ensures bwd(g, s, b, lo, m, hi - m, hi, hi)
{
    reveal(bwd);
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < hi - m implies le(g, b[i], b[j]) by { assert(le(g, s[m + i], s[m + j])); }
    assert forall|i: int, j: int| #![trigger s[i], b[j]] lo <= i < m && 0 <= j < hi - m implies (g.rank)(s[i]) <= (g.rank)(b[j]) by { assert((g.rank)(s[i]) <= (g.rank)(s[m + j])); }
}
pub proof fn lemma_bwd_left<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, l: int, to: int, d: int, hi: int)
    requires bwd(g, s, b, lo, l, to, d, hi), 0 <= lo < l < d <= hi <= s.len(), 0 < to, lt(g, b[to - 1], s[l - 1])
    ensures bwd(g, s.update(d - 1, s[l - 1]), b, lo, l - 1, to, d - 1, hi)
{
    reveal(bwd);
    let t = s.update(d - 1, s[l - 1]);
    assert forall|i: int| #![trigger b[i]] 0 <= i < to implies le(g, b[i], s[l - 1]) by { if i < to - 1 { assert(le(g, b[i], b[to - 1])); } }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] d - 1 <= i < j < hi implies le(g, t[i], t[j]) by { assert(le(g, s[l - 1], s[j])); }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] lo <= i < l - 1 && d - 1 <= j < hi implies le(g, t[i], t[j]) by { assert(le(g, s[i], s[l - 1])); if j > d - 1 { assert(le(g, s[i], s[j])); } }
    assert forall|i: int, j: int| #![trigger b[i], t[j]] 0 <= i < to && d - 1 <= j < hi implies le(g, b[i], t[j]) by { if j > d - 1 { assert(le(g, b[i], s[j])); } }
}
pub proof fn lemma_bwd_right<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, l: int, to: int, d: int, hi: int)
    requires bwd(g, s, b, lo, l, to, d, hi), 0 <= lo < l < d <= hi <= s.len(), 0 < to, !lt(g, b[to - 1], s[l - 1])
    ensures bwd(g, s.update(d - 1, b[to - 1]), b, lo, l, to - 1, d - 1, hi)
{
    reveal(bwd);
    let t = s.update(d - 1, b[to - 1]);
    assert forall|i: int| #![trigger s[i]] lo <= i < l implies le(g, s[i], b[to - 1]) by { if i < l - 1 { assert(le(g, s[i], s[l - 1])); } assert((g.rank)(s[i]) <= (g.rank)(b[to - 1])); }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] d - 1 <= i < j < hi implies le(g, t[i], t[j]) by { assert(le(g, b[to - 1], s[j])); }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] lo <= i < l && d - 1 <= j < hi implies le(g, t[i], t[j]) by { if j > d - 1 { assert(le(g, s[i], s[j])); } }
    assert forall|i: int, j: int| #![trigger b[i], t[j]] 0 <= i < to - 1 && d - 1 <= j < hi implies le(g, b[i], t[j]) by { if j > d - 1 { assert(le(g, b[i], s[j])); } else { assert(le(g, b[i], b[to - 1])); } }
}
pub proof fn lemma_bwd_done<T>(g: CmpG<T>, s: Seq<T>, b: Seq<T>, lo: int, l: int, to: int, d: int, hi: int)
    requires bwd(g, s, b, lo, l, to, d, hi), 0 <= lo <= l, 0 <= to, l + to == d, d <= hi <= s.len(), l == lo || to == 0
    ensures sorted(g, fill(s, b, l, 0, to), lo, hi)
{
    reveal(bwd);
    let t = fill(s, b, l, 0, to);
    assert forall|i: int, j: int| #![trigger t[i], t[j]] lo <= i < j < hi implies le(g, t[i], t[j]) by {
        if j < d && to > 0 { assert(le(g, b[i - l], b[j - l])); }
        else if i >= l && i < d { assert(le(g, b[i - l], s[j])); }
        else { assert(le(g, s[i], s[j])); }
    }
}
}verus
fn merge_sort::merge_sort::BufGuard::new, par::merge_sort::par_merge_sort::BufGuard::new
requires len * esize::<T>() > 0, len * esize::<T>() <= isize::MAX
ensures res is Ok
ensures ok: !bp0.contains_key(r.buf_ptr.blk) && r.buf_ptr.off == 0 && r.buf_ptr.cap == len && r.capacity == len
ensures ok: bp1 == bp0.insert(r.buf_ptr.blk, Seq::new(len as nat, |i: int| None))

fn merge_sort::merge_sort::BufGuard::drop, par::merge_sort::par_merge_sort::BufGuard::drop
requires bp0.contains_key(self_.buf_ptr.blk), self_.buf_ptr.off == 0, self_.buf_ptr.cap == self_.capacity, bp0[self_.buf_ptr.blk].len() == self_.capacity
ensures bp1 == bp0.remove(self_.buf_ptr.blk)

fn merge_sort::merge_sort::RunVec::new
at entry: axiom_run_size()
ensures ok: r.len == 0 && !rp0.contains_key(r.buf_ptr.blk) && rp1 == rp0.insert(r.buf_ptr.blk, rp1[r.buf_ptr.blk]) && rv_ok(rp1, r)

fn merge_sort::merge_sort::RunVec::drop
requires rv_ok(rp0, *self_)
ensures rp1 == rp0.remove(self_.buf_ptr.blk)

fn merge_sort::merge_sort::RunVec::as_slice
requires rv_ok(rp0, *self_)
ensures ok: r.p == self_.buf_ptr && r.n == self_.len

fn merge_sort::merge_sort::RunVec::len
ensures ok: r == self_.len

fn merge_sort::merge_sort::RunVec::index
requires self_.len <= self_.capacity, self_.buf_ptr.off == 0, self_.buf_ptr.cap == self_.capacity
ensures index < self_.len ==> res is Ok
ensures ok: index < self_.len && r.blk == self_.buf_ptr.blk && r.off == index && r.cap == self_.capacity

fn merge_sort::merge_sort::RunVec::index_mut
requires self0.len <= self0.capacity, self0.buf_ptr.off == 0, self0.buf_ptr.cap == self0.capacity
ensures index < self0.len ==> res is Ok
ensures *self1 == *self0
ensures ok: index < self0.len && r.blk == self0.buf_ptr.blk && r.off == index && r.cap == self0.capacity

fn merge_sort::merge_sort::RunVec::push
requires rv_ok(rp0, *self0), self0.len <= 200
at entry: axiom_run_size()
ensures rv_ok(rp1, *self1), rv_seq(rp1, *self1) == rv_seq(rp0, *self0).push(val)
ensures self1.buf_ptr.blk == self0.buf_ptr.blk || !rp0.contains_key(self1.buf_ptr.blk)
ensures rp1 == rp0.remove(self0.buf_ptr.blk).insert(self1.buf_ptr.blk, rp1[self1.buf_ptr.blk])
at tail: assert(rv_seq(rp@, *self_) =~= rv_seq(rp0, self0).push(val)); assert(rp@ =~= rp0.remove(self0.buf_ptr.blk).insert(self_.buf_ptr.blk, rp@[self_.buf_ptr.blk]))

fn merge_sort::merge_sort::RunVec::remove
requires rv_ok(rp0, *self0), index < self0.len
ensures res is Ok
ensures rv_ok(rp1, *self1), rv_seq(rp1, *self1) == rv_seq(rp0, *self0).remove(index as int)
ensures self1.buf_ptr.blk == self0.buf_ptr.blk
ensures rp1 == rp0.insert(self0.buf_ptr.blk, rp1[self1.buf_ptr.blk])
at tail: assert(rv_seq(rp@, *self_) =~= rv_seq(rp0, self0).remove(index as int)); assert(rp@ =~= rp0.insert(self0.buf_ptr.blk, rp@[self_.buf_ptr.blk]))

fn merge_sort::merge_sort::collapse
requires hok(rp0, runs.p), runs.p.off + runs.n <= runs.p.cap
requires forall|k: int| #![trigger rp0[runs.p.blk][k]] runs.p.off <= k < runs.p.off + runs.n ==> rp0[runs.p.blk][k] is Some
requires tiled(hs_seq(rp0, runs))
at entry: let ghost ss = hs_seq(rp0, runs)
at entry: assert(runs.n >= 1 ==> rp0[runs.p.blk][runs.p.off + runs.n - 1]->Some_0 == ss[runs.n - 1]); assert(runs.n >= 2 ==> rp0[runs.p.blk][runs.p.off + runs.n - 2]->Some_0 == ss[runs.n - 2]); assert(runs.n >= 3 ==> rp0[runs.p.blk][runs.p.off + runs.n - 3]->Some_0 == ss[runs.n - 3]); assert(runs.n >= 4 ==> rp0[runs.p.blk][runs.p.off + runs.n - 4]->Some_0 == ss[runs.n - 4])
ensures ok: r is Some ==> runs.n >= 2 && (r->Some_0 == runs.n - 2 || (runs.n >= 3 && r->Some_0 == runs.n - 3))
ensures ok: r is None ==> settled(hs_seq(rp0, runs), stop as int)

fn merge_sort::find_streak, par::merge_sort::find_streak
ensures ok: r.0 <= v.len && (v.len >= 1 ==> r.0 >= 1)
ensures[O] ok: g.ok && !r.1 && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> sorted(g, hp0, v.lo(), v.lo() + r.0)
ensures[O] ok: g.ok && r.1 ==> falling(g, hp0, v.lo(), v.lo() + r.0)
inv 1 2 <= end <= len, len == v.len
inv 1[O] g.ok && lt(g, hp0[v.lo() + 1], hp0[v.lo()]) ==> falling(g, hp0, v.lo(), v.lo() + end)
inv 1[O] g.ok && !lt(g, hp0[v.lo() + 1], hp0[v.lo()]) && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> sorted(g, hp0, v.lo(), v.lo() + end)
dec 1 len - end
inv 2 2 <= end <= len, len == v.len
inv 2[O] g.ok && lt(g, hp0[v.lo() + 1], hp0[v.lo()]) ==> falling(g, hp0, v.lo(), v.lo() + end)
inv 2[O] g.ok && !lt(g, hp0[v.lo() + 1], hp0[v.lo()]) && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> sorted(g, hp0, v.lo(), v.lo() + end)
dec 2 len - end

fn merge_sort::provide_sorted_batch, par::merge_sort::provide_sorted_batch
requires start <= end <= v.len
ensures ok: end <= r <= v.len
ensures[C03] ok: perm(hp0, hp1)
ensures[C04] err: perm(hp0, hp1)
ensures[C13] frame(hp0, hp1, v.lo() + start, v.hi())
ensures ok: frame(hp0, hp1, v.lo() + start, v.lo() + r)
ensures[O] ok: g.ok && sorted(g, hp0, v.lo() + start, v.lo() + end) && ranked(g, hp0, v.lo(), v.lo() + end, v.hi()) ==> sorted(g, hp1, v.lo() + start, v.lo() + r)

verus{ O
pub open spec fn falling<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi ==> lt(g, s[j], s[i])
}
}verus
verus{
pub axiom fn axiom_run_size()
    ensures esize::<merge_sort__TimSortRun>() == 16;
pub open spec fn rv_ok(h: Map<usize, Seq<Option<merge_sort__TimSortRun>>>, r: merge_sort__merge_sort__RunVec) -> bool {
    &&& hok(h, r.buf_ptr) && r.buf_ptr.off == 0 && r.buf_ptr.cap == r.capacity
    &&& 16 <= r.capacity <= 1000 && r.len <= r.capacity
    &&& forall|k: int| #![trigger h[r.buf_ptr.blk][k]] 0 <= k < r.len ==> h[r.buf_ptr.blk][k] is Some
}
pub open spec fn rv_seq(h: Map<usize, Seq<Option<merge_sort__TimSortRun>>>, r: merge_sort__merge_sort__RunVec) -> Seq<merge_sort__TimSortRun> {
    Seq::new(r.len as nat, |k: int| h[r.buf_ptr.blk][k]->Some_0)
}
pub open spec fn hs_seq(h: Map<usize, Seq<Option<merge_sort__TimSortRun>>>, r: HSlice) -> Seq<merge_sort__TimSortRun> {
    Seq::new(r.n as nat, |k: int| h[r.p.blk][r.p.off + k]->Some_0)
}
/// Non-empty runs, each starting where the one before it ends, the first at 0.
pub open spec fn tiled(s: Seq<merge_sort__TimSortRun>) -> bool {
    &&& s.len() > 0 ==> s[0].start == 0
    &&& forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].len >= 1 && s[k].start + s[k].len <= isize::MAX
    &&& forall|k: int| #![trigger s[k]] 0 < k < s.len() ==> s[k].start == s[k - 1].start + s[k - 1].len
}
/// What a run stack that needs no merge looks like at the top.
pub open spec fn settled(s: Seq<merge_sort__TimSortRun>, stop: int) -> bool {
    let n = s.len() as int;
    n >= 2 ==> {
        &&& s[n - 1].start + s[n - 1].len != stop
        &&& s[n - 2].len > s[n - 1].len
        &&& n >= 3 ==> s[n - 3].len > s[n - 2].len + s[n - 1].len
        &&& n >= 4 ==> s[n - 4].len > s[n - 3].len + s[n - 2].len
    }
}
}verus

fn merge_sort::merge_sort
requires esize::<T>() > 0
conserve v
ensures[C15] bp1 == bp0, rp1 == rp0
ensures[O] ok: g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> sorted(g, hp1, v.lo(), v.hi())
at entry: axiom_mem_bytes(*hp)
at before new 1: assert((len / 2) as usize * esize::<T>() <= hp@.len() * esize::<T>()) by (nonlinear_arith) requires len / 2 <= hp@.len(), esize::<T>() >= 0; assert((len / 2) as usize * esize::<T>() > 0) by (nonlinear_arith) requires len / 2 > 0, esize::<T>() > 0
at loop 1 before: assert(bp@ =~= bp0.insert(buf.buf_ptr.blk, bp@[buf.buf_ptr.blk]))
at[O] loop 1 before: lemma_ms_init(g, hp@, v.lo(), v.hi())
at loop 1 before: assert(rv_seq(rp@, runs) =~= Seq::empty()); lemma_tim_empty()
iso 1
inv 1 v == v_in, len == v.len, 20 < len, start == end, end <= len
inv 1 buf_ptr == buf.buf_ptr, buf.capacity == len / 2, bufok(bp0, bp@, buf)
inv 1 rv_ok(rp@, runs), !rp0.contains_key(runs.buf_ptr.blk), rp@ == rp0.insert(runs.buf_ptr.blk, rp@[runs.buf_ptr.blk])
inv 1 tiled(rv_seq(rp@, runs)), span(rv_seq(rp@, runs)) == end, end == 0 <==> runs.len == 0
inv 1 end < len ==> tim(rv_seq(rp@, runs)), end == len ==> runs.len == 1
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> ms_ok(g, hp@, v.lo(), v.hi(), rv_seq(rp@, runs), end as int)
dec 1 len - end
at loop 1 begin: let ghost (hp_b, rs_b) = (hp@, rv_seq(rp@, runs))
at[O] before find_streak 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_ms_rank(g, hp@, v.lo(), v.hi(), rs_b, end as int); }
at[O] after reverse 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { assert(sorted(g, hp@, v.lo() + start, v.lo() + end)); }
at[O] before provide_sorted_batch 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_ranked_perm(g, hp_b, hp@, v.lo() + start, v.lo() + end, v.lo(), v.lo() + start, v.hi()); }
at before push 1: lemma_depth(rs_b)
at after push 1: assert(rp@ =~= rp0.insert(runs.buf_ptr.blk, rp@[runs.buf_ptr.blk])); assert(rv_seq(rp@, runs).drop_last() =~= rs_b); lemma_deep_push(rs_b, rv_seq(rp@, runs))
at[O] after push 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_ms_push(g, hp_b, hp@, v.lo(), v.hi(), rs_b, rv_seq(rp@, runs).last().start as int, end as int, rv_seq(rp@, runs).last()); }
iso 2
invx 2 true
inv 2 v == v_in, len == v.len, 20 < len, 0 < end <= len
inv? 2 start == end
inv 2 buf_ptr == buf.buf_ptr, buf.capacity == len / 2, bufok(bp0, bp@, buf)
inv 2 rv_ok(rp@, runs), !rp0.contains_key(runs.buf_ptr.blk), rp@ == rp0.insert(runs.buf_ptr.blk, rp@[runs.buf_ptr.blk])
inv 2 tiled(rv_seq(rp@, runs)), span(rv_seq(rp@, runs)) == end, runs.len > 0, deep(rv_seq(rp@, runs))
inv 2[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 2[C03,C04] perm(hp0, hp@)
inv 2[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> ms_ok(g, hp@, v.lo(), v.hi(), rv_seq(rp@, runs), end as int)
lens 2 settled(rv_seq(rp@, runs), len as int)
dec 2 runs.len
at loop 2 begin: let ghost (hp_c, rs_c) = (hp@, rv_seq(rp@, runs)); 
at after as_slice 1: assert(hs_seq(rp@, RET) =~= rs_c)
at loop 2 body: lemma_tiled_span(rs_c, r + 1); assert(rs_c[r as int] == rp@[runs.buf_ptr.blk][r as int]->Some_0 && rs_c[r + 1] == rp@[runs.buf_ptr.blk][r + 1]->Some_0)
at[O] before merge 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_ms_pre(g, hp@, v.lo(), v.hi(), rs_c, end as int, r as int); }
at after merge 1: assert(bufok(bp0, bp@, buf)) by { assert(bp@ =~= bp0.insert(buf.buf_ptr.blk, bp@[buf.buf_ptr.blk])); }
at loop 2 end: assert(rv_seq(rp@, runs) =~= rs_c.update(r + 1, merge_sort__TimSortRun { start: left.start, len: (left.len + right.len) as usize }).remove(r as int)); lemma_deep_merge(rs_c, r as int, merge_sort__TimSortRun { start: left.start, len: (left.len + right.len) as usize }); assert(rp@ =~= rp0.insert(runs.buf_ptr.blk, rp@[runs.buf_ptr.blk]))
at[O] loop 2 end: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_ms_merge(g, hp_c, hp@, v.lo(), v.hi(), rs_c, end as int, r as int, merge_sort__TimSortRun { start: left.start, len: (left.len + right.len) as usize }); }
at loop 2 after: lemma_tim(rv_seq(rp@, runs), len as int)
at[O] loop 1 after: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_ms_done(g, hp@, v.lo(), v.hi(), rv_seq(rp@, runs), end as int); }
at loop 1 after: assert(rv_seq(rp@, runs)[0] == rp@[runs.buf_ptr.blk][0]->Some_0)
at unwound: assert(bp@ =~= bp0); assert(rp@ =~= rp0)
at tail: assert(bp@ =~= bp0); assert(rp@ =~= rp0)

fn stable_sort::stable_sort
conserve v
ensures[C15] bp1 == bp0, rp1 == rp0
ensures[O] ok: g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> sorted(g, hp1, v.lo(), v.hi())
at[O] return 1: lemma_zst_sorted(g, hp@, v.lo(), v.hi())

verus{
pub open spec fn bufok<T>(h0: Map<usize, Seq<Option<T>>>, h: Map<usize, Seq<Option<T>>>, b: merge_sort__merge_sort__BufGuard) -> bool {
    &&& !h0.contains_key(b.buf_ptr.blk) && h.contains_key(b.buf_ptr.blk) && h == h0.insert(b.buf_ptr.blk, h[b.buf_ptr.blk])
    &&& b.buf_ptr.off == 0 && b.buf_ptr.cap == b.capacity && h[b.buf_ptr.blk].len() == b.capacity
}
pub open spec fn span(s: Seq<merge_sort__TimSortRun>) -> int {
    if s.len() == 0 { 0 } else { s.last().start + s.last().len }
}
/// The run-length invariant of the whole stack (bounds its depth).
#[verifier::opaque]
pub open spec fn tim(s: Seq<merge_sort__TimSortRun>) -> bool {
    &&& forall|i: int| #![trigger top2(s, i)] 0 <= i && i + 2 < s.len() ==> top2(s, i)
    &&& s.len() >= 2 ==> s[s.len() - 2].len > s[s.len() - 1].len
}
/// What of it survives while the top of the stack is being merged.
#[verifier::opaque]
pub open spec fn deep(s: Seq<merge_sort__TimSortRun>) -> bool {
    forall|i: int| #![trigger top2(s, i)] 0 <= i && i + 5 <= s.len() ==> top2(s, i)
}
pub open spec fn top2(s: Seq<merge_sort__TimSortRun>, i: int) -> bool { s[i].len > s[i + 1].len + s[i + 2].len }
pub proof fn lemma_depth_step(s: Seq<merge_sort__TimSortRun>, k: int)
    requires tim(s), tiled(s), 0 <= k, 2 * k < s.len()
    ensures s[s.len() - 1 - 2 * k].len >= pow2(k as nat)
    decreases k
{
    reveal(tim);
    if k > 0 {
        lemma_depth_step(s, k - 1);
        let n = s.len() as int;
        assert(top2(s, n - 1 - 2 * k));
        if 2 * k - 1 >= 2 {
            assert(top2(s, n - 2 * k));
        }
        assert(s[n - 2 * k].len > s[n - 2 * k + 1].len);
    }
}
pub proof fn lemma_depth(s: Seq<merge_sort__TimSortRun>)
    requires tim(s), tiled(s)
    ensures s.len() <= 130
{
    if s.len() > 130 {
        lemma_depth_step(s, 64);
        assert(pow2(64) > usize::MAX) by (compute);
    }
}
pub proof fn lemma_tim(s: Seq<merge_sort__TimSortRun>, stop: int)
    requires deep(s), settled(s, stop), tiled(s)
    ensures tim(s)
{
    reveal(tim); reveal(deep);
    let n = s.len() as int;
    assert forall|i: int| #![trigger top2(s, i)] 0 <= i && i + 2 < n implies top2(s, i) by {
        if i + 5 > n { assert(i == n - 3 || i == n - 4); }
    }
}
pub proof fn lemma_tim_empty()
    ensures tim(Seq::empty())
{ reveal(tim); }
pub proof fn lemma_deep_push(a: Seq<merge_sort__TimSortRun>, b: Seq<merge_sort__TimSortRun>)
    requires tim(a), b.len() == a.len() + 1, b.drop_last() == a
    ensures deep(b)
{
    reveal(tim); reveal(deep);
    assert forall|i: int| #![trigger top2(b, i)] 0 <= i && i + 5 <= b.len() implies top2(b, i) by {
        assert(top2(a, i));
        assert(b[i] == a[i] && b[i + 1] == a[i + 1] && b[i + 2] == a[i + 2]);
    }
}
pub proof fn lemma_tiled_span(s: Seq<merge_sort__TimSortRun>, k: int)
    requires tiled(s), 0 <= k < s.len()
    ensures s[k].start + s[k].len <= span(s)
    decreases s.len() - k
{
    if k + 1 < s.len() { lemma_tiled_span(s, k + 1); }
}
pub proof fn lemma_deep_merge(s: Seq<merge_sort__TimSortRun>, r: int, m: merge_sort__TimSortRun)
    requires tiled(s), deep(s), 0 <= r, r + 1 < s.len(), r >= s.len() - 3, m.start == s[r].start, m.len == s[r].len + s[r + 1].len, span(s) <= isize::MAX
    ensures ({ let t = s.update(r + 1, m).remove(r); tiled(t) && deep(t) && span(t) == span(s) && t.len() == s.len() - 1 })
{
    reveal(deep);
    let t = s.update(r + 1, m).remove(r);
    lemma_tiled_span(s, r + 1);
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k] == (if k < r { s[k] } else if k == r { m } else { s[k + 1] }) by { }
    assert forall|i: int| #![trigger top2(t, i)] 0 <= i && i + 5 <= t.len() implies top2(t, i) by {
        assert(top2(s, i));
        assert(t[i] == s[i] && t[i + 1] == s[i + 1] && t[i + 2] == s[i + 2]);
    }
    assert(t.len() > 0 ==> t[0].start == 0);
    assert forall|k: int| #![trigger t[k]] 0 < k < t.len() implies t[k].start == t[k - 1].start + t[k - 1].len by {
        if k < r { assert(s[k].start == s[k - 1].start + s[k - 1].len); }
        else if k == r { assert(s[r].start == s[r - 1].start + s[r - 1].len); }
        else if k == r + 1 { assert(s[r + 2].start == s[r + 1].start + s[r + 1].len); assert(s[r + 1].start == s[r].start + s[r].len); }
        else { assert(s[k + 1].start == s[k].start + s[k].len); }
    }
    assert(s[r + 1].start == s[r].start + s[r].len);
}
}verus
verus{ O
/// Every run on the stack is sorted and ranks do not decrease across run boundaries or after `end`.
#[verifier::opaque]
pub open spec fn ms_ok<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, rs: Seq<merge_sort__TimSortRun>, end: int) -> bool {
    &&& forall|k: int| #![trigger rs[k]] 0 <= k < rs.len() ==> sorted(g, s, lo + rs[k].start, lo + rs[k].start + rs[k].len)
    &&& forall|k: int| #![trigger rs[k]] 0 <= k < rs.len() ==> xr(g, s, lo, lo + rs[k].start, hi)
    &&& ranked(g, s, lo, lo + end, hi)
}
pub proof fn lemma_ms_init<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int)
    ensures ranked(g, s, lo, lo, hi) ==> ms_ok(g, s, lo, hi, Seq::empty(), 0)
{ reveal(ms_ok); }
pub proof fn lemma_sorted_frame<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, l: int, h: int, x: int, y: int)
    requires frame(a, b, l, h), sorted(g, a, x, y), 0 <= x, y <= a.len(), y <= l || h <= x
    ensures sorted(g, b, x, y)
{
    assert forall|i: int, j: int| #![trigger b[i], b[j]] x <= i < j < y implies le(g, b[i], b[j]) by { assert(le(g, a[i], a[j])); }
}
pub proof fn lemma_xr_perm<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, l: int, h: int, lo: int, m: int, hi: int)
    requires perm(a, b), frame(a, b, l, h), xr(g, a, lo, m, hi), 0 <= lo <= l <= h <= hi <= a.len(), m <= l || h <= m
    ensures xr(g, b, lo, m, hi)
{
    lemma_perm_range(a, b, l, h);
    assert forall|i: int, j: int| #![trigger b[i], b[j]] lo <= i < m <= j < hi implies (g.rank)(b[i]) <= (g.rank)(b[j]) by {
        let i2 = if l <= i < h { choose|k: int| l <= k < h && #[trigger] a[k] == b[i] } else { i };
        let j2 = if l <= j < h { choose|k: int| l <= k < h && #[trigger] a[k] == b[j] } else { j };
        assert(a[i2] == b[i] && a[j2] == b[j]);
        assert((g.rank)(a[i2]) <= (g.rank)(a[j2]));
    }
}
pub proof fn lemma_ranked_perm<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, l: int, h: int, lo: int, from: int, hi: int)
    requires perm(a, b), frame(a, b, l, h), ranked(g, a, lo, from, hi), 0 <= lo <= l <= h <= hi <= a.len(), lo <= from
    ensures h >= from ==> ranked(g, b, lo, h, hi), h <= from ==> ranked(g, b, lo, from, hi)
{
    lemma_perm_range(a, b, l, h);
    let f = if h >= from { h } else { from };
    assert forall|i: int, j: int| #![trigger b[i], b[j]] lo <= i < j < hi && f <= j implies (g.rank)(b[i]) <= (g.rank)(b[j]) by {
        let i2 = if l <= i < h { choose|k: int| l <= k < h && #[trigger] a[k] == b[i] } else { i };
        assert(a[i2] == b[i] && a[j] == b[j]);
        assert((g.rank)(a[i2]) <= (g.rank)(a[j]));
    }
}
pub proof fn lemma_ms_push<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, lo: int, hi: int, rs: Seq<merge_sort__TimSortRun>, start: int, end: int, x: merge_sort__TimSortRun)
    requires ms_ok(g, a, lo, hi, rs, start), tiled(rs), span(rs) == start, perm(a, b), frame(a, b, lo + start, lo + end), sorted(g, b, lo + start, lo + end), 0 <= start <= end, 0 <= lo, lo + end <= hi <= a.len(), x.start == start, x.len == end - start
    ensures ms_ok(g, b, lo, hi, rs.push(x), end)
{
    reveal(ms_ok);
    let t = rs.push(x);
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies sorted(g, b, lo + t[k].start, lo + t[k].start + t[k].len) && xr(g, b, lo, lo + t[k].start, hi) by {
        if k < rs.len() {
            lemma_tiled_span(rs, k);
            assert(rs[k] == t[k]);
            lemma_sorted_frame(g, a, b, lo + start, lo + end, lo + t[k].start, lo + t[k].start + t[k].len);
        } else {
            assert(xr(g, a, lo, lo + start, hi)) by {
                assert forall|i: int, j: int| #![trigger a[i], a[j]] lo <= i < lo + start <= j < hi implies (g.rank)(a[i]) <= (g.rank)(a[j]) by { }
            }
        }
        lemma_xr_perm(g, a, b, lo + start, lo + end, lo, lo + t[k].start, hi);
    }
    lemma_ranked_perm(g, a, b, lo + start, lo + end, lo, lo + start, hi);
}
pub proof fn lemma_ms_pre<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, rs: Seq<merge_sort__TimSortRun>, end: int, r: int)
    requires ms_ok(g, s, lo, hi, rs, end), tiled(rs), span(rs) == end, 0 <= r, r + 1 < rs.len(), 0 <= lo, lo + end <= hi, g.ok
    ensures merge_pre(g, s, lo + rs[r].start, lo + rs[r + 1].start, lo + rs[r + 1].start + rs[r + 1].len)
{
    reveal(ms_ok);
    lemma_tiled_span(rs, r + 1);
    assert(sorted(g, s, lo + rs[r].start, lo + rs[r].start + rs[r].len));
    assert(xr(g, s, lo, lo + rs[r + 1].start, hi));
}
pub proof fn lemma_ms_merge<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, lo: int, hi: int, rs: Seq<merge_sort__TimSortRun>, end: int, r: int, m: merge_sort__TimSortRun)
    requires ms_ok(g, a, lo, hi, rs, end), tiled(rs), span(rs) == end, 0 <= r, r + 1 < rs.len(), 0 <= lo, lo + end <= hi <= a.len(),
        perm(a, b), frame(a, b, lo + m.start, lo + m.start + m.len), sorted(g, b, lo + m.start, lo + m.start + m.len),
        m.start == rs[r].start, m.len == rs[r].len + rs[r + 1].len
    ensures ms_ok(g, b, lo, hi, rs.update(r + 1, m).remove(r), end)
{
    reveal(ms_ok);
    let t = rs.update(r + 1, m).remove(r);
    lemma_tiled_span(rs, r + 1);
    let (l, h) = (lo + m.start, lo + m.start + m.len);
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies sorted(g, b, lo + t[k].start, lo + t[k].start + t[k].len) && xr(g, b, lo, lo + t[k].start, hi) by {
        let q = if k < r { k } else if k == r { r } else { k + 1 };
        assert(t[k] == if k == r { m } else { rs[q] });
        lemma_tiled_span(rs, q);
        assert(xr(g, a, lo, lo + rs[q].start, hi));
        assert(sorted(g, a, lo + rs[q].start, lo + rs[q].start + rs[q].len));
        if k < r { lemma_tiled_between(rs, k, r); }
        if k > r { lemma_tiled_between(rs, r + 1, q); }
        lemma_xr_perm(g, a, b, l, h, lo, lo + t[k].start, hi);
        if k != r { lemma_sorted_frame(g, a, b, l, h, lo + t[k].start, lo + t[k].start + t[k].len); }
    }
    lemma_ranked_perm(g, a, b, l, h, lo, lo + end, hi);
}
pub proof fn lemma_tiled_between(s: Seq<merge_sort__TimSortRun>, i: int, j: int)
    requires tiled(s), 0 <= i < j < s.len()
    ensures s[i].start + s[i].len <= s[j].start
    decreases j - i
{
    if i + 1 < j { lemma_tiled_between(s, i + 1, j); assert(s[i + 1].start == s[i].start + s[i].len); } else { assert(s[j].start == s[j - 1].start + s[j - 1].len); }
}
pub proof fn lemma_ms_done<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, rs: Seq<merge_sort__TimSortRun>, end: int)
    requires ms_ok(g, s, lo, hi, rs, end), tiled(rs), span(rs) == end, rs.len() == 1
    ensures sorted(g, s, lo, lo + end)
{ reveal(ms_ok); assert(rs[0].start == 0); }
pub proof fn lemma_zst_sorted<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int)
    ensures esize::<T>() == 0 ==> sorted(g, s, lo, hi)
{
    assert forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi && esize::<T>() == 0 implies le(g, s[i], s[j]) by { axiom_zst(s[i], s[j]); }
}
pub proof fn lemma_ms_rank<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, rs: Seq<merge_sort__TimSortRun>, end: int)
    requires ms_ok(g, s, lo, hi, rs, end)
    ensures ranked(g, s, lo, lo + end, hi)
{ reveal(ms_ok); }
}verus
