# par/merge_sort.rs
verus{
/// The elements of a range, as a multiset.
pub open spec fn msr<T>(s: Seq<T>, a: int, b: int) -> Multiset<T> { ms(s.subrange(a, b)) }
pub open spec fn apart(a: Vw, b: Vw) -> bool { a.base + a.len <= b.base || b.base + b.len <= a.base }
/// Only [a,b) and [c,d) may differ.
pub open spec fn frame2<T>(x: Seq<T>, y: Seq<T>, a: int, b: int, c: int, d: int) -> bool {
    x.len() == y.len() && forall|i: int| #![trigger y[i]] 0 <= i < x.len() && !(a <= i < b) && !(c <= i < d) ==> x[i] == y[i]
}
pub proof fn lemma_msr_empty<T>(s: Seq<T>, a: int)
    requires 0 <= a <= s.len()
    ensures msr(s, a, a) == Multiset::<T>::empty()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.subrange(a, a) =~= Seq::empty());
    assert(msr(s, a, a) =~= Multiset::empty());
}
pub proof fn lemma_msr_none<T>(s: Seq<T>, d: int, l: int, r: int)
    requires 0 <= d <= s.len(), 0 <= l <= s.len(), 0 <= r <= s.len()
    ensures msr(s, d, d + 0 + 0) == msr(s, l, l + 0).add(msr(s, r, r + 0))
{
    lemma_msr_empty(s, d);
    lemma_msr_empty(s, l);
    lemma_msr_empty(s, r);
    assert(msr(s, d, d) =~= msr(s, l, l).add(msr(s, r, r)));
}
pub proof fn lemma_msr_step<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a <= b < s.len()
    ensures msr(s, a, b + 1) == msr(s, a, b).insert(s[b])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.subrange(a, b + 1) =~= s.subrange(a, b).push(s[b]));
    assert(msr(s, a, b + 1) =~= msr(s, a, b).insert(s[b]));
}
pub proof fn lemma_msr_split<T>(s: Seq<T>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len()
    ensures msr(s, a, c) == msr(s, a, b).add(msr(s, b, c))
{
    assert(s.subrange(a, c) =~= s.subrange(a, b) + s.subrange(b, c));
    vstd::seq_lib::lemma_multiset_commutative(s.subrange(a, b), s.subrange(b, c));
    assert(msr(s, a, c) =~= msr(s, a, b).add(msr(s, b, c)));
}
pub proof fn lemma_msr_same<T>(s: Seq<T>, a: int, b: int, t: Seq<T>, c: int)
    requires 0 <= a <= b <= s.len(), 0 <= c, c + (b - a) <= t.len(), forall|i: int| #![trigger t[i]] c <= i < c + (b - a) ==> t[i] == s[a + i - c]
    ensures msr(s, a, b) == msr(t, c, c + (b - a))
{ assert(s.subrange(a, b) =~= t.subrange(c, c + (b - a))); }
pub proof fn lemma_msr_perm<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int)
    requires frame(a, b, lo, hi), 0 <= lo <= hi <= a.len(), msr(a, lo, hi) == msr(b, lo, hi)
    ensures perm(a, b)
{
    lemma_msr_same(a, 0, lo, b, 0);
    lemma_msr_same(a, hi, a.len() as int, b, hi);
    lemma_msr_split(a, 0, lo, hi);
    lemma_msr_split(b, 0, lo, hi);
    lemma_msr_split(a, 0, hi, a.len() as int);
    lemma_msr_split(b, 0, hi, a.len() as int);
    assert(a.subrange(0, a.len() as int) =~= a);
    assert(b.subrange(0, a.len() as int) =~= b);
}
/// What is in a range is an element of any range with the same elements.
pub proof fn lemma_msr_in<T>(s: Seq<T>, a: int, b: int, m: Multiset<T>)
    requires 0 <= a <= b <= s.len(), msr(s, a, b) == m
    ensures
        forall|i: int| #![trigger s[i]] a <= i < b ==> m.count(s[i]) > 0,
        forall|x: T| #![trigger m.count(x)] m.count(x) > 0 ==> exists|i: int| a <= i < b && #[trigger] s[i] == x,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let t = s.subrange(a, b);
    assert forall|i: int| #![trigger s[i]] a <= i < b implies m.count(s[i]) > 0 by { assert(t[i - a] == s[i]); assert(t.contains(s[i])); assert(t.to_multiset().count(s[i]) > 0); }
    assert forall|x: T| #![trigger m.count(x)] m.count(x) > 0 implies exists|i: int| a <= i < b && #[trigger] s[i] == x by {
        assert(t.to_multiset().count(x) > 0);
        assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        assert(s[j + a] == x);
    }
}
}verus

fn par::merge_sort::merge
ensures forall|k: int| #![trigger bp1[buf.blk][k]] 0 <= k < buf.cap && !(buf.off <= k < buf.off + v.len) ==> bp1[buf.blk][k] == bp0[buf.blk][k]
inv 1 forall|k: int| #![trigger bp@[buf.blk][k]] 0 <= k < buf.cap && !(buf.off <= k < buf.off + v.len) ==> bp@[buf.blk][k] == bp0[buf.blk][k]
inv 2 forall|k: int| #![trigger bp@[buf.blk][k]] 0 <= k < buf.cap && !(buf.off <= k < buf.off + v.len) ==> bp@[buf.blk][k] == bp0[buf.blk][k]
inv 3 forall|k: int| #![trigger bp@[buf.blk][k]] 0 <= k < buf.cap && !(buf.off <= k < buf.off + v.len) ==> bp@[buf.blk][k] == bp0[buf.blk][k]
inv 4 forall|k: int| #![trigger bp@[buf.blk][k]] 0 <= k < buf.cap && !(buf.off <= k < buf.off + v.len) ==> bp@[buf.blk][k] == bp0[buf.blk][k]

fn par::merge_sort::collapse
requires forall|k: int| #![trigger runs@[k]] 0 <= k < runs@.len() ==> runs@[k].len <= isize::MAX
ensures res matches Some(i) ==> i + 1 < runs@.len() && i < usize::MAX
ensures res is None ==> runs@.len() < 2 || runs@[runs@.len() - 1].start != 0

fn par::merge_sort::merge_sort
requires v.len > 0
requires hok(bp0, buf), buf.off + v.len <= buf.cap
conserve v
ensures bp1.contains_key(buf.blk) && bp1[buf.blk].len() == buf.cap && bp1 == bp0.insert(buf.blk, bp1[buf.blk])
ensures forall|k: int| #![trigger bp1[buf.blk][k]] 0 <= k < buf.cap && !(buf.off <= k < buf.off + v.len) ==> bp1[buf.blk][k] == bp0[buf.blk][k]
ensures[O] ok: g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> (if r == par__merge_sort__MergesortResult__Descending { falling(g, hp1, v.lo(), v.hi()) } else { sorted(g, hp1, v.lo(), v.hi()) })
iso 1
inv 1[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> pm_ok(g, hp@, v.lo(), v.hi(), runs@, end as int)
at[O] loop 1 before: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_pm_init(g, hp@, v.lo(), v.hi()); }
at[O] loop 1 begin: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_pm_rank(g, hp@, v.lo(), v.hi(), runs@, end as int); }
inv 2[O] g.ok ==> falling(g, hp@, v.lo() + start, v.lo() + end)
inv 3[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> sorted(g, hp@, v.lo() + start, v.lo() + end)
inv 4[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> sorted(g, hp@, v.lo() + start, v.lo() + end)
at[O] before insert_head 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_pm_head(g, hp_b, hp@, v.lo(), v.hi(), start as int, end as int); }
at[O] after reverse 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { assert(sorted(g, hp@, v.lo() + start, v.lo() + end)); }
at[O] after push 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_pm_push(g, hp_b, hp@, v.lo(), v.hi(), rs_b, len as int, start as int, end as int, par__merge_sort__Run { start: start, len: (end - start) as usize }); }
inv 5[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> pm_ok(g, hp@, v.lo(), v.hi(), runs@, end as int)
at[O] before merge 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_pm_pre(g, hp@, v.lo(), v.hi(), rs_c, L, e_c, r as int); }
at[O] after remove 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_pm_merge(g, hp_c, hp@, v.lo(), v.hi(), rs_c, L, e_c, r as int, par__merge_sort__Run { start: left.start, len: (left.len + right.len) as usize }); }
at[O] loop 1 after: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_pm_done(g, hp@, v.lo(), v.hi(), runs@, len as int, end as int); }
inv 1 v == v_in, len == v.len, end <= len, len > 0
inv 1 hok(bp@, buf), buf.off + v.len <= buf.cap, bp@ == bp0.insert(buf.blk, bp@[buf.blk])
inv 1 forall|k: int| #![trigger bp@[buf.blk][k]] 0 <= k < buf.cap && !(buf.off <= k < buf.off + v.len) ==> bp@[buf.blk][k] == bp0[buf.blk][k]
inv 1 rtiled(runs@, len as int), rend(runs@, len as int) == end, end == 0 ==> runs@.len() == 1
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)
at loop 1 before: assert(bp@ =~= bp0.insert(buf.blk, bp@[buf.blk]))
at loop 1 begin: let ghost (hp_b, rs_b) = (hp@, runs@)
dec 1 end
inv 2 start + 1 < end
dec 2 start
inv 3 start + 1 < end
dec 3 start
inv 4 start < end
dec 4 start
inv 4[C13] frame(hp_b, hp@, v.lo() + start, v.lo() + end)
inv 4[C03,C04] perm(hp_b, hp@)
iso 5
inv 5 v == v_in, len == v.len, start == end, end < len, len > 0
inv 5 hok(bp@, buf), buf.off + v.len <= buf.cap, bp@ == bp0.insert(buf.blk, bp@[buf.blk])
inv 5 forall|k: int| #![trigger bp@[buf.blk][k]] 0 <= k < buf.cap && !(buf.off <= k < buf.off + v.len) ==> bp@[buf.blk][k] == bp0[buf.blk][k]
inv 5 rtiled(runs@, len as int), rend(runs@, len as int) == end, runs@.len() > 0
inv 5[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 5[C03,C04] perm(hp0, hp@)
lens 5 end == 0 ==> runs@.len() == 1
dec 5 runs@.len()
at loop 5 begin: let ghost (hp_c, rs_c, e_c, L) = (hp@, runs@, end as int, len as int)
at before collapse 1: lemma_rtiled_lens(runs@, len as int)
at loop 5 body: lemma_rtiled_pair(rs_c, L, r as int)
at loop 1 before: lemma_rtiled_empty(len as int)
at after push 1: lemma_rtiled_push(rs_b, len as int, par__merge_sort__Run { start: start, len: (end - start) as usize })
at loop 1 after: lemma_rtiled_one(runs@, len as int)
at after merge 1: assert(bp@ =~= bp0.insert(buf.blk, bp@[buf.blk]))
at after remove 1: lemma_rtiled_merge(rs_c, L, r as int, par__merge_sort__Run { start: left.start, len: (left.len + right.len) as usize }); assert(runs@ =~= rs_c.update(r as int, par__merge_sort__Run { start: left.start, len: (left.len + right.len) as usize }).remove(r + 1))

verus{
/// Non-empty runs, the first ending at `len`, each ending where the one before it starts.
#[verifier::opaque]
pub open spec fn rtiled(s: Seq<par__merge_sort__Run>, len: int) -> bool {
    &&& s.len() > 0 ==> s[0].start + s[0].len == len
    &&& forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].len >= 1 && s[k].start + s[k].len <= isize::MAX
    &&& forall|k: int| #![trigger s[k]] 0 < k < s.len() ==> s[k - 1].start == s[k].start + s[k].len
}
pub open spec fn rend(s: Seq<par__merge_sort__Run>, len: int) -> int { if s.len() == 0 { len } else { s.last().start as int } }
pub proof fn lemma_rtiled_end(s: Seq<par__merge_sort__Run>, len: int, k: int)
    requires rtiled(s, len), 0 <= k < s.len()
    ensures s[k].start + s[k].len <= len, rend(s, len) <= s[k].start
{
    lemma_rtiled_up(s, len, k);
    lemma_rtiled_down(s, len, k);
}
pub proof fn lemma_rtiled_up(s: Seq<par__merge_sort__Run>, len: int, k: int)
    requires rtiled(s, len), 0 <= k < s.len()
    ensures s[k].start + s[k].len <= len
    decreases k
{ reveal(rtiled); if k > 0 { lemma_rtiled_up(s, len, k - 1); assert(s[k - 1].start == s[k].start + s[k].len); } }
pub proof fn lemma_rtiled_down(s: Seq<par__merge_sort__Run>, len: int, k: int)
    requires rtiled(s, len), 0 <= k < s.len()
    ensures rend(s, len) <= s[k].start
    decreases s.len() - k
{ reveal(rtiled); if k + 1 < s.len() { lemma_rtiled_down(s, len, k + 1); assert(s[k].start == s[k + 1].start + s[k + 1].len); } }
pub proof fn lemma_rtiled_lens(s: Seq<par__merge_sort__Run>, len: int)
    requires rtiled(s, len)
    ensures forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> 1 <= s[k].len <= isize::MAX
{ reveal(rtiled); }
pub proof fn lemma_rtiled_pair(s: Seq<par__merge_sort__Run>, len: int, r: int)
    requires rtiled(s, len), 0 <= r, r + 1 < s.len()
    ensures s[r].start == s[r + 1].start + s[r + 1].len, s[r].start + s[r].len <= len, s[r].len >= 1, s[r + 1].len >= 1
{ reveal(rtiled); lemma_rtiled_up(s, len, r); }
pub proof fn lemma_rtiled_empty(len: int)
    ensures rtiled(Seq::empty(), len)
{ reveal(rtiled); }
pub proof fn lemma_rtiled_push(s: Seq<par__merge_sort__Run>, len: int, x: par__merge_sort__Run)
    requires rtiled(s, len), len <= isize::MAX, x.start + x.len == rend(s, len), rend(s, len) <= len, x.len >= 1
    ensures rtiled(s.push(x), len), rend(s.push(x), len) == x.start
{
    reveal(rtiled);
    let t = s.push(x);
    assert forall|k: int| #![trigger t[k]] 0 < k < t.len() implies t[k - 1].start == t[k].start + t[k].len by {
        if k < s.len() { assert(s[k - 1].start == s[k].start + s[k].len); }
    }
}
pub proof fn lemma_rtiled_one(s: Seq<par__merge_sort__Run>, len: int)
    requires rtiled(s, len), s.len() == 1
    ensures s[0].start == rend(s, len), s[0].start + s[0].len == len
{ reveal(rtiled); }
/// Runs r+1 and r (which follows it in the array) become one.
pub proof fn lemma_rtiled_merge(s: Seq<par__merge_sort__Run>, len: int, r: int, m: par__merge_sort__Run)
    requires rtiled(s, len), len <= isize::MAX, 0 <= r, r + 1 < s.len(), m.start == s[r + 1].start, m.len == s[r + 1].len + s[r].len
    ensures ({ let t = s.update(r, m).remove(r + 1); rtiled(t, len) && rend(t, len) == rend(s, len) && t.len() == s.len() - 1 })
{
    reveal(rtiled);
    let t = s.update(r, m).remove(r + 1);
    assert(s[r].start == s[r + 1].start + s[r + 1].len);
    lemma_rtiled_up(s, len, r);
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k] == (if k < r { s[k] } else if k == r { m } else { s[k + 1] }) by { }
    assert forall|k: int| #![trigger t[k]] 0 < k < t.len() implies t[k - 1].start == t[k].start + t[k].len by {
        if k < r { assert(s[k - 1].start == s[k].start + s[k].len); }
        else if k == r { assert(s[r - 1].start == s[r].start + s[r].len); }
        else if k == r + 1 { assert(s[r + 1].start == s[r + 2].start + s[r + 2].len); }
        else { assert(s[k].start == s[k + 1].start + s[k + 1].len); }
    }
}
}verus
verus{ O
/// Everything before position e carries ranks at most those of what follows it.
pub open spec fn rpre<T>(g: CmpG<T>, s: Seq<T>, lo: int, e: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi && i < e ==> (g.rank)(s[i]) <= (g.rank)(s[j])
}
/// Every run on the stack is sorted, ranks do not decrease across run boundaries or before `end`.
#[verifier::opaque]
pub open spec fn pm_ok<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, rs: Seq<par__merge_sort__Run>, end: int) -> bool {
    &&& forall|k: int| #![trigger rs[k]] 0 <= k < rs.len() ==> sorted(g, s, lo + rs[k].start, lo + rs[k].start + rs[k].len)
    &&& forall|k: int| #![trigger rs[k]] 0 <= k < rs.len() ==> xr(g, s, lo, lo + rs[k].start, hi)
    &&& rpre(g, s, lo, lo + end, hi)
}
pub proof fn lemma_pm_init<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int)
    ensures ranked(g, s, lo, lo, hi) ==> pm_ok(g, s, lo, hi, Seq::empty(), hi - lo)
{ reveal(pm_ok); }
pub proof fn lemma_pm_rank<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, rs: Seq<par__merge_sort__Run>, end: int)
    requires pm_ok(g, s, lo, hi, rs, end)
    ensures rpre(g, s, lo, lo + end, hi)
{ reveal(pm_ok); }
pub proof fn lemma_pm_head<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, lo: int, hi: int, start: int, end: int)
    requires perm(a, b), frame(a, b, lo + start + 1, lo + end), rpre(g, a, lo, lo + end, hi), 0 <= lo, 0 <= start, start + 1 <= end, lo + end <= hi <= a.len()
    ensures headranked(g, b, lo + start, lo + end)
{
    lemma_perm_range(a, b, lo + start + 1, lo + end);
    assert forall|j: int| #![trigger b[j]] lo + start < j < lo + end implies (g.rank)(b[lo + start]) <= (g.rank)(b[j]) by {
        let j2 = choose|k: int| lo + start + 1 <= k < lo + end && #[trigger] a[k] == b[j];
        assert(a[lo + start] == b[lo + start]);
        assert((g.rank)(a[lo + start]) <= (g.rank)(a[j2]));
    }
}
pub proof fn lemma_rpre_perm<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, l: int, h: int, lo: int, e: int, f: int, hi: int)
    requires perm(a, b), frame(a, b, l, h), rpre(g, a, lo, e, hi), 0 <= lo <= l <= h <= hi <= a.len(), f <= e, f <= l
    ensures rpre(g, b, lo, f, hi)
{
    lemma_perm_range(a, b, l, h);
    assert forall|i: int, j: int| #![trigger b[i], b[j]] lo <= i < j < hi && i < f implies (g.rank)(b[i]) <= (g.rank)(b[j]) by {
        let j2 = if l <= j < h { choose|k: int| l <= k < h && #[trigger] a[k] == b[j] } else { j };
        assert(a[i] == b[i] && a[j2] == b[j]);
        assert((g.rank)(a[i]) <= (g.rank)(a[j2]));
    }
}
pub proof fn lemma_pm_push<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, lo: int, hi: int, rs: Seq<par__merge_sort__Run>, len: int, start: int, end: int, x: par__merge_sort__Run)
    requires pm_ok(g, a, lo, hi, rs, end), rtiled(rs, len), rend(rs, len) == end, perm(a, b), frame(a, b, lo + start, lo + end), sorted(g, b, lo + start, lo + end), 0 <= start <= end, 0 <= lo, lo + end <= hi <= a.len(), hi == lo + len, x.start == start, x.len == end - start
    ensures pm_ok(g, b, lo, hi, rs.push(x), start)
{
    reveal(pm_ok);
    let t = rs.push(x);
    lemma_rpre_perm(g, a, b, lo + start, lo + end, lo, lo + end, lo + start, hi);
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies sorted(g, b, lo + t[k].start, lo + t[k].start + t[k].len) && xr(g, b, lo, lo + t[k].start, hi) by {
        if k < rs.len() {
            lemma_rtiled_end(rs, len, k);
            assert(rs[k] == t[k]);
            lemma_sorted_frame(g, a, b, lo + start, lo + end, lo + t[k].start, lo + t[k].start + t[k].len);
            assert(xr(g, a, lo, lo + rs[k].start, hi));
            lemma_xr_perm(g, a, b, lo + start, lo + end, lo, lo + t[k].start, hi);
        } else {
            assert forall|i: int, j: int| #![trigger b[i], b[j]] lo <= i < lo + start <= j < hi implies (g.rank)(b[i]) <= (g.rank)(b[j]) by { }
        }
    }
}
pub proof fn lemma_pm_pre<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, rs: Seq<par__merge_sort__Run>, len: int, end: int, r: int)
    requires pm_ok(g, s, lo, hi, rs, end), rtiled(rs, len), rend(rs, len) == end, 0 <= r, r + 1 < rs.len(), 0 <= lo, 0 <= end, lo + len == hi, g.ok
    ensures merge_pre(g, s, lo + rs[r + 1].start, lo + rs[r].start, lo + rs[r].start + rs[r].len)
{
    reveal(pm_ok);
    lemma_rtiled_pair(rs, len, r);
    assert(sorted(g, s, lo + rs[r + 1].start, lo + rs[r + 1].start + rs[r + 1].len));
    assert(xr(g, s, lo, lo + rs[r].start, hi));
}
pub proof fn lemma_rtiled_between(s: Seq<par__merge_sort__Run>, len: int, i: int, j: int)
    requires rtiled(s, len), 0 <= i < j < s.len()
    ensures s[j].start + s[j].len <= s[i].start
    decreases j - i
{
    reveal(rtiled);
    assert(s[j - 1].start == s[j].start + s[j].len);
    if i + 1 < j { lemma_rtiled_between(s, len, i, j - 1); }
}
pub proof fn lemma_pm_merge<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, lo: int, hi: int, rs: Seq<par__merge_sort__Run>, len: int, end: int, r: int, m: par__merge_sort__Run)
    requires pm_ok(g, a, lo, hi, rs, end), rtiled(rs, len), rend(rs, len) == end, 0 <= r, r + 1 < rs.len(), 0 <= lo, 0 <= end, lo + len == hi, hi <= a.len(),
        perm(a, b), frame(a, b, lo + m.start, lo + m.start + m.len), sorted(g, b, lo + m.start, lo + m.start + m.len),
        m.start == rs[r + 1].start, m.len == rs[r].len + rs[r + 1].len
    ensures pm_ok(g, b, lo, hi, rs.update(r, m).remove(r + 1), end)
{
    reveal(pm_ok);
    let t = rs.update(r, m).remove(r + 1);
    lemma_rtiled_pair(rs, len, r);
    lemma_rtiled_end(rs, len, r + 1);
    let (l, h) = (lo + m.start, lo + m.start + m.len);
    lemma_rpre_perm(g, a, b, l, h, lo, lo + end, lo + end, hi);
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies sorted(g, b, lo + t[k].start, lo + t[k].start + t[k].len) && xr(g, b, lo, lo + t[k].start, hi) by {
        let q = if k < r { k } else { k + 1 };
        assert(t[k].start == rs[q].start);
        assert(t[k] == if k == r { m } else { rs[q] });
        lemma_rtiled_end(rs, len, q);
        assert(xr(g, a, lo, lo + rs[q].start, hi));
        assert(sorted(g, a, lo + rs[q].start, lo + rs[q].start + rs[q].len));
        if k < r { lemma_rtiled_between(rs, len, k, r); }
        if k > r { lemma_rtiled_between(rs, len, r + 1, q); }
        lemma_xr_perm(g, a, b, l, h, lo, lo + t[k].start, hi);
        if k != r { lemma_sorted_frame(g, a, b, l, h, lo + t[k].start, lo + t[k].start + t[k].len); }
    }
}
pub proof fn lemma_pm_done<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, rs: Seq<par__merge_sort__Run>, len: int, end: int)
    requires pm_ok(g, s, lo, hi, rs, end), rtiled(rs, len), rend(rs, len) == end, rs.len() == 1
    ensures sorted(g, s, lo + end, lo + len)
{ reveal(pm_ok); lemma_rtiled_one(rs, len); assert(sorted(g, s, lo + rs[0].start, lo + rs[0].start + rs[0].len)); }
}verus

fn par::merge_sort::split_for_merge
ensures ok: r.0 <= left.len && r.1 <= right.len
ensures ok: left.len + right.len >= 3 ==> 0 < r.0 + r.1 < left.len + right.len
ensures[O] ok: g.ok && sorted(g, hp0, left.lo(), left.hi()) && sorted(g, hp0, right.lo(), right.hi()) ==> splits(g, hp0, left.base as int, left.len as int, right.base as int, right.len as int, r.0 as int, r.1 as int)
inv 1 a <= b <= right_len
inv 1[O] g.ok && sorted(g, hp0, right.lo(), right.hi()) ==> (forall|k: int| #![trigger hp0[k]] right.base <= k < right.base + a ==> lt(g, hp0[k], hp0[left.base + left_mid])) && (forall|k: int| #![trigger hp0[k]] right.base + b <= k < right.base + right.len ==> !lt(g, hp0[k], hp0[left.base + left_mid]))
inv 2 a <= b <= left_len
inv 2[O] g.ok && sorted(g, hp0, left.lo(), left.hi()) ==> (forall|k: int| #![trigger hp0[k]] left.base <= k < left.base + a ==> !lt(g, hp0[right.base + right_mid], hp0[k])) && (forall|k: int| #![trigger hp0[k]] left.base + b <= k < left.base + left.len ==> lt(g, hp0[right.base + right_mid], hp0[k]))

fn par::merge_sort::par_merge::State::drop
requires self_.left_start <= self_.left.len, self_.right_start <= self_.right.len, self_.dest_start + (self_.left.len - self_.left_start) + (self_.right.len - self_.right_start) <= self_.dest.len
requires self_.left.hi() <= hp0.len(), self_.right.hi() <= hp0.len(), self_.dest.hi() <= hp0.len()
requires apart(self_.left, self_.dest), apart(self_.right, self_.dest)
ensures frame(hp0, hp1, self_.dest.base + self_.dest_start, self_.dest.base + self_.dest_start + (self_.left.len - self_.left_start) + (self_.right.len - self_.right_start))
ensures forall|k: int| #![trigger hp1[k]] self_.dest.base + self_.dest_start <= k < self_.dest.base + self_.dest_start + (self_.left.len - self_.left_start) ==> hp1[k] == hp0[self_.left.base + self_.left_start + k - (self_.dest.base + self_.dest_start)]
ensures forall|k: int| #![trigger hp1[k]] self_.dest.base + self_.dest_start + (self_.left.len - self_.left_start) <= k < self_.dest.base + self_.dest_start + (self_.left.len - self_.left_start) + (self_.right.len - self_.right_start) ==> hp1[k] == hp0[self_.right.base + self_.right_start + k - (self_.dest.base + self_.dest_start + (self_.left.len - self_.left_start))]
inv 1 frame(hp0, hp@, self_.dest.base + self_.dest_start, self_.dest.base + self_.dest_start + i)
inv 1 forall|k: int| #![trigger hp@[k]] self_.dest.base + self_.dest_start <= k < self_.dest.base + self_.dest_start + i ==> hp@[k] == hp0[self_.left.base + self_.left_start + k - (self_.dest.base + self_.dest_start)]
inv 2 frame(hp0, hp@, self_.dest.base + self_.dest_start, self_.dest.base + self_.dest_start + left_len + i)
inv 2 forall|k: int| #![trigger hp@[k]] self_.dest.base + self_.dest_start <= k < self_.dest.base + self_.dest_start + left_len ==> hp@[k] == hp0[self_.left.base + self_.left_start + k - (self_.dest.base + self_.dest_start)]
inv 2 forall|k: int| #![trigger hp@[k]] self_.dest.base + self_.dest_start + left_len <= k < self_.dest.base + self_.dest_start + left_len + i ==> hp@[k] == hp0[self_.right.base + self_.right_start + k - (self_.dest.base + self_.dest_start + left_len)]

fn par::merge_sort::par_merge
requires apart(left, right), apart(left, dest), apart(right, dest), left.len + right.len <= dest.len
ensures frame(hp0, hp1, dest.lo(), dest.lo() + left.len + right.len)
ensures[C03,C04] msr(hp1, dest.lo(), dest.lo() + left.len + right.len) == msr(hp0, left.lo(), left.hi()).add(msr(hp0, right.lo(), right.hi()))
ensures[O] ok: mg_pre(g, hp0, left.base as int, left.len as int, right.base as int, right.len as int) ==> sorted(g, hp1, dest.lo(), dest.lo() + left.len + right.len)
decreases left.len + right.len
at start: let ghost (L, R, D) = (left, right, dest)
inv 1 s.left == L, s.right == R, s.dest == D, apart(L, R), apart(L, D), apart(R, D), L.len + R.len <= D.len
inv 1 s.left_start <= L.len, s.right_start <= R.len, s.dest_start == s.left_start + s.right_start
inv 1 L.hi() <= hp0.len(), R.hi() <= hp0.len(), D.hi() <= hp0.len()
inv 1 frame(hp0, hp@, D.lo(), D.lo() + s.dest_start)
inv 1[C03,C04] msr(hp@, D.lo(), D.lo() + s.dest_start) == msr(hp0, L.lo(), L.lo() + s.left_start).add(msr(hp0, R.lo(), R.lo() + s.right_start))
inv 1[O] mg_pre(g, hp0, L.base as int, L.len as int, R.base as int, R.len as int) ==> mg(g, hp0, hp@, L.base as int, L.len as int, R.base as int, R.len as int, D.base as int, s.left_start as int, s.right_start as int)
at let s 1: lemma_msr_empty(hp0, L.lo()); lemma_msr_empty(hp0, R.lo()); lemma_msr_empty(hp0, D.lo())
at[O] let s 1: lemma_mg_init(g, hp0, L.base as int, L.len as int, R.base as int, R.len as int, D.base as int)
at loop 1 begin: let ghost (hp_b, s_b) = (hp@, s)
at loop 1 end: lemma_pmg_step(hp0, hp_b, hp@, L.lo(), L.len as int, R.lo(), R.len as int, D.lo(), s_b.left_start as int, s_b.right_start as int, s.right_start != s_b.right_start)
at[O] loop 1 end: if mg_pre(g, hp0, L.base as int, L.len as int, R.base as int, R.len as int) { lemma_mg_step(g, hp0, hp_b, hp@, L.lo(), L.len as int, R.lo(), R.len as int, D.lo(), s_b.left_start as int, s_b.right_start as int, s.right_start != s_b.right_start); }
at unwind is_less 1: let ghost hp_u = hp@
at unwound is_less 1: lemma_pmg_done(hp0, hp_u, hp@, L.lo(), L.len as int, R.lo(), R.len as int, D.lo(), s.left_start as int, s.right_start as int)
at unwound split_for_merge 1: lemma_msr_none(hp0, D.lo(), L.lo(), R.lo()); lemma_pmg_done(hp0, hp0, hp@, L.lo(), L.len as int, R.lo(), R.len as int, D.lo(), 0, 0)
at predrop: let ghost hp_d = hp@
at tail: if s__live { lemma_pmg_done(hp0, hp_d, hp@, L.lo(), L.len as int, R.lo(), R.len as int, D.lo(), s.left_start as int, s.right_start as int); }
at[O] tail: if s__live && mg_pre(g, hp0, L.base as int, L.len as int, R.base as int, R.len as int) { lemma_mg_done(g, hp0, hp_d, hp@, L.lo(), L.len as int, R.lo(), R.len as int, D.lo(), s.left_start as int, s.right_start as int); }
at[O] before par_merge 1: if mg_pre(g, hp0, L.base as int, L.len as int, R.base as int, R.len as int) { lemma_mg_sub(g, hp0, hp0, L.lo(), L.len as int, R.lo(), R.len as int, 0, left_l.len as int, 0, right_l.len as int); }
at after par_merge 1: let ghost h_1 = hp@
at[O] before par_merge 2: if mg_pre(g, hp0, L.base as int, L.len as int, R.base as int, R.len as int) { lemma_mg_sub(g, hp0, hp@, L.lo(), L.len as int, R.lo(), R.len as int, left_l.len as int, L.len as int, right_l.len as int, R.len as int); }
at after par_merge 2: lemma_pmg_join(hp0, h_1, hp@, L.lo(), L.len as int, R.lo(), R.len as int, D.lo(), left_l.len as int, right_l.len as int)
at[O] after par_merge 2: if mg_pre(g, hp0, L.base as int, L.len as int, R.base as int, R.len as int) && sorted(g, h_1, D.lo(), D.lo() + left_l.len + right_l.len) && sorted(g, hp@, D.lo() + left_l.len + right_l.len, D.lo() + L.len + R.len) { lemma_mg_join(g, hp0, h_1, hp@, L.lo(), L.len as int, R.lo(), R.len as int, D.lo(), left_l.len as int, right_l.len as int); }

verus{
pub open spec fn off_dest(L: int, ll: int, D: int, n: int) -> bool { L + ll <= D || D + n <= L }
pub proof fn lemma_pmg_step<T>(s0: Seq<T>, a: Seq<T>, b: Seq<T>, L: int, ll: int, R: int, rl: int, D: int, ls: int, rs: int, right: bool)
    requires
        frame(s0, a, D, D + ls + rs), 0 <= L, 0 <= R, 0 <= D, L + ll <= s0.len(), R + rl <= s0.len(), D + ll + rl <= s0.len(),
        0 <= ls <= ll, 0 <= rs <= rl, if right { rs < rl } else { ls < ll }, off_dest(L, ll, D, ll + rl), off_dest(R, rl, D, ll + rl),
        b == a.update(D + ls + rs, if right { a[R + rs] } else { a[L + ls] }),
        msr(a, D, D + ls + rs) == msr(s0, L, L + ls).add(msr(s0, R, R + rs)),
    ensures
        frame(s0, b, D, D + ls + rs + 1),
        right ==> msr(b, D, D + ls + rs + 1) == msr(s0, L, L + ls).add(msr(s0, R, R + rs + 1)),
        !right ==> msr(b, D, D + ls + rs + 1) == msr(s0, L, L + ls + 1).add(msr(s0, R, R + rs)),
{
    lemma_msr_same(a, D, D + ls + rs, b, D);
    lemma_msr_step(b, D, D + ls + rs);
    if right {
        lemma_msr_step(s0, R, R + rs);
        assert(a[R + rs] == s0[R + rs]);
        assert(msr(b, D, D + ls + rs + 1) =~= msr(s0, L, L + ls).add(msr(s0, R, R + rs + 1)));
    } else {
        lemma_msr_step(s0, L, L + ls);
        assert(a[L + ls] == s0[L + ls]);
        assert(msr(b, D, D + ls + rs + 1) =~= msr(s0, L, L + ls + 1).add(msr(s0, R, R + rs)));
    }
}
pub open spec fn pmg_copied<T>(s0: Seq<T>, a: Seq<T>, b: Seq<T>, L: int, ll: int, R: int, rl: int, D: int, ls: int, rs: int) -> bool {
    &&& frame(s0, a, D, D + ls + rs) && frame(a, b, D + ls + rs, D + ll + rl)
    &&& 0 <= L && 0 <= R && 0 <= D && L + ll <= s0.len() && R + rl <= s0.len() && D + ll + rl <= s0.len()
    &&& 0 <= ls <= ll && 0 <= rs <= rl && off_dest(L, ll, D, ll + rl) && off_dest(R, rl, D, ll + rl)
    &&& forall|k: int| #![trigger b[k]] D + ls + rs <= k < D + ll + rs ==> b[k] == a[L + ls + k - (D + ls + rs)]
    &&& forall|k: int| #![trigger b[k]] D + ll + rs <= k < D + ll + rl ==> b[k] == a[R + rs + k - (D + ll + rs)]
}
pub proof fn lemma_pmg_done<T>(s0: Seq<T>, a: Seq<T>, b: Seq<T>, L: int, ll: int, R: int, rl: int, D: int, ls: int, rs: int)
    requires
        pmg_copied(s0, a, b, L, ll, R, rl, D, ls, rs),
        msr(a, D, D + ls + rs) == msr(s0, L, L + ls).add(msr(s0, R, R + rs)),
    ensures
        frame(s0, b, D, D + ll + rl),
        msr(b, D, D + ll + rl) == msr(s0, L, L + ll).add(msr(s0, R, R + rl)),
{
    let d = D + ls + rs;
    assert(frame(s0, b, D, D + ll + rl)) by { assert forall|i: int| #![trigger b[i]] 0 <= i < s0.len() && !(D <= i < D + ll + rl) implies s0[i] == b[i] by { assert(a[i] == s0[i]); } }
    lemma_msr_same(a, D, d, b, D);
    assert forall|k: int| #![trigger b[k]] d <= k < d + (ll - ls) implies b[k] == s0[L + ls + k - d] by { assert(a[L + ls + k - d] == s0[L + ls + k - d]); }
    assert forall|k: int| #![trigger b[k]] D + ll + rs <= k < D + ll + rs + (rl - rs) implies b[k] == s0[R + rs + k - (D + ll + rs)] by { assert(a[R + rs + k - (D + ll + rs)] == s0[R + rs + k - (D + ll + rs)]); }
    lemma_msr_same(s0, L + ls, L + ll, b, d);
    lemma_msr_same(s0, R + rs, R + rl, b, D + ll + rs);
    lemma_msr_split(b, D, d, D + ll + rs);
    lemma_msr_split(b, D, D + ll + rs, D + ll + rl);
    lemma_msr_split(s0, L, L + ls, L + ll);
    lemma_msr_split(s0, R, R + rs, R + rl);
    assert(msr(b, D, D + ll + rl) =~= msr(s0, L, L + ll).add(msr(s0, R, R + rl)));
}
pub proof fn lemma_pmg_join<T>(s0: Seq<T>, a: Seq<T>, b: Seq<T>, L: int, ll: int, R: int, rl: int, D: int, x: int, y: int)
    requires
        frame(s0, a, D, D + x + y), frame(a, b, D + x + y, D + ll + rl),
        0 <= L, 0 <= R, 0 <= D, L + ll <= s0.len(), R + rl <= s0.len(), D + ll + rl <= s0.len(),
        0 <= x <= ll, 0 <= y <= rl, off_dest(L, ll, D, ll + rl), off_dest(R, rl, D, ll + rl),
        msr(a, D, D + x + y) == msr(s0, L, L + x).add(msr(s0, R, R + y)),
        msr(b, D + x + y, D + ll + rl) == msr(a, L + x, L + ll).add(msr(a, R + y, R + rl)),
    ensures
        frame(s0, b, D, D + ll + rl),
        msr(b, D, D + ll + rl) == msr(s0, L, L + ll).add(msr(s0, R, R + rl)),
{
    assert(frame(s0, b, D, D + ll + rl)) by { assert forall|i: int| #![trigger b[i]] 0 <= i < s0.len() && !(D <= i < D + ll + rl) implies s0[i] == b[i] by { assert(a[i] == s0[i]); } }
    lemma_msr_same(a, D, D + x + y, b, D);
    lemma_msr_same(s0, L + x, L + ll, a, L + x);
    lemma_msr_same(s0, R + y, R + rl, a, R + y);
    lemma_msr_split(b, D, D + x + y, D + ll + rl);
    lemma_msr_split(s0, L, L + x, L + ll);
    lemma_msr_split(s0, R, R + y, R + rl);
    assert(msr(b, D, D + ll + rl) =~= msr(s0, L, L + ll).add(msr(s0, R, R + rl)));
}
}verus
verus{ O
/// Two sorted ranges, the elements of the first being the earlier ones.
pub open spec fn mg_pre<T>(g: CmpG<T>, s: Seq<T>, L: int, ll: int, R: int, rl: int) -> bool {
    &&& g.ok && sorted(g, s, L, L + ll) && sorted(g, s, R, R + rl)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] L <= i < L + ll && R <= j < R + rl ==> (g.rank)(s[i]) <= (g.rank)(s[j])
}
/// The first `a` of one and `b` of the other belong before what is left of both.
pub open spec fn splits<T>(g: CmpG<T>, s: Seq<T>, L: int, ll: int, R: int, rl: int, a: int, b: int) -> bool {
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] L <= i < L + a && R + b <= j < R + rl ==> !lt(g, s[j], s[i])
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] R <= i < R + b && L + a <= j < L + ll ==> lt(g, s[i], s[j])
}
#[verifier::opaque]
pub open spec fn mg<T>(g: CmpG<T>, s0: Seq<T>, s: Seq<T>, L: int, ll: int, R: int, rl: int, D: int, ls: int, rs: int) -> bool {
    &&& sorted(g, s, D, D + ls + rs)
    &&& forall|i: int, j: int| #![trigger s[i], s0[j]] D <= i < D + ls + rs && L + ls <= j < L + ll ==> le(g, s[i], s0[j])
    &&& forall|i: int, j: int| #![trigger s[i], s0[j]] D <= i < D + ls + rs && R + rs <= j < R + rl ==> le(g, s[i], s0[j])
}
pub proof fn lemma_mg_init<T>(g: CmpG<T>, s: Seq<T>, L: int, ll: int, R: int, rl: int, D: int)
    ensures mg(g, s, s, L, ll, R, rl, D, 0, 0)
{ reveal(mg); }
pub proof fn lemma_mg_step<T>(g: CmpG<T>, s0: Seq<T>, a: Seq<T>, b: Seq<T>, L: int, ll: int, R: int, rl: int, D: int, ls: int, rs: int, right: bool)
    requires
        mg_pre(g, s0, L, ll, R, rl), mg(g, s0, a, L, ll, R, rl, D, ls, rs), frame(s0, a, D, D + ls + rs),
        0 <= L, 0 <= R, 0 <= D, L + ll <= s0.len(), R + rl <= s0.len(), D + ll + rl <= s0.len(),
        0 <= ls < ll, 0 <= rs < rl, off_dest(L, ll, D, ll + rl), off_dest(R, rl, D, ll + rl),
        b == a.update(D + ls + rs, if right { a[R + rs] } else { a[L + ls] }),
        right <==> lt(g, a[R + rs], a[L + ls]),
    ensures
        right ==> mg(g, s0, b, L, ll, R, rl, D, ls, rs + 1),
        !right ==> mg(g, s0, b, L, ll, R, rl, D, ls + 1, rs),
{
    reveal(mg);
    let d = D + ls + rs;
    let x = b[d];
    assert(a[R + rs] == s0[R + rs] && a[L + ls] == s0[L + ls]);
    let (l2, r2) = if right { (ls, rs + 1) } else { (ls + 1, rs) };
    assert forall|j: int| #![trigger s0[j]] L + l2 <= j < L + ll implies le(g, x, s0[j]) by {
        if right { if j > L + ls { assert(le(g, s0[L + ls], s0[j])); } } else { assert(le(g, s0[L + ls], s0[j])); }
    }
    assert forall|j: int| #![trigger s0[j]] R + r2 <= j < R + rl implies le(g, x, s0[j]) by {
        if right { assert(le(g, s0[R + rs], s0[j])); } else {
            if j > R + rs { assert(le(g, s0[R + rs], s0[j])); }
            assert((g.rank)(s0[L + ls]) <= (g.rank)(s0[j]));
        }
    }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] D <= i < j < d + 1 implies le(g, b[i], b[j]) by {
        if j == d { if right { assert(le(g, a[i], s0[R + rs])); } else { assert(le(g, a[i], s0[L + ls])); } } else { assert(le(g, a[i], a[j])); }
    }
    assert forall|i: int, j: int| #![trigger b[i], s0[j]] D <= i < d + 1 && L + l2 <= j < L + ll implies le(g, b[i], s0[j]) by { if i < d { assert(le(g, a[i], s0[j])); } }
    assert forall|i: int, j: int| #![trigger b[i], s0[j]] D <= i < d + 1 && R + r2 <= j < R + rl implies le(g, b[i], s0[j]) by { if i < d { assert(le(g, a[i], s0[j])); } }
}
pub proof fn lemma_mg_done<T>(g: CmpG<T>, s0: Seq<T>, a: Seq<T>, b: Seq<T>, L: int, ll: int, R: int, rl: int, D: int, ls: int, rs: int)
    requires
        pmg_copied(s0, a, b, L, ll, R, rl, D, ls, rs),
        mg_pre(g, s0, L, ll, R, rl), mg(g, s0, a, L, ll, R, rl, D, ls, rs), ls == ll || rs == rl,
    ensures sorted(g, b, D, D + ll + rl)
{
    reveal(mg);
    let d = D + ls + rs;
    assert forall|k: int| #![trigger b[k]] d <= k < D + ll + rs implies b[k] == s0[L + ls + k - d] by { assert(a[L + ls + k - d] == s0[L + ls + k - d]); }
    assert forall|k: int| #![trigger b[k]] D + ll + rs <= k < D + ll + rl implies b[k] == s0[R + rs + k - (D + ll + rs)] by { assert(a[R + rs + k - (D + ll + rs)] == s0[R + rs + k - (D + ll + rs)]); }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] D <= i < j < D + ll + rl implies le(g, b[i], b[j]) by {
        let q = if j < D + ll + rs { L + ls + j - d } else { R + rs + j - (D + ll + rs) };
        if j < d { assert(le(g, a[i], a[j])); assert(a[i] == b[i] && a[j] == b[j]); }
        else if i < d { assert(a[i] == b[i]); assert(le(g, a[i], s0[q])); }
        else {
            let p = if i < D + ll + rs { L + ls + i - d } else { R + rs + i - (D + ll + rs) };
            assert(le(g, s0[p], s0[q]));
        }
    }
}
pub proof fn lemma_mg_sub<T>(g: CmpG<T>, s: Seq<T>, t: Seq<T>, L: int, ll: int, R: int, rl: int, a: int, b: int, c: int, d: int)
    requires mg_pre(g, s, L, ll, R, rl), 0 <= a <= b <= ll, 0 <= c <= d <= rl,
        forall|k: int| #![trigger t[k]] L + a <= k < L + b ==> t[k] == s[k],
        forall|k: int| #![trigger t[k]] R + c <= k < R + d ==> t[k] == s[k],
    ensures mg_pre(g, t, L + a, b - a, R + c, d - c)
{
    assert forall|i: int, j: int| #![trigger t[i], t[j]] L + a <= i < j < L + b implies le(g, t[i], t[j]) by { assert(le(g, s[i], s[j])); }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] R + c <= i < j < R + d implies le(g, t[i], t[j]) by { assert(le(g, s[i], s[j])); }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] L + a <= i < L + b && R + c <= j < R + d implies (g.rank)(t[i]) <= (g.rank)(t[j]) by { assert((g.rank)(s[i]) <= (g.rank)(s[j])); }
}
pub proof fn lemma_mg_join<T>(g: CmpG<T>, s0: Seq<T>, a: Seq<T>, b: Seq<T>, L: int, ll: int, R: int, rl: int, D: int, x: int, y: int)
    requires
        frame(s0, a, D, D + x + y), frame(a, b, D + x + y, D + ll + rl),
        0 <= L, 0 <= R, 0 <= D, L + ll <= s0.len(), R + rl <= s0.len(), D + ll + rl <= s0.len(),
        0 <= x <= ll, 0 <= y <= rl, off_dest(L, ll, D, ll + rl), off_dest(R, rl, D, ll + rl),
        msr(a, D, D + x + y) == msr(s0, L, L + x).add(msr(s0, R, R + y)),
        msr(b, D + x + y, D + ll + rl) == msr(a, L + x, L + ll).add(msr(a, R + y, R + rl)),
        mg_pre(g, s0, L, ll, R, rl), splits(g, s0, L, ll, R, rl, x, y),
        sorted(g, a, D, D + x + y), sorted(g, b, D + x + y, D + ll + rl),
    ensures sorted(g, b, D, D + ll + rl)
{
    let m = D + x + y;
    lemma_msr_in(a, D, m, msr(a, D, m));
    lemma_msr_in(b, m, D + ll + rl, msr(b, m, D + ll + rl));
    lemma_msr_in(s0, L, L + x, msr(s0, L, L + x));
    lemma_msr_in(s0, R, R + y, msr(s0, R, R + y));
    lemma_msr_in(a, L + x, L + ll, msr(a, L + x, L + ll));
    lemma_msr_in(a, R + y, R + rl, msr(a, R + y, R + rl));
    assert forall|i: int, j: int| #![trigger b[i], b[j]] D <= i < j < D + ll + rl implies le(g, b[i], b[j]) by {
        if j < m { assert(a[i] == b[i] && a[j] == b[j]); assert(le(g, a[i], a[j])); }
        else if i < m {
            assert(a[i] == b[i]);
            let (u, w) = (b[i], b[j]);
            assert(msr(a, D, m).count(u) > 0);
            assert(msr(b, m, D + ll + rl).count(w) > 0);
            let p = if msr(s0, L, L + x).count(u) > 0 { choose|p: int| L <= p < L + x && #[trigger] s0[p] == u } else { choose|p: int| R <= p < R + y && #[trigger] s0[p] == u };
            assert(msr(s0, L, L + x).count(u) > 0 || msr(s0, R, R + y).count(u) > 0);
            assert(msr(a, L + x, L + ll).count(w) > 0 || msr(a, R + y, R + rl).count(w) > 0);
            let q = if msr(a, L + x, L + ll).count(w) > 0 { choose|q: int| L + x <= q < L + ll && #[trigger] a[q] == w } else { choose|q: int| R + y <= q < R + rl && #[trigger] a[q] == w };
            assert(a[q] == s0[q]);
            assert(s0[p] == u && s0[q] == w);
            if msr(s0, L, L + x).count(u) > 0 {
                if msr(a, L + x, L + ll).count(w) > 0 { assert(le(g, s0[p], s0[q])); } else { assert(!lt(g, s0[q], s0[p])); assert((g.rank)(s0[p]) <= (g.rank)(s0[q])); }
            } else {
                if msr(a, L + x, L + ll).count(w) > 0 { assert(lt(g, s0[p], s0[q])); } else { assert(le(g, s0[p], s0[q])); }
            }
        } else { assert(le(g, b[i], b[j])); }
    }
}
}verus

fn par::merge_sort::recurse::CopyOnDrop::drop
requires self_.src_start + self_.len <= self_.src.len, self_.dest_start + self_.len <= self_.dest.len
requires self_.src.hi() <= hp0.len(), self_.dest.hi() <= hp0.len(), apart(self_.src, self_.dest)
ensures frame(hp0, hp1, self_.dest.base + self_.dest_start, self_.dest.base + self_.dest_start + self_.len)
ensures forall|k: int| #![trigger hp1[k]] self_.dest.base + self_.dest_start <= k < self_.dest.base + self_.dest_start + self_.len ==> hp1[k] == hp0[self_.src.base + self_.src_start + k - (self_.dest.base + self_.dest_start)]
inv 1 frame(hp0, hp@, self_.dest.base + self_.dest_start, self_.dest.base + self_.dest_start + i)
inv 1 forall|k: int| #![trigger hp@[k]] self_.dest.base + self_.dest_start <= k < self_.dest.base + self_.dest_start + i ==> hp@[k] == hp0[self_.src.base + self_.src_start + k - (self_.dest.base + self_.dest_start)]

fn par::merge_sort::recurse
requires apart(v, buf), v.len <= buf.len, chunks@.len() > 0, ctile(chunks@, v.len as int)
ensures frame2(hp0, hp1, v.base + chunks@[0].0, v.base + chunks@.last().1, buf.base + chunks@[0].0, buf.base + chunks@.last().1)
ensures[C03,C04] msr(hp1, (if into_buf { buf.base } else { v.base }) + chunks@[0].0, (if into_buf { buf.base } else { v.base }) + chunks@.last().1) == msr(hp0, v.base + chunks@[0].0, v.base + chunks@.last().1)
ensures[O] ok: g.ok && cpre(g, hp0, v.base as int, chunks@) ==> sorted(g, hp1, (if into_buf { buf.base } else { v.base }) + chunks@[0].0, (if into_buf { buf.base } else { v.base }) + chunks@.last().1)
decreases chunks@.len()
at start: lemma_ctile(chunks@, v.len as int)
at start: let ghost (V, B) = (v, buf)
at[O] then 1: if cpre(g, hp0, v.base as int, chunks@) { lemma_cpre_at(g, hp0, v.base as int, chunks@, 0); }
inv 1 start == chunks@[0].0, end == chunks@[0].1, v == V, buf == B, apart(V, B), V.len <= B.len, start <= end <= V.len, V.hi() <= hp0.len(), B.hi() <= hp0.len()
inv 1 frame(hp0, hp@, B.base + start, B.base + i)
inv 1 forall|k: int| #![trigger hp@[k]] B.base + start <= k < B.base + i ==> hp@[k] == hp0[V.base + k - B.base]
at loop 1 after: lemma_msr_same(hp0, V.base + chunks@[0].0, V.base + chunks@[0].1, hp@, B.base + chunks@[0].0)
at let mid 1: lemma_ctile_split(chunks@, V.len as int, (len / 2) as int)
at let dest 1: let ghost (S, M, E, Q, D) = (start as int, mid as int, end as int, src.base as int, dest.base as int)
at[O] before recurse 1: if cpre(g, hp0, V.base as int, chunks@) { lemma_cpre_split(g, hp0, hp0, V.base as int, chunks@, V.len as int, left@.len() as int); }
at before recurse 1: assert(left@[0] == chunks@[0] && left@.last().1 == mid && right@[0].0 == mid && right@.last() == chunks@.last())
at before recurse 2: let ghost h_1 = hp@
at[O] before recurse 2: if cpre(g, hp0, V.base as int, chunks@) { lemma_cpre_split(g, hp0, hp@, V.base as int, chunks@, V.len as int, left@.len() as int); }
at after recurse 2: let ghost h_2 = hp@
at after recurse 2: lemma_rec_join(hp0, h_1, h_2, V.base as int, B.base as int, V.len as int, Q, S, M, E)
at unwound join_recurse 1: lemma_msr_same(h_2, Q + S, Q + E, hp@, D + S)
at unwound join_recurse 2: lemma_msr_same(h_2, Q + S, Q + E, hp@, D + S)
at[O] before par_merge 1: if g.ok && cpre(g, hp0, V.base as int, chunks@) { lemma_cpre_ranks(g, hp0, h_1, h_2, V.base as int, chunks@, V.len as int, left@.len() as int, B.base as int, Q); }
at before par_merge 1: lemma_msr_split(hp@, Q + S, Q + M, Q + E)

verus{
/// Chunks that tile a part of [0, n).
#[verifier::opaque]
pub open spec fn ctile(c: Seq<(usize, usize)>, n: int) -> bool {
    &&& forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> c[k].0 <= c[k].1 <= n
    &&& forall|k: int| #![trigger c[k]] 0 < k < c.len() ==> c[k - 1].1 == c[k].0
}
pub proof fn lemma_ctile_mono(c: Seq<(usize, usize)>, n: int, i: int, j: int)
    requires ctile(c, n), 0 <= i <= j < c.len()
    ensures c[i].0 <= c[j].0, c[i].1 <= c[j].1
    decreases j - i
{ reveal(ctile); if i < j { lemma_ctile_mono(c, n, i, j - 1); assert(c[j - 1].1 == c[j].0); } }
pub proof fn lemma_ctile(c: Seq<(usize, usize)>, n: int)
    requires ctile(c, n), c.len() > 0
    ensures c[0].0 <= c[0].1 <= c.last().1 <= n, c[0].0 <= c.last().0 <= c.last().1
{ lemma_ctile_mono(c, n, 0, c.len() - 1); reveal(ctile); }
pub proof fn lemma_ctile_split(c: Seq<(usize, usize)>, n: int, m: int)
    requires ctile(c, n), 0 < m < c.len()
    ensures ({
        let (l, r) = (c.subrange(0, m), c.subrange(m, c.len() as int));
        &&& ctile(l, n) && ctile(r, n) && l.len() > 0 && r.len() > 0
        &&& l[0] == c[0] && l.last().1 == c[m].0 && r[0] == c[m] && r.last() == c.last()
        &&& c[0].0 <= c[m].0 <= c.last().1 <= n
    })
{
    lemma_ctile_mono(c, n, 0, m);
    lemma_ctile_mono(c, n, m, c.len() - 1);
    reveal(ctile);
    let r = c.subrange(m, c.len() as int);
    assert forall|k: int| #![trigger r[k]] 0 < k < r.len() implies r[k - 1].1 == r[k].0 by { assert(c[m + k - 1].1 == c[m + k].0); }
    assert(c[m - 1].1 == c[m].0);
}
pub proof fn lemma_rec_join<T>(s0: Seq<T>, a: Seq<T>, b: Seq<T>, v: int, w: int, n: int, q: int, s: int, m: int, e: int)
    requires
        0 <= v, 0 <= w, v + n <= s0.len(), w + n <= s0.len(), v + n <= w || w + n <= v, 0 <= s <= m <= e <= n, q == v || q == w,
        frame2(s0, a, v + s, v + m, w + s, w + m), frame2(a, b, v + m, v + e, w + m, w + e),
        msr(a, q + s, q + m) == msr(s0, v + s, v + m),
        msr(b, q + m, q + e) == msr(a, v + m, v + e),
    ensures
        frame2(s0, b, v + s, v + e, w + s, w + e),
        msr(b, q + s, q + e) == msr(s0, v + s, v + e),
        msr(b, q + s, q + m) == msr(s0, v + s, v + m),
        msr(b, q + m, q + e) == msr(s0, v + m, v + e),
{
    assert forall|i: int| #![trigger b[i]] 0 <= i < s0.len() && !(v + s <= i < v + e) && !(w + s <= i < w + e) implies s0[i] == b[i] by { assert(a[i] == s0[i]); }
    lemma_msr_same(s0, v + m, v + e, a, v + m);
    lemma_msr_same(a, q + s, q + m, b, q + s);
    lemma_msr_split(b, q + s, q + m, q + e);
    lemma_msr_split(s0, v + s, v + m, v + e);
}
}verus
verus{ O
/// Each chunk is sorted, ranks do not decrease across chunk boundaries.
#[verifier::opaque]
pub open spec fn cpre<T>(g: CmpG<T>, s: Seq<T>, v: int, c: Seq<(usize, usize)>) -> bool {
    forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> sorted(g, s, v + c[k].0, v + c[k].1) && xr(g, s, v + c[0].0, v + c[k].0, v + c.last().1)
}
pub proof fn lemma_cpre_at<T>(g: CmpG<T>, s: Seq<T>, v: int, c: Seq<(usize, usize)>, k: int)
    requires cpre(g, s, v, c), 0 <= k < c.len()
    ensures sorted(g, s, v + c[k].0, v + c[k].1), xr(g, s, v + c[0].0, v + c[k].0, v + c.last().1)
{ reveal(cpre); }
/// Both halves, the first changed or not.
pub proof fn lemma_cpre_split<T>(g: CmpG<T>, s: Seq<T>, t: Seq<T>, v: int, c: Seq<(usize, usize)>, n: int, m: int)
    requires cpre(g, s, v, c), ctile(c, n), 0 < m < c.len(), 0 <= v, v + n <= s.len(), s.len() == t.len(),
        forall|i: int| #![trigger t[i]] v + c[m].0 <= i < v + c.last().1 ==> t[i] == s[i],
    ensures cpre(g, s, v, c.subrange(0, m)), cpre(g, t, v, c.subrange(m, c.len() as int))
{
    lemma_ctile_split(c, n, m);
    let (l, r) = (c.subrange(0, m), c.subrange(m, c.len() as int));
    assert forall|k: int| #![trigger l[k]] 0 <= k < l.len() implies sorted(g, s, v + l[k].0, v + l[k].1) && xr(g, s, v + l[0].0, v + l[k].0, v + l.last().1) by { lemma_cpre_at(g, s, v, c, k); }
    reveal(cpre);
    assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() implies sorted(g, t, v + r[k].0, v + r[k].1) && xr(g, t, v + r[0].0, v + r[k].0, v + r.last().1) by {
        lemma_cpre_at(g, s, v, c, m + k);
        lemma_ctile_mono(c, n, m, m + k);
        lemma_ctile_mono(c, n, m + k, c.len() - 1);
        assert(r[k] == c[m + k]);
        assert forall|i: int, j: int| #![trigger t[i], t[j]] v + r[k].0 <= i < j < v + r[k].1 implies le(g, t[i], t[j]) by { assert(le(g, s[i], s[j])); }
        assert forall|i: int, j: int| #![trigger t[i], t[j]] v + r[0].0 <= i < v + r[k].0 && v + r[k].0 <= j < v + r.last().1 implies (g.rank)(t[i]) <= (g.rank)(t[j]) by { lemma_ctile_first(c, n, m + k); assert((g.rank)(s[i]) <= (g.rank)(s[j])); }
    }
}
pub proof fn lemma_ctile_first(c: Seq<(usize, usize)>, n: int, k: int)
    requires ctile(c, n), 0 <= k < c.len()
    ensures c[0].0 <= c[k].0 <= c[k].1 <= c.last().1
{ lemma_ctile_mono(c, n, 0, k); lemma_ctile_mono(c, n, k, c.len() - 1); reveal(ctile); }
pub proof fn lemma_cpre_ranks<T>(g: CmpG<T>, s0: Seq<T>, a: Seq<T>, b: Seq<T>, v: int, c: Seq<(usize, usize)>, n: int, x: int, w: int, q: int)
    requires
        cpre(g, s0, v, c), ctile(c, n), 0 < x < c.len(), 0 <= v, 0 <= w, v + n <= s0.len(), w + n <= s0.len(), v + n <= w || w + n <= v, q == v || q == w,
        g.ok, a.len() == s0.len(), b.len() == s0.len(),
        sorted(g, a, q + c[0].0, q + c[x].0), sorted(g, b, q + c[x].0, q + c.last().1),
        frame2(a, b, v + c[x].0, v + c.last().1, w + c[x].0, w + c.last().1),
        msr(b, q + c[0].0, q + c[x].0) == msr(s0, v + c[0].0, v + c[x].0),
        msr(b, q + c[x].0, q + c.last().1) == msr(s0, v + c[x].0, v + c.last().1),
    ensures mg_pre(g, b, q + c[0].0, c[x].0 - c[0].0, q + c[x].0, c.last().1 - c[x].0)
{
    lemma_ctile_split(c, n, x);
    lemma_cpre_at(g, s0, v, c, x);
    let (s, m, e) = (c[0].0 as int, c[x].0 as int, c.last().1 as int);
    assert forall|i: int, j: int| #![trigger b[i], b[j]] q + s <= i < j < q + m implies le(g, b[i], b[j]) by { assert(a[i] == b[i] && a[j] == b[j]); assert(le(g, a[i], a[j])); }
    lemma_msr_in(b, q + s, q + m, msr(b, q + s, q + m));
    lemma_msr_in(b, q + m, q + e, msr(b, q + m, q + e));
    lemma_msr_in(s0, v + s, v + m, msr(s0, v + s, v + m));
    lemma_msr_in(s0, v + m, v + e, msr(s0, v + m, v + e));
    assert forall|i: int, j: int| #![trigger b[i], b[j]] q + s <= i < q + m && q + m <= j < q + e implies (g.rank)(b[i]) <= (g.rank)(b[j]) by {
        assert(msr(s0, v + s, v + m).count(b[i]) > 0);
        assert(msr(s0, v + m, v + e).count(b[j]) > 0);
        let p = choose|p: int| v + s <= p < v + m && #[trigger] s0[p] == b[i];
        let r = choose|r: int| v + m <= r < v + e && #[trigger] s0[r] == b[j];
        assert((g.rank)(s0[p]) <= (g.rank)(s0[r]));
    }
}
}verus

fn par::merge_sort::par_merge_sort
conserve v
ensures[C15] bp1 == bp0
ensures[O] ok: g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> sorted(g, hp1, v.lo(), v.hi())
at[O] return 1: lemma_zst_sorted(g, hp@, v.lo(), v.hi())
inv 1 v == v_in, len == v.len, len >= 2
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> sorted(g, hp@, v.lo() + i, v.hi()) && rpre(g, hp@, v.lo(), v.lo() + i, v.hi())
at loop 1 begin: let ghost hp_b = hp@
at[O] after insert_head 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_rpre_perm(g, hp_b, hp@, v.lo() + i, v.hi(), v.lo(), v.lo() + i + 1, v.lo() + i, v.hi()); }
at before merge_sort 1: assert(bp@ =~= bp0.insert(own__1.blk, bp@[own__1.blk]))
at unwound merge_sort 1: assert(bp@ =~= bp0)
at return 3: assert(bp@ =~= bp0)
at let len 1: axiom_mem_bytes(*hp); lemma_bytes(len as int, hp@.len() as int, esize::<T>() as int)
at let buf 1: let ghost (N, blk) = (v.len as int, buf.blk)
at let chunks 1: lemma_dval_init(chunks.cells(), N)
at loop 2 before: assert(bp@ =~= bp0.insert(blk, bp@[blk]))
at[O] let chunks 1: if ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_dpre_init(g, hp@, v.lo(), v.hi(), dval(chunks.cells(), 0)); }
inv 2 v == v_in, N == v.len, N > 2000, chunks_iter.v == v, chunks_iter.size == 2000, src__2 == chunks_iter
inv 2 !bp0.contains_key(blk), hok(bp@, buf), buf.blk == blk, buf.off == 0, buf.cap >= N, bp@ == bp0.insert(blk, bp@[blk]), own__1 == buf
inv 2 chunks@.len() == 0, chunks.cells().len() >= len, it__2__end == len, len * 2000 >= N, (len - 1) * 2000 < N
inv 2 dtile(dval(chunks.cells(), it__2 as int), cut(it__2 as int, N), N)
inv 2 forall|k: int| #![trigger chunks.cells()[k]] 0 <= k < it__2 ==> chunks.cells()[k] is Some
inv 2[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 2[C03,C04] perm(hp0, hp@)
inv 2[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> ranked(g, hp@, v.lo(), v.lo() + cut(it__2 as int, N), v.hi()) && dpre(g, hp@, v.lo(), v.hi(), dval(chunks.cells(), it__2 as int), 0)
at loop 2 begin: let ghost (hp_b, c_b) = (hp@, chunks.cells())
at before merge_sort 2: assert(l == chunk.base - v.base && r == l + chunk.len && chunk.len > 0)
at[C15] before merge_sort 2: assert(buf.off == chunk.base - v.base)
at[O] before merge_sort 2: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_chunk_ranked(g, hp@, v.lo(), l as int, r as int, v.hi()); }
at unwound merge_sort 2: assert(bp@ =~= bp0)
at after merge_sort 2: assert(bp@ =~= bp0.insert(blk, bp@[blk]))
at after merge_sort 2: let ghost rv = RET
at after slot 1: lemma_dval_push(c_b, chunks.cells(), it__2 as int, (l, r, rv), N)
at[O] after slot 1: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_dpre_push(g, hp_b, hp@, v.lo(), v.hi(), dval(c_b, it__2 as int), (l, r, rv)); lemma_ranked_perm(g, hp_b, hp@, v.lo() + l, v.lo() + r, v.lo(), v.lo() + l, v.hi()); }
at let iter 1: lemma_dtile_len(iter.m@, N, N)
at let chunks 2: let ghost c = iter.m@
at let chunks 2: lemma_ctile_empty(N)
at[O] let chunks 2: lemma_fpre_empty(g, hp@, v.lo(), v.hi())
inv 3 v == v_in, N == v.len, c.len() > 0, dtile(c, N, N), iter.m@ == c, iter.wf()
inv 3 !bp0.contains_key(blk), hok(bp@, buf), buf.blk == blk, buf.off == 0, buf.cap >= N, bp@ == bp0.insert(blk, bp@[blk]), own__1 == buf
inv 3 ctile(chunks@, N), chunks@.len() == 0 <==> iter.pos@ == 0, chunks@.len() > 0 ==> chunks@[0].0 == 0 && chunks@.last().1 == c[iter.pos@ - 1].1
inv 3[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 3[C03,C04] perm(hp0, hp@)
inv 3[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> dpre(g, hp@, v.lo(), v.hi(), c, iter.pos@) && fpre(g, hp@, v.lo(), v.hi(), chunks@)
dec 3 c.len() - iter.pos@
at loop 3 begin: let ghost (hp_b, o_b, p_b) = (hp@, chunks@, iter.pos@)
at loop 3 body: lemma_dtile_at(c, N, N, p_b)
inv 4 v == v_in, N == v.len, dtile(c, N, N), iter.m@ == c, iter.wf(), p_b < iter.pos@, a == c[p_b].0, a < b <= N, b == c[iter.pos@ - 1].1, hp@ == hp_b, chunks@ == o_b
inv 4 !bp0.contains_key(blk), hok(bp@, buf), buf.blk == blk, bp@ == bp0.insert(blk, bp@[blk]), own__1 == buf
inv 4[O] g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) ==> run3(g, hp@, v.lo(), (a, b, res)) && dpre(g, hp@, v.lo(), v.hi(), c, iter.pos@) && xr(g, hp@, v.lo(), v.lo() + a, v.hi())
dec 4 c.len() - iter.pos@
at loop 4 body: lemma_dtile_at(c, N, N, iter.pos@); lemma_dtile_next(c, N, N, iter.pos@)
at unwound is_less 1: assert(bp@ =~= bp0)
at[O] loop 3 body: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_dpre_at(g, hp@, v.lo(), v.hi(), c, p_b, p_b); lemma_dpre_step(g, hp@, v.lo(), v.hi(), c, p_b); }
at[O] before next 2: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_dpre_at(g, hp@, v.lo(), v.hi(), c, iter.pos@, iter.pos@); lemma_dpre_step(g, hp@, v.lo(), v.hi(), c, iter.pos@); lemma_run3_join(g, hp@, v.lo(), v.hi(), a as int, x as int, y as int, res); }
at loop 3 end: lemma_ctile_push(o_b, N, (a, b))
at loop 3 body: lemma_dtile_next(c, N, N, p_b)
at[O] loop 3 end: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_concat(g, hp_b, hp@, v.lo(), v.hi(), c, iter.pos@, N, o_b, (a, b), res); }
at loop 3 after: lemma_dtile_last(c, N, N); lemma_ctile(chunks@, N)
at[O] loop 3 after: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_fpre_done(g, hp@, v.lo(), v.hi(), chunks@); }
at loop 3 after: let ghost hp_c = hp@
at loop 3 after: let ghost mut hp_a = hp@
at loop 3 after: let ghost mut hp_r = hp@
at let buf 5: hp_a = hp@
at[O] let buf 5: if g.ok && ranked(g, hp0, v.lo(), v.lo(), v.hi()) { lemma_cpre_take(g, hp_c, hp_a, v.lo(), chunks@, N); }
at unwind recurse 1: hp_r = hp@
at unwound recurse 1: lemma_unadopted(hp0, hp_c, hp_a, hp_r, hp@, v.lo(), v.hi()); assert(bp@ =~= bp0)
at after recurse 1: hp_r = hp@
at tail: lemma_unadopted(hp0, hp_c, hp_a, hp_r, hp@, v.lo(), v.hi()); assert(bp@ =~= bp0)

verus{
pub proof fn lemma_bytes(n: int, m: int, e: int)
    requires 0 <= n <= m, m * e <= isize::MAX, e >= 0
    ensures n * e <= isize::MAX
{ assert(n * e <= m * e) by (nonlinear_arith) requires 0 <= n <= m, e >= 0; }
pub open spec fn cut(k: int, n: int) -> int { if k * 2000 < n { k * 2000 } else { n } }
pub open spec fn dval(s: Seq<Option<(usize, usize, u8)>>, n: int) -> Seq<(usize, usize, u8)> { Seq::new(n as nat, |i: int| s[i]->Some_0) }
/// Non-empty chunks that tile [0, e), within [0, n).
#[verifier::opaque]
pub open spec fn dtile(c: Seq<(usize, usize, u8)>, e: int, n: int) -> bool {
    &&& forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> c[k].0 < c[k].1 <= n
    &&& forall|k: int| #![trigger c[k]] 0 < k < c.len() ==> c[k - 1].1 == c[k].0
    &&& c.len() > 0 ==> c[0].0 == 0 && c.last().1 == e
    &&& c.len() == 0 ==> e == 0
}
pub proof fn lemma_dval_init(s: Seq<Option<(usize, usize, u8)>>, n: int)
    requires n >= 0
    ensures dtile(dval(s, 0), 0, n)
{ reveal(dtile); }
pub proof fn lemma_dval_push(s: Seq<Option<(usize, usize, u8)>>, t: Seq<Option<(usize, usize, u8)>>, k: int, x: (usize, usize, u8), n: int)
    requires 0 <= k < s.len(), t == s.update(k, Some(x)), k * 2000 < n, dtile(dval(s, k), cut(k, n), n), x.0 == k * 2000, x.1 == cut(k + 1, n)
    ensures dval(t, k + 1) == dval(s, k).push(x), dtile(dval(t, k + 1), cut(k + 1, n), n)
{
    reveal(dtile);
    assert(dval(t, k + 1) =~= dval(s, k).push(x));
    let c = dval(s, k);
    let d = c.push(x);
    assert forall|j: int| #![trigger d[j]] 0 < j < d.len() implies d[j - 1].1 == d[j].0 by { if j < k { assert(c[j - 1].1 == c[j].0); } else { assert(d[j - 1] == c.last()); } }
}
pub proof fn lemma_dtile_len(c: Seq<(usize, usize, u8)>, e: int, n: int)
    requires dtile(c, e, n), e > 0
    ensures c.len() > 0
{ reveal(dtile); }
pub proof fn lemma_dtile_at(c: Seq<(usize, usize, u8)>, e: int, n: int, k: int)
    requires dtile(c, e, n), 0 <= k < c.len()
    ensures c[k].0 < c[k].1 <= n, c[0].0 == 0, k > 0 ==> c[k - 1].1 == c[k].0
{ reveal(dtile); }
pub proof fn lemma_dtile_next(c: Seq<(usize, usize, u8)>, e: int, n: int, k: int)
    requires dtile(c, e, n), 0 <= k < c.len()
    ensures k > 0 ==> c[k - 1].1 == c[k].0, k == 0 ==> c[k].0 == 0
{ reveal(dtile); }
pub proof fn lemma_dtile_last(c: Seq<(usize, usize, u8)>, e: int, n: int)
    requires dtile(c, e, n), c.len() > 0
    ensures c.last().1 == e
{ reveal(dtile); }
pub proof fn lemma_ctile_empty(n: int)
    ensures ctile(Seq::empty(), n)
{ reveal(ctile); }
pub proof fn lemma_ctile_push(o: Seq<(usize, usize)>, n: int, x: (usize, usize))
    requires ctile(o, n), x.0 <= x.1 <= n, o.len() > 0 ==> o.last().1 == x.0
    ensures ctile(o.push(x), n)
{
    reveal(ctile);
    let t = o.push(x);
    assert forall|k: int| #![trigger t[k]] 0 < k < t.len() implies t[k - 1].1 == t[k].0 by { if k < o.len() { assert(o[k - 1].1 == o[k].0); } else { assert(t[k - 1] == o.last()); } }
}
/// The array after the view of the scratch memory is gone.
pub proof fn lemma_unadopted<T>(s0: Seq<T>, a: Seq<T>, b: Seq<T>, r: Seq<T>, f: Seq<T>, lo: int, hi: int)
    requires
        0 <= lo <= hi <= s0.len(), frame(s0, a, lo, hi), perm(s0, a), b.len() == a.len() + (hi - lo), b.take(a.len() as int) == a,
        frame2(b, r, lo, hi, a.len() as int, a.len() + (hi - lo)), f == r.take(a.len() as int), msr(r, lo, hi) == msr(b, lo, hi),
    ensures frame(s0, f, lo, hi), perm(s0, f), forall|i: int| #![trigger f[i]] lo <= i < hi ==> f[i] == r[i]
{
    assert forall|i: int| #![trigger f[i]] 0 <= i < s0.len() && !(lo <= i < hi) implies a[i] == f[i] by { assert(r[i] == b[i]); assert(b.take(a.len() as int)[i] == b[i]); }
    assert forall|i: int| #![trigger b[i]] 0 <= i < a.len() implies b[i] == a[i] by { assert(b.take(a.len() as int)[i] == b[i]); }
    lemma_msr_same(a, lo, hi, b, lo);
    lemma_msr_same(r, lo, hi, f, lo);
    lemma_msr_perm(a, f, lo, hi);
}
}verus
verus{ O
pub open spec fn run3<T>(g: CmpG<T>, s: Seq<T>, v: int, x: (usize, usize, u8)) -> bool {
    if x.2 == par__merge_sort__MergesortResult__Descending { falling(g, s, v + x.0, v + x.1) } else { sorted(g, s, v + x.0, v + x.1) }
}
/// From chunk p on: each is sorted or strictly falling, ranks do not decrease across chunk boundaries.
#[verifier::opaque]
pub open spec fn dpre<T>(g: CmpG<T>, s: Seq<T>, v: int, hi: int, c: Seq<(usize, usize, u8)>, p: int) -> bool {
    forall|k: int| #![trigger c[k]] p <= k < c.len() ==> run3(g, s, v, c[k]) && xr(g, s, v, v + c[k].0, hi)
}
pub proof fn lemma_dpre_init<T>(g: CmpG<T>, s: Seq<T>, v: int, hi: int, c: Seq<(usize, usize, u8)>)
    requires c.len() == 0
    ensures dpre(g, s, v, hi, c, 0)
{ reveal(dpre); }
pub proof fn lemma_dpre_at<T>(g: CmpG<T>, s: Seq<T>, v: int, hi: int, c: Seq<(usize, usize, u8)>, p: int, k: int)
    requires dpre(g, s, v, hi, c, p), 0 <= p <= k < c.len()
    ensures run3(g, s, v, c[k]), xr(g, s, v, v + c[k].0, hi)
{ reveal(dpre); }
pub proof fn lemma_dpre_step<T>(g: CmpG<T>, s: Seq<T>, v: int, hi: int, c: Seq<(usize, usize, u8)>, p: int)
    requires dpre(g, s, v, hi, c, p)
    ensures dpre(g, s, v, hi, c, p + 1)
{ reveal(dpre); }
pub proof fn lemma_chunk_ranked<T>(g: CmpG<T>, s: Seq<T>, v: int, l: int, r: int, hi: int)
    requires ranked(g, s, v, v + l, hi), 0 <= l <= r, v + r <= hi
    ensures ranked(g, s, v + l, v + l, v + r)
{ }
/// A run stays what it is when something outside it changes.
pub proof fn lemma_run3_frame<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, l: int, h: int, v: int, x: (usize, usize, u8))
    requires frame(a, b, l, h), run3(g, a, v, x), 0 <= v, v + x.1 <= a.len(), v + x.1 <= l || h <= v + x.0
    ensures run3(g, b, v, x)
{
    if x.2 == par__merge_sort__MergesortResult__Descending {
        assert forall|i: int, j: int| #![trigger b[i], b[j]] v + x.0 <= i < j < v + x.1 implies lt(g, b[j], b[i]) by { assert(lt(g, a[j], a[i])); }
    } else { lemma_sorted_frame(g, a, b, l, h, v + x.0, v + x.1); }
}
pub proof fn lemma_dpre_push<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, v: int, hi: int, c: Seq<(usize, usize, u8)>, x: (usize, usize, u8))
    requires
        dpre(g, a, v, hi, c, 0), dtile(c, x.0 as int, hi - v), perm(a, b), frame(a, b, v + x.0, v + x.1), 0 <= v, x.0 <= x.1, v + x.1 <= hi <= a.len(),
        ranked(g, a, v, v + x.0, hi), run3(g, b, v, x),
    ensures dpre(g, b, v, hi, c.push(x), 0)
{
    let d = c.push(x);
    assert forall|k: int| #![trigger d[k]] 0 <= k < d.len() implies run3(g, b, v, d[k]) && xr(g, b, v, v + d[k].0, hi) by {
        if k < c.len() {
            lemma_dpre_at(g, a, v, hi, c, 0, k);
            lemma_dtile_up(c, x.0 as int, hi - v, k);
            lemma_run3_frame(g, a, b, v + x.0, v + x.1, v, c[k]);
            lemma_xr_perm(g, a, b, v + x.0, v + x.1, v, v + c[k].0, hi);
        } else {
            lemma_xr_perm(g, a, b, v + x.0, v + x.1, v, v + x.0, hi);
        }
    }
    reveal(dpre);
}
pub proof fn lemma_dtile_up(c: Seq<(usize, usize, u8)>, e: int, n: int, k: int)
    requires dtile(c, e, n), 0 <= k < c.len()
    ensures c[k].0 < c[k].1 <= e
    decreases c.len() - k
{ reveal(dtile); if k + 1 < c.len() { lemma_dtile_up(c, e, n, k + 1); assert(c[k].1 == c[k + 1].0); } }
pub proof fn lemma_dtile_mono(c: Seq<(usize, usize, u8)>, e: int, n: int, i: int, j: int)
    requires dtile(c, e, n), 0 <= i < j < c.len()
    ensures c[i].1 <= c[j].0
    decreases j - i
{ reveal(dtile); if i + 1 < j { lemma_dtile_mono(c, e, n, i, j - 1); assert(c[j - 1].1 == c[j].0); } }
pub proof fn lemma_run3_join<T>(g: CmpG<T>, s: Seq<T>, v: int, hi: int, a: int, x: int, y: int, res: u8)
    requires
        g.ok, 0 <= v, 0 <= a < x < y, v + y <= hi <= s.len(), y <= usize::MAX,
        run3(g, s, v, (a as usize, x as usize, res)), run3(g, s, v, (x as usize, y as usize, res)), xr(g, s, v, v + x, hi),
        (res == par__merge_sort__MergesortResult__Descending) == lt(g, s[v + x], s[v + x - 1]),
    ensures run3(g, s, v, (a as usize, y as usize, res))
{
    if res == par__merge_sort__MergesortResult__Descending {
        assert forall|i: int, j: int| #![trigger s[i], s[j]] v + a <= i < j < v + y implies lt(g, s[j], s[i]) by {
            if i < v + x <= j {
                if i < v + x - 1 { assert(lt(g, s[v + x - 1], s[i])); }
                if v + x < j { assert(lt(g, s[j], s[v + x])); }
            }
        }
    } else {
        assert forall|i: int, j: int| #![trigger s[i], s[j]] v + a <= i < j < v + y implies le(g, s[i], s[j]) by {
            if i < v + x <= j {
                if i < v + x - 1 { assert(le(g, s[i], s[v + x - 1])); }
                if v + x < j { assert(le(g, s[v + x], s[j])); }
                assert((g.rank)(s[i]) <= (g.rank)(s[j]));
            }
        }
    }
}
/// Chunks that are final.
#[verifier::opaque]
pub open spec fn fpre<T>(g: CmpG<T>, s: Seq<T>, v: int, hi: int, o: Seq<(usize, usize)>) -> bool {
    forall|k: int| #![trigger o[k]] 0 <= k < o.len() ==> sorted(g, s, v + o[k].0, v + o[k].1) && xr(g, s, v, v + o[k].0, hi)
}
pub proof fn lemma_fpre_empty<T>(g: CmpG<T>, s: Seq<T>, v: int, hi: int)
    ensures fpre(g, s, v, hi, Seq::empty())
{ reveal(fpre); }
pub proof fn lemma_fpre_done<T>(g: CmpG<T>, s: Seq<T>, v: int, hi: int, o: Seq<(usize, usize)>)
    requires fpre(g, s, v, hi, o), o.len() > 0, o[0].0 == 0, o.last().1 == hi - v
    ensures cpre(g, s, v, o)
{ reveal(fpre); reveal(cpre); }
pub proof fn lemma_cpre_take<T>(g: CmpG<T>, s: Seq<T>, t: Seq<T>, v: int, o: Seq<(usize, usize)>, n: int)
    requires cpre(g, s, v, o), ctile(o, n), 0 <= v, v + n <= s.len(), s.len() <= t.len(), t.take(s.len() as int) == s
    ensures cpre(g, t, v, o)
{
    reveal(cpre);
    assert forall|i: int| #![trigger t[i]] 0 <= i < s.len() implies t[i] == s[i] by { assert(t.take(s.len() as int)[i] == t[i]); }
    assert forall|k: int| #![trigger o[k]] 0 <= k < o.len() implies sorted(g, t, v + o[k].0, v + o[k].1) && xr(g, t, v + o[0].0, v + o[k].0, v + o.last().1) by {
        lemma_ctile_first(o, n, k);
        lemma_ctile(o, n);
        assert forall|i: int, j: int| #![trigger t[i], t[j]] v + o[k].0 <= i < j < v + o[k].1 implies le(g, t[i], t[j]) by { assert(le(g, s[i], s[j])); }
        assert forall|i: int, j: int| #![trigger t[i], t[j]] v + o[0].0 <= i < v + o[k].0 && v + o[k].0 <= j < v + o.last().1 implies (g.rank)(t[i]) <= (g.rank)(t[j]) by { assert((g.rank)(s[i]) <= (g.rank)(s[j])); }
    }
}
/// The next final chunk: [x.0, x.1), reversed if it was falling; q is the first chunk after it.
pub proof fn lemma_concat<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, v: int, hi: int, c: Seq<(usize, usize, u8)>, q: int, n: int, o: Seq<(usize, usize)>, x: (usize, usize), res: u8)
    requires
        g.ok, 0 <= v, n == hi - v, hi <= a.len(), dtile(c, n, n), 0 < q <= c.len(), x.1 == c[q - 1].1, x.0 < x.1 <= n, ctile(o, n), o.len() > 0 ==> o.last().1 == x.0,
        run3(g, a, v, (x.0, x.1, res)), xr(g, a, v, v + x.0, hi), dpre(g, a, v, hi, c, q), fpre(g, a, v, hi, o),
        perm(a, b), frame(a, b, v + x.0, v + x.1),
        res == par__merge_sort__MergesortResult__Descending ==> forall|k: int| #![trigger b[k]] v + x.0 <= k < v + x.1 ==> b[k] == a[v + x.1 - 1 - (k - (v + x.0))],
        res != par__merge_sort__MergesortResult__Descending ==> a == b,
    ensures dpre(g, b, v, hi, c, q), fpre(g, b, v, hi, o.push(x))
{
    let (l, h) = (v + x.0, v + x.1);
    if res == par__merge_sort__MergesortResult__Descending {
        assert forall|i: int, j: int| #![trigger b[i], b[j]] l <= i < j < h implies le(g, b[i], b[j]) by {
            let (p, r) = (h - 1 - (i - l), h - 1 - (j - l));
            assert(b[i] == a[p] && b[j] == a[r]);
            assert(lt(g, a[p], a[r]));
        }
    }
    lemma_xr_perm(g, a, b, l, h, v, l, hi);
    let d = o.push(x);
    assert forall|k: int| #![trigger d[k]] 0 <= k < d.len() implies sorted(g, b, v + d[k].0, v + d[k].1) && xr(g, b, v, v + d[k].0, hi) by {
        if k < o.len() {
            reveal(fpre);
            assert(sorted(g, a, v + o[k].0, v + o[k].1) && xr(g, a, v, v + o[k].0, hi));
            lemma_ctile_first(o, n, k);
            lemma_sorted_frame(g, a, b, l, h, v + o[k].0, v + o[k].1);
            lemma_xr_perm(g, a, b, l, h, v, v + o[k].0, hi);
        }
    }
    assert forall|k: int| #![trigger c[k]] q <= k < c.len() implies run3(g, b, v, c[k]) && xr(g, b, v, v + c[k].0, hi) by {
        lemma_dpre_at(g, a, v, hi, c, q, k);
        lemma_dtile_mono(c, n, n, q - 1, k);
        lemma_dtile_at(c, n, n, k);
        lemma_run3_frame(g, a, b, l, h, v, c[k]);
        lemma_xr_perm(g, a, b, l, h, v, v + c[k].0, hi);
    }
    reveal(fpre);
    reveal(dpre);
}
}verus
