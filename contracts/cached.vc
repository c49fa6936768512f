# sort_by_cached_key, par_sort_by_cached_key (lib.rs): one expansion of the local macro per index width

verus{
/// The indices of a vector of pairs.
pub open spec fn ixs<K, I: Idx>(pv: Seq<(K, I)>) -> Seq<int> { Seq::new(pv.len(), |j: int| pv[j].1.v()) }
/// Pairs of n elements from lo on: every index once, with the key of its element.
pub open spec fn keyed<T, K: KOrd, I: Idx>(g: KeyG<T, K>, s: Seq<T>, lo: int, n: int, pv: Seq<(K, I)>) -> bool {
    &&& pv.len() == n
    &&& forall|j: int| #![trigger pv[j]] 0 <= j < n ==> 0 <= pv[j].1.v() < n && (g.ok ==> pv[j].0 == (g.f)(s[lo + pv[j].1.v()]))
    &&& forall|i: int, j: int| #![trigger pv[i], pv[j]] 0 <= i < j < n ==> pv[i].1.v() != pv[j].1.v()
}
pub proof fn lemma_keyed_arranged<T, K: KOrd, I: Idx>(g: KeyG<T, K>, s: Seq<T>, lo: int, n: int, a: Seq<(K, I)>, z: Seq<(K, I)>)
    requires keyed(g, s, lo, n, a), a == z || exists|q: Seq<int>| arranged(a, z, q)
    ensures keyed(g, s, lo, n, z)
{
    if a != z {
        let q = choose|q: Seq<int>| arranged(a, z, q);
        assert forall|j: int| #![trigger z[j]] 0 <= j < n implies 0 <= z[j].1.v() < n && (g.ok ==> z[j].0 == (g.f)(s[lo + z[j].1.v()])) by {
            assert(0 <= q[j] < n && z[j] == a[q[j]]);
        }
        assert forall|i: int, j: int| #![trigger z[i], z[j]] 0 <= i < j < n implies z[i].1.v() != z[j].1.v() by {
            assert(q[i] != q[j]);
            assert(z[i] == a[q[i]] && z[j] == a[q[j]]);
            if q[i] < q[j] { assert(a[q[i]].1.v() != a[q[j]].1.v()); } else { assert(a[q[j]].1.v() != a[q[i]].1.v()); }
        }
    }
}
/// Following idx from x while below i ends at l.
pub open spec fn reach(idx: Seq<int>, i: int, x: int, l: int) -> bool
    decreases (if x >= i { 0 } else { i - x })
{
    if x >= i { l == x } else { 0 <= x < idx.len() && x < idx[x] && reach(idx, i, idx[x], l) }
}
pub proof fn lemma_reach_step(idx: Seq<int>, i: int, x: int, l: int, m: int)
    requires 0 <= i < idx.len(), i <= m, reach(idx, i, x, l)
    ensures
        l != i ==> reach(idx.update(i, m), i + 1, x, l),
        l == i && m > i ==> reach(idx.update(i, m), i + 1, x, m),
    decreases (if x >= i { 0 } else { i - x })
{
    if x < i { lemma_reach_step(idx, i, idx[x], l, m); }
    else if x == i && m > i { assert(reach(idx.update(i, m), i + 1, m, m)); }
}
/// The first i slots are final, and the element every later slot waits for lies where idx leads to.
pub open spec fn placed<T>(h0: Seq<T>, h: Seq<T>, lo: int, n: int, p: Seq<int>, idx: Seq<int>, loc: Seq<int>, i: int) -> bool {
    &&& 0 <= i <= n && p.len() == n && idx.len() == n && loc.len() == n
    &&& forall|j: int| #![trigger p[j]] 0 <= j < i ==> h[lo + j] == h0[lo + p[j]]
    &&& forall|k: int| #![trigger idx[k]] 0 <= k < n ==> 0 <= idx[k] < n
    &&& forall|k: int| #![trigger idx[k]] i <= k < n ==> idx[k] == p[k]
    &&& forall|k: int| #![trigger loc[k]] i <= k < n ==> i <= loc[k] < n && h[lo + loc[k]] == h0[lo + p[k]] && reach(idx, i, p[k], loc[k])
    &&& forall|j: int, k: int| #![trigger loc[j], loc[k]] i <= j < k < n ==> loc[j] != loc[k]
}
pub open spec fn moved(loc: Seq<int>, i: int, m: int) -> Seq<int> { Seq::new(loc.len(), |k: int| if loc[k] == i { m } else { loc[k] }) }
pub proof fn lemma_placed_step<T>(h0: Seq<T>, h: Seq<T>, h2: Seq<T>, lo: int, n: int, p: Seq<int>, idx: Seq<int>, loc: Seq<int>, i: int, m: int)
    requires
        placed(h0, h, lo, n, p, idx, loc, i), i < n, m == loc[i], 0 <= lo, lo + n <= h.len(),
        h2 == h.update(lo + i, h[lo + m]).update(lo + m, h[lo + i]),
    ensures placed(h0, h2, lo, n, p, idx.update(i, m), moved(loc, i, m), i + 1)
{
    let idx2 = idx.update(i, m);
    let loc2 = moved(loc, i, m);
    assert forall|j: int| #![trigger p[j]] 0 <= j < i + 1 implies h2[lo + j] == h0[lo + p[j]] by {
        if j < i { assert(h2[lo + j] == h[lo + j]); } else { assert(loc[i] == m); }
    }
    assert forall|k: int| #![trigger loc2[k]] i + 1 <= k < n implies i + 1 <= loc2[k] < n && h2[lo + loc2[k]] == h0[lo + p[k]] && reach(idx2, i + 1, p[k], loc2[k]) by {
        assert(loc[i] != loc[k]);
        lemma_reach_step(idx, i, p[k], loc[k], m);
    }
    assert forall|j: int, k: int| #![trigger loc2[j], loc2[k]] i + 1 <= j < k < n implies loc2[j] != loc2[k] by {
        assert(loc[i] != loc[j] && loc[i] != loc[k] && loc[j] != loc[k]);
    }
    assert forall|k: int| #![trigger idx2[k]] 0 <= k < n implies 0 <= idx2[k] < n && (i + 1 <= k ==> idx2[k] == p[k]) by {
        assert(k != i ==> idx2[k] == idx[k]);
    }
}
pub proof fn lemma_placed_first<T, K: KOrd, I: Idx>(g: KeyG<T, K>, h: Seq<T>, lo: int, n: int, pv: Seq<(K, I)>)
    requires keyed(g, h, lo, n, pv)
    ensures placed(h, h, lo, n, ixs(pv), ixs(pv), ixs(pv), 0)
{
    let p = ixs(pv);
    assert forall|k: int| #![trigger p[k]] 0 <= k < n implies 0 <= p[k] < n && reach(p, 0, p[k], p[k]) by { assert(p[k] == pv[k].1.v()); }
    assert forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < n implies p[j] != p[k] by { assert(pv[j].1.v() != pv[k].1.v()); }
}
/// the pairs as a sort by (key, index) leaves them
pub open spec fn lexsorted<K: KOrd, I: Idx>(pv: Seq<(K, I)>) -> bool {
    forall|i: int, j: int| #![trigger pv[i], pv[j]] 0 <= i < j < pv.len() ==> (K::kg().key)(pv[i].0) < (K::kg().key)(pv[j].0) || ((K::kg().key)(pv[i].0) == (K::kg().key)(pv[j].0) && pv[i].1.v() <= pv[j].1.v())
}
}verus
verus{ O
pub proof fn lemma_cached_sorted<T, K: KOrd, I: Idx>(g: KeyG<T, K>, h0: Seq<T>, h: Seq<T>, lo: int, n: int, pv: Seq<(K, I)>, idx: Seq<int>, loc: Seq<int>)
    requires keyed(g, h0, lo, n, pv), K::kg().ok ==> lexsorted(pv), placed(h0, h, lo, n, ixs(pv), idx, loc, n)
    ensures key_less(g).ok && ranked(key_less(g), h0, lo, lo, lo + n) ==> sorted(key_less(g), h, lo, lo + n)
{
    let c = key_less(g);
    if c.ok && ranked(c, h0, lo, lo, lo + n) {
        assert forall|i: int, j: int| #![trigger h[i], h[j]] lo <= i < j < lo + n implies le(c, h[i], h[j]) by {
            let p = ixs(pv);
            let (a, b) = (p[i - lo], p[j - lo]);
            assert(h[i] == h0[lo + a] && h[j] == h0[lo + b]);
            assert(pv[i - lo].1.v() == a && pv[j - lo].1.v() == b);
            assert(a != b);
            if a < b { assert((c.rank)(h0[lo + a]) <= (c.rank)(h0[lo + b])); }
        }
    }
}
}verus

fn ArrayBase::sort_by_cached_key::sort_by_key__u8, ArrayBase::sort_by_cached_key::sort_by_key__u16, ArrayBase::sort_by_cached_key::sort_by_key__u32, ArrayBase::sort_by_cached_key::sort_by_key__usize, ArrayBase::par_sort_by_cached_key::sort_by_key__u8, ArrayBase::par_sort_by_cached_key::sort_by_key__u16, ArrayBase::par_sort_by_cached_key::sort_by_key__u32, ArrayBase::par_sort_by_cached_key::sort_by_key__usize
conserve self_
panics !F::K::kg().ok
ensures[C04] err: hp1 == hp0
ensures[C16] err: final(f).log().len() <= old(f).log().len() + self_.len
ensures[O] ok: GL.ok && ranked(GL, hp0, self_.lo(), self_.lo(), self_.hi()) ==> sorted(GL, hp1, self_.lo(), self_.hi())
at entry: let ghost log0 = f.log()
at entry: let ghost mut pv_a = Seq::empty()
inv 1 c__1@.len() == it__1, hp@ == hp0, f.log() == log0 + hp0.subrange(self_.lo(), self_.base + it__1)
inv 1 forall|j: int| #![trigger c__1@[j]] 0 <= j < it__1 ==> c__1@[j].1.v() == j && (g.ok ==> c__1@[j].0 == (g.f)(hp0[self_.base + j]))
at after is_less 1: assert(f.log() =~= log0 + hp0.subrange(self_.lo(), self_.base + it__1 + 1)); assert(f.log() =~= (log0 + hp0.subrange(self_.lo(), self_.hi())).subrange(0, f.log().len() as int))
at loop 1 after: pv_a = c__1@; assert(keyed(g, hp0, self_.lo(), self_.len as int, pv_a))
at before sort_pairs 1: lemma_keyed_arranged(g, hp0, self_.lo(), self_.len as int, pv_a, indices@); pv_a = indices@
at after sort_pairs 1: lemma_keyed_arranged(g, hp0, self_.lo(), self_.len as int, pv_a, indices@)
at loop 2 before: let ghost pv = indices@; let ghost mut loc = ixs(pv)
at loop 2 before: lemma_placed_first(g, hp0, self_.lo(), self_.len as int, pv)
inv 2 keyed(g, hp0, self_.lo(), self_.len as int, pv), F::K::kg().ok ==> lexsorted(pv), indices@.len() == self_.len
inv 2 placed(hp0, hp@, self_.lo(), self_.len as int, ixs(pv), ixs(indices@), loc, i as int)
inv 2[C03,C04] perm(hp0, hp@)
inv 2[C13] frame(hp0, hp@, self_.lo(), self_.hi())
at let index 1: assert(ixs(indices@)[i as int] == index.v())
inv 3 reach(ixs(indices@), i as int, index.v(), loc[i as int]), 0 <= index.v() < self_.len
at loop 3 begin: assert(ixs(indices@)[index.v()] == indices@[index.v()].1.v())
dec 3 self_.len - index
at loop 3 after: let ghost (hp_b, pv_b) = (hp@, indices@)
at after swap 1: lemma_placed_step(hp0, hp_b, hp@, self_.lo(), self_.len as int, ixs(pv), ixs(pv_b), loc, i as int, index.v()); loc = moved(loc, i as int, index.v()); assert(ixs(indices@) =~= ixs(pv_b).update(i as int, index.v()))
at[O] loop 2 after: lemma_cached_sorted(g, hp0, hp@, self_.lo(), self_.len as int, pv, ixs(indices@), loc)

fn ArrayBase::sort_by_cached_key::sort_by_key__u8, ArrayBase::sort_by_cached_key::sort_by_key__u16, ArrayBase::sort_by_cached_key::sort_by_key__u32, ArrayBase::sort_by_cached_key::sort_by_key__usize
ensures[C16] ok: final(f).log() == old(f).log() + hp0.subrange(self_.lo(), self_.hi())
ensures[C16] err: final(f).log() == (old(f).log() + hp0.subrange(self_.lo(), self_.hi())).subrange(0, final(f).log().len() as int)
fn ArrayBase::par_sort_by_cached_key::sort_by_key__u8, ArrayBase::par_sort_by_cached_key::sort_by_key__u16, ArrayBase::par_sort_by_cached_key::sort_by_key__u32, ArrayBase::par_sort_by_cached_key::sort_by_key__usize
ensures[C16] ok: final(f).log().len() == old(f).log().len() + self_.len && perm(hp0.subrange(self_.lo(), self_.hi()), final(f).log().subrange(old(f).log().len() as int, final(f).log().len() as int))
at loop 2 after: assert(f.log().subrange(log0.len() as int, f.log().len() as int) =~= hp0.subrange(self_.lo(), self_.hi()))

fn ArrayBase::sort_by_cached_key::sort_by_key__u8, ArrayBase::par_sort_by_cached_key::sort_by_key__u8
requires self_.len <= u8::MAX + 1
fn ArrayBase::sort_by_cached_key::sort_by_key__u16, ArrayBase::par_sort_by_cached_key::sort_by_key__u16
requires self_.len <= u16::MAX + 1
fn ArrayBase::sort_by_cached_key::sort_by_key__u32, ArrayBase::par_sort_by_cached_key::sort_by_key__u32
requires self_.len <= u32::MAX + 1
fn ArrayBase::par_sort_by_cached_key::sort_by_key__u8, ArrayBase::par_sort_by_cached_key::sort_by_key__u16, ArrayBase::par_sort_by_cached_key::sort_by_key__u32, ArrayBase::par_sort_by_cached_key::sort_by_key__usize
requires len == self_.len

fn ArrayBase::sort_by_cached_key, ArrayBase::par_sort_by_cached_key
conserve self_
panics self_.len >= 2 && !F::K::kg().ok
ensures[C16] self_.len < 2 ==> final(f).log() == old(f).log()
ensures[C04] err: hp1 == hp0
ensures[O] ok: GL.ok && ranked(GL, hp0, self_.lo(), self_.lo(), self_.hi()) ==> sorted(GL, hp1, self_.lo(), self_.hi())
fn ArrayBase::sort_by_cached_key
ensures[C16] ok: self_.len >= 2 ==> final(f).log() == old(f).log() + hp0.subrange(self_.lo(), self_.hi())
ensures[C16] err: final(f).log().len() <= old(f).log().len() + self_.len && final(f).log() == (old(f).log() + hp0.subrange(self_.lo(), self_.hi())).subrange(0, final(f).log().len() as int)
fn ArrayBase::par_sort_by_cached_key
ensures[C16] ok: self_.len >= 2 ==> final(f).log().len() == old(f).log().len() + self_.len && perm(hp0.subrange(self_.lo(), self_.hi()), final(f).log().subrange(old(f).log().len() as int, final(f).log().len() as int))
ensures[C16] err: final(f).log().len() <= old(f).log().len() + self_.len
