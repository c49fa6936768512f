# quick_sort.rs, par/quick_sort.rs (sequential part), and the selection loops of partition.rs, par/partition.rs
verus{
/// A predecessor element, if any, lies outside the view.
pub open spec fn predout(n: int, v: Vw, pred: Option<MPtr>) -> bool {
    pred is Some ==> (pred->Some_0).addr < n && !(v.lo() <= (pred->Some_0).addr < v.hi())
}
}verus
verus{ O
/// Nothing in [a,b) is below the predecessor element.
pub open spec fn predle<T>(g: CmpG<T>, s: Seq<T>, a: int, b: int, pred: Option<MPtr>) -> bool {
    pred is Some ==> forall|k: int| #![trigger s[k]] a <= k < b ==> !lt(g, s[k], s[(pred->Some_0).addr as int])
}
pub proof fn lemma_predle_perm<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, x: int, y: int, pred: Option<MPtr>)
    requires perm(a, z), frame(a, z, x, y), 0 <= x <= y <= a.len(), pred is Some ==> (pred->Some_0).addr < a.len() && !(x <= (pred->Some_0).addr < y)
    ensures predle(g, a, x, y, pred) ==> predle(g, z, x, y, pred)
{
    lemma_perm_range(a, z, x, y);
    if predle(g, a, x, y, pred) && pred is Some {
        assert forall|k: int| #![trigger z[k]] x <= k < y implies !lt(g, z[k], z[(pred->Some_0).addr as int]) by {
            let j = choose|j: int| x <= j < y && #[trigger] a[j] == z[k];
            assert(!lt(g, a[j], a[(pred->Some_0).addr as int]));
        }
    }
}
/// Any two positions of [lo,hi) that are not both in [a,b) are in order.
pub open spec fn outs<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, a: int, b: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi && !(a <= i && j < b) ==> le(g, s[i], s[j])
}
pub proof fn lemma_outs_perm<T>(g: CmpG<T>, s: Seq<T>, z: Seq<T>, lo: int, hi: int, a: int, b: int, x: int, y: int)
    requires perm(s, z), frame(s, z, x, y), 0 <= lo <= a <= x <= y <= b <= hi <= s.len()
    ensures outs(g, s, lo, hi, a, b) ==> outs(g, z, lo, hi, a, b)
{
    lemma_perm_range(s, z, x, y);
    if outs(g, s, lo, hi, a, b) {
        assert forall|i: int, j: int| #![trigger z[i], z[j]] lo <= i < j < hi && !(a <= i && j < b) implies le(g, z[i], z[j]) by {
            if x <= i < y {
                let k = choose|k: int| x <= k < y && #[trigger] s[k] == z[i];
                assert(z[j] == s[j]);
                assert(le(g, s[k], s[j]));
            } else if x <= j < y {
                let k = choose|k: int| x <= k < y && #[trigger] s[k] == z[j];
                assert(z[i] == s[i]);
                assert(le(g, s[i], s[k]));
            } else {
                assert(z[i] == s[i] && z[j] == s[j]);
            }
        }
    }
}
pub proof fn lemma_outs_sorted<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, a: int, b: int)
    requires lo <= a <= b <= hi
    ensures outs(g, s, lo, hi, a, b) && sorted(g, s, a, b) ==> sorted(g, s, lo, hi)
{ }
/// Partitioned at m with one side sorted: only the other side is left.
pub proof fn lemma_outs_split<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, a: int, m: int, b: int)
    requires lo <= a <= m < b <= hi, flat(g)
    ensures
        outs(g, s, lo, hi, a, b) && parted1(g, s, a, m, b) && sorted(g, s, a, m) ==> outs(g, s, lo, hi, m + 1, b),
        outs(g, s, lo, hi, a, b) && parted1(g, s, a, m, b) && sorted(g, s, m + 1, b) ==> outs(g, s, lo, hi, a, m),
{
    assert forall|i: int, j: int| #![trigger s[i], s[j]] parted1(g, s, a, m, b) && a <= i < j < b && (i <= m <= j) implies le(g, s[i], s[j]) by {
        assert((g.rank)(s[i]) == 0 && (g.rank)(s[j]) == 0);
        if i < m { assert(lt(g, s[i], s[m])); }
        if j > m { assert(!lt(g, s[j], s[m])); }
    }
}
/// Rearranging the left or the right part of a partitioned range keeps it partitioned.
pub proof fn lemma_parted1_perm<T>(g: CmpG<T>, s: Seq<T>, z: Seq<T>, a: int, m: int, b: int, x: int, y: int)
    requires perm(s, z), frame(s, z, x, y), 0 <= a <= x <= y <= b <= s.len(), y <= m || m + 1 <= x, a <= m < b
    ensures parted1(g, s, a, m, b) ==> parted1(g, z, a, m, b)
{
    lemma_perm_range(s, z, x, y);
    if parted1(g, s, a, m, b) {
        assert forall|k: int| #![trigger z[k]] a <= k < m implies lt(g, z[k], z[m]) by {
            if x <= k < y { let j = choose|j: int| x <= j < y && #[trigger] s[j] == z[k]; assert(lt(g, s[j], s[m])); } else { assert(z[k] == s[k]); }
        }
        assert forall|k: int| #![trigger z[k]] m < k < b implies !lt(g, z[k], z[m]) by {
            if x <= k < y { let j = choose|j: int| x <= j < y && #[trigger] s[j] == z[k]; assert(!lt(g, s[j], s[m])); } else { assert(z[k] == s[k]); }
        }
    }
}
/// Everything is at least q, the first part is at most q and the second above it.
pub proof fn lemma_outs_equal<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, a: int, m: int, b: int, p: T, q: T)
    requires lo <= a <= m <= b <= hi, flat(g), !lt(g, p, q),
        forall|k: int| #![trigger s[k]] a <= k < b ==> !lt(g, s[k], p),
        forall|k: int| #![trigger s[k]] a <= k < m ==> !lt(g, q, s[k]),
        forall|k: int| #![trigger s[k]] m <= k < b ==> lt(g, q, s[k]),
    ensures outs(g, s, lo, hi, a, b) ==> outs(g, s, lo, hi, m, b)
{
    assert forall|i: int, j: int| #![trigger s[i], s[j]] a <= i < m && i < j < b implies le(g, s[i], s[j]) by {
        assert((g.rank)(s[i]) == 0 && (g.rank)(s[j]) == 0);
        assert(!lt(g, q, s[i]) && !lt(g, s[i], p) && !lt(g, s[j], p));
    }
}
pub proof fn lemma_parted1_selected<T>(g: CmpG<T>, s: Seq<T>, lo: int, m: int, hi: int)
    ensures parted1(g, s, lo, m, hi) ==> selected(g, s, lo, m, hi)
{ }
pub proof fn lemma_equal_selected<T>(g: CmpG<T>, s: Seq<T>, a: int, m: int, b: int, p: T, q: T)
    requires a <= m <= b, !lt(g, p, q),
        forall|k: int| #![trigger s[k]] a <= k < b ==> !lt(g, s[k], p),
        forall|k: int| #![trigger s[k]] a <= k < m ==> !lt(g, q, s[k]),
        forall|k: int| #![trigger s[k]] m <= k < b ==> lt(g, q, s[k]),
    ensures forall|k: int| a <= k < m ==> #[trigger] selected(g, s, a, k, b), kbelow(g, s, a, m, b)
{
    assert forall|k: int| a <= k < m implies #[trigger] selected(g, s, a, k, b) by {
        assert(!lt(g, s[k], p) && !lt(g, q, s[k]));
        assert forall|i: int| #![trigger s[i]] a <= i < k implies !lt(g, s[k], s[i]) by { assert(!lt(g, q, s[i])); }
        assert forall|i: int| #![trigger s[i]] k < i < b implies !lt(g, s[i], s[k]) by { assert(!lt(g, s[i], p)); }
    }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] a <= i < m && m <= j < b implies !lt(g, s[j], s[i]) by { assert(!lt(g, q, s[i])); }
}
pub proof fn lemma_kbelow_widen<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, x: int, y: int, m: int)
    requires lo <= x <= m <= y <= hi
    ensures kbelow(g, s, lo, x, hi) && kbelow(g, s, lo, y, hi) && kbelow(g, s, x, m, y) ==> kbelow(g, s, lo, m, hi)
{ }
/// After sorting one side of a partitioned range only the other side is left.
pub proof fn lemma_side<T>(g: CmpG<T>, s: Seq<T>, z: Seq<T>, lo: int, hi: int, a: int, m: int, b: int)
    requires perm(s, z), frame(s, z, a, m) || frame(s, z, m + 1, b), 0 <= lo <= a <= m < b <= hi <= s.len()
    ensures
        outs(g, s, lo, hi, a, b) ==> outs(g, z, lo, hi, a, b),
        parted1(g, s, a, m, b) ==> parted1(g, z, a, m, b),
        flat(g) && outs(g, s, lo, hi, a, b) && parted1(g, s, a, m, b) && sorted(g, z, a, m) ==> outs(g, z, lo, hi, m + 1, b),
        flat(g) && outs(g, s, lo, hi, a, b) && parted1(g, s, a, m, b) && sorted(g, z, m + 1, b) ==> outs(g, z, lo, hi, a, m),
{
    let (x, y) = if frame(s, z, a, m) { (a, m) } else { (m + 1, b) };
    lemma_outs_perm(g, s, z, lo, hi, a, b, x, y);
    lemma_parted1_perm(g, s, z, a, m, b, x, y);
    if flat(g) { lemma_outs_split(g, z, lo, hi, a, m, b) }
}
}verus

fn quick_sort::recurse, par::quick_sort::recurse
attr #[verifier::rlimit(60)]
requires predout(hp0.len() as int, v, pred), esize::<T>() != 0
requires[O] g.ok && flat(g) ==> predle(g, hp0, v.lo(), v.hi(), pred)
conserve v
ensures[O] ok: g.ok && flat(g) ==> sorted(g, hp1, v.lo(), v.hi())
decreases v.len
iso 1
inv 1 v_in.lo() <= v.lo(), v.hi() <= v_in.hi(), predout(hp@.len() as int, v, pred)
inv 1 MAX_INSERTION == 20, esize::<T>() != 0
inv 1[C13] frame(hp0, hp@, v_in.lo(), v_in.hi())
inv 1[C03,C04] perm(hp0, hp@)
invx 1[O] g.ok && flat(g) ==> outs(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()) && predle(g, hp@, v.lo(), v.hi(), pred)
lens 1[O] g.ok && flat(g) ==> sorted(g, hp@, v_in.lo(), v_in.hi())
dec 1 v.len
at loop 1 begin: let ghost (hp_b, v_b, pred_b) = (hp@, v, pred)
at[O] return 1: lemma_outs_perm(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.lo(), v.hi()); lemma_outs_sorted(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi())
at[O] return 2: lemma_outs_perm(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.lo(), v.hi()); lemma_outs_sorted(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi())
at[O] return 3: lemma_outs_perm(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.lo(), v.hi()); lemma_outs_sorted(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi())
at?[O] return 4: lemma_outs_perm(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.lo(), v.hi()); lemma_outs_sorted(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi())
at before partition_equal 1: let ghost (hp_e, pivot_e) = (hp@, pivot)
at[O] let mid 1: lemma_outs_perm(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.lo(), v.hi()); lemma_predle_perm(g, hp_b, hp_e, v.lo(), v.hi(), pred); lemma_predle_perm(g, hp_b, hp@, v.lo(), v.hi(), pred); if g.ok && flat(g) { assert(predle(g, hp@, v.lo(), v.hi(), pred)); lemma_outs_equal(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.base + mid, v.hi(), hp@[pred->Some_0.addr as int], hp_e[v.base + pivot]) }
at[O] let mid 2: lemma_outs_perm(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.lo(), v.hi()); lemma_predle_perm(g, hp_b, hp@, v.lo(), v.hi(), pred)
at before recurse 1: let ghost hp_r = hp@
at before recurse 2: let ghost hp_r = hp@
at[O] after recurse 1: lemma_side(g, hp_r, hp@, v_in.lo(), v_in.hi(), v.lo(), left.hi(), v.hi())
at[O] after recurse 2: lemma_side(g, hp_r, hp@, v_in.lo(), v_in.hi(), v.lo(), left.hi(), v.hi())

fn par::quick_sort::recurse
at before recurse 3: let ghost hp_r = hp@
at before recurse 4: let ghost hp_r2 = hp@
at[O] after recurse 3: lemma_outs_perm(g, hp_r, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), left.lo(), left.hi()); lemma_parted1_perm(g, hp_r, hp@, v.lo(), left.hi(), v.hi(), left.lo(), left.hi()); if flat(g) && RET is Ok { lemma_outs_split(g, hp@, v_in.lo(), v_in.hi(), v.lo(), left.hi(), v.hi()) }
at[O] after recurse 4: lemma_outs_perm(g, hp_r2, hp@, v_in.lo(), v_in.hi(), right.lo(), right.hi(), right.lo(), right.hi()); lemma_outs_sorted(g, hp@, v_in.lo(), v_in.hi(), right.lo(), right.hi())

fn quick_sort::quick_sort, par::quick_sort::par_quick_sort
conserve v
ensures[O] ok: g.ok && flat(g) ==> sorted(g, hp1, v.lo(), v.hi())
at[O] return 1: assert forall|i: int, j: int| #![trigger hp@[i], hp@[j]] v.lo() <= i < j < v.hi() && flat(g) implies le(g, hp@[i], hp@[j]) by { axiom_zst(hp@[i], hp@[j]); assert((g.rank)(hp@[i]) == 0) }

fn partition::partition_at_index_loop, par::partition::partition_at_index_loop
attr #[verifier::rlimit(60)]
requires predout(hp0.len() as int, v, pred), esize::<T>() != 0, index < v.len
requires[O] g.ok && flat(g) ==> predle(g, hp0, v.lo(), v.hi(), pred)
conserve v
ensures[O] ok: g.ok && flat(g) ==> selected(g, hp1, v.lo(), v.base + index, v.hi())
iso 1
inv 1 v_in.lo() <= v.lo(), v.hi() <= v_in.hi(), predout(hp@.len() as int, v, pred), index < v.len, v.base + index == v_in.base + index_in, index_in < v_in.len, esize::<T>() != 0
inv 1[C13] frame(hp0, hp@, v_in.lo(), v_in.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] g.ok && flat(g) ==> kbelow(g, hp@, v_in.lo(), v.lo(), v_in.hi()) && kbelow(g, hp@, v_in.lo(), v.hi(), v_in.hi()) && predle(g, hp@, v.lo(), v.hi(), pred)
dec 1 v.len
at loop 1 begin: let ghost (hp_b, v_b, pred_b) = (hp@, v, pred)
at[O] return 1: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); if flat(g) { lemma_sorted_selected(g, hp@, v.lo(), v.base + index, v.hi()) }; lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.base + index)
at[O] return 2: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.base + index)
at before partition_equal 1: let ghost (hp_e, pivot_e) = (hp@, pivot)
at[O] let mid 1: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); lemma_predle_perm(g, hp_b, hp_e, v.lo(), v.hi(), pred); lemma_predle_perm(g, hp_b, hp@, v.lo(), v.hi(), pred); if g.ok && flat(g) { lemma_equal_selected(g, hp@, v.lo(), v.base + mid, v.hi(), hp@[pred->Some_0.addr as int], hp_e[v.base + pivot]); lemma_kbelow_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.base + mid); if mid > index { assert(selected(g, hp@, v.lo(), v.base + index, v.hi())) } }; lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.base + index)
at[O] let mid 2: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); lemma_predle_perm(g, hp_b, hp@, v.lo(), v.hi(), pred); lemma_parted1_selected(g, hp@, v.lo(), v.base + mid, v.hi()); lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.base + mid); lemma_selected_kbelow(g, hp@, v_in.lo(), v_in.hi(), v.base + mid)

verus{ O
pub proof fn lemma_sorted_selected<T>(g: CmpG<T>, s: Seq<T>, lo: int, k: int, hi: int)
    requires flat(g), lo <= k < hi
    ensures sorted(g, s, lo, hi) ==> selected(g, s, lo, k, hi)
{
    if sorted(g, s, lo, hi) {
        assert forall|i: int| #![trigger s[i]] lo <= i < k implies !lt(g, s[k], s[i]) by { assert(le(g, s[i], s[k])); }
        assert forall|i: int| #![trigger s[i]] k < i < hi implies !lt(g, s[i], s[k]) by { assert(le(g, s[k], s[i])); }
    }
}
}verus

fn partition::partition_at_index, par::partition::partition_at_index
conserve v
panics index >= v.len
ensures ok: index < v.len
ensures ok: r.0.base == v.base && r.0.len == index && r.1.addr == v.base + index && r.2.base == v.base + index + 1 && r.2.len == v.len - index - 1
ensures[O] ok: g.ok && flat(g) ==> selected(g, hp1, v.lo(), v.base + index, v.hi())
at[O] fi 2: if esize::<T>() == 0 { assert forall|i: int, j: int| #![trigger hp@[i], hp@[j]] v.lo() <= i < v.hi() && v.lo() <= j < v.hi() implies !lt(g, hp@[i], hp@[j]) by { axiom_zst(hp@[i], hp@[j]); } }

fn partition::partition_at_indices, par::partition::partition_at_indices
conserve v
requires offset + v.len <= isize::MAX
ensures final(collection).nopanic() == old(collection).nopanic()
panics !(ascending(indices@) && inrange(indices@, offset as int, offset + v.len))
ensures[C07] ok: ascending(indices@) && inrange(indices@, offset as int, offset + v.len)
ensures[C06] ok: final(collection)@ == old(collection)@ + Seq::new(indices@.len(), |k: int| (indices@[k], MPtr { addr: (v.base + indices@[k] - offset) as usize }))
ensures[O] ok: g.ok && flat(g) ==> forall|k: int| #![trigger indices@[k]] 0 <= k < indices@.len() ==> selected(g, hp1, v.lo(), v.base + indices@[k] - offset, v.hi())
decreases indices@.len()
attr #[verifier::rlimit(60)]
iso 1
at loop 1 before: let ghost mut d: int = 0
inv 1 0 <= d <= indices_in@.len(), indices@ == indices_in@.subrange(d, indices_in@.len() as int)
inv 1 v_in.lo() <= v.lo(), v.hi() == v_in.hi(), v.base + offset_in == v_in.base + offset, offset + v.len <= isize::MAX, v_in.base + v_in.len <= isize::MAX
inv 1[C13] frame(hp0, hp@, v_in.lo(), v_in.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[C07] forall|i: int, j: int| #![trigger indices_in@[i], indices_in@[j]] 0 <= i < j < d ==> indices_in@[i] < indices_in@[j]
inv 1[C07] forall|i: int| #![trigger indices_in@[i]] 0 <= i < d ==> offset_in <= indices_in@[i] < offset
inv 1 collection.nopanic() == old(collection).nopanic()
inv 1[C06] collection@ == old(collection)@ + pairs(indices_in@.subrange(0, d), v_in.base - offset_in)
inv 1[O] g.ok && flat(g) ==> kbelow(g, hp@, v_in.lo(), v.lo(), v_in.hi())
inv 1[O] g.ok && flat(g) ==> forall|k: int| #![trigger indices_in@[k]] 0 <= k < d ==> selected(g, hp@, v_in.lo(), v_in.base + indices_in@[k] - offset_in, v_in.hi())
inv 1 offset == offset_in || (d > 0 && offset == indices_in@[d - 1] + 1)
dec 1 indices@.len()
at entry: axiom_mem_len(*hp)
at loop 1 begin: let ghost (hp_b, d_b, offset_b, coll_b) = (hp@, d, offset, collection@)
at let pivot 1: lemma_take_pivot(indices_in@, d, at as int, indices@, left_indices@, right_indices@, pivot)
at let pivot 1: lemma_left_range(indices_in@, d, at as int, indices@, left_indices@, offset_in as int, offset_in + v_in.len, offset as int, pivot)
at let right 1: assert(offset <= pivot < offset + v.len); assert(value.addr == v_in.base + pivot - offset_in)
at let right 1: let ghost hp_p = hp@
at[O] let right 1: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), left.hi()); lemma_selected_kbelow(g, hp@, v_in.lo(), v_in.hi(), left.hi())
at before partition_at_indices 1: let ghost coll_a = collection@
at[C06] after extend 1: lemma_pairs_ext(indices_in@, d, at as int, v_in.base - offset_in); assert(collection@ =~= old(collection)@ + pairs(indices_in@.subrange(0, d + at + 1), v_in.base - offset_in))
at[O] after extend 1: lemma_kbelow_perm2(g, hp_p, hp@, v_in.lo(), v_in.hi(), left.lo(), left.hi()); lemma_kbelow_perm(g, hp_p, hp@, v_in.lo(), left.hi() + 1, v_in.hi(), left.lo(), left.hi()); assert forall|k: int| #![trigger indices_in@[k]] g.ok && flat(g) && 0 <= k < d implies selected(g, hp@, v_in.lo(), v_in.base + indices_in@[k] - offset_in, v_in.hi()) by { lemma_selected_perm(g, hp_b, hp@, v_in.lo(), v_in.base + indices_in@[k] - offset_in, v_in.hi(), v.lo(), v.hi()) }; assert forall|k: int| #![trigger indices_in@[k]] g.ok && flat(g) && d <= k < d + at implies selected(g, hp@, v_in.lo(), v_in.base + indices_in@[k] - offset_in, v_in.hi()) by { assert(left_indices@[k - d] == indices_in@[k]); lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), left.lo(), left.hi(), v_in.base + indices_in@[k] - offset_in) }; lemma_kbelow_selected(g, hp@, v_in.lo(), left.hi(), v_in.hi()); assert(indices_in@[d + at] == pivot)
at[C07] after extend 1: assert forall|i: int| #![trigger indices_in@[i]] d <= i < d + at implies offset <= indices_in@[i] < pivot by { assert(left_indices@[i - d] == indices_in@[i]) }; assert forall|i: int, j: int| #![trigger indices_in@[i], indices_in@[j]] 0 <= i < j < d + at + 1 implies indices_in@[i] < indices_in@[j] by { if d <= i && j < d + at { assert(left_indices@[i - d] < left_indices@[j - d]) } else if j < d { } else if i < d && j < d + at { assert(left_indices@[j - d] == indices_in@[j]) } }
at assign indices 1: d = d + at + 1; assert(indices@ =~= indices_in@.subrange(d, indices_in@.len() as int))
at[C06] loop 1 after: assert(indices_in@.subrange(0, d) =~= indices_in@); assert(pairs(indices_in@, v_in.base - offset_in) =~= Seq::new(indices_in@.len(), |k: int| (indices_in@[k], MPtr { addr: (v_in.base + indices_in@[k] - offset_in) as usize })))

verus{ O
pub proof fn lemma_selected_perm<T>(g: CmpG<T>, s: Seq<T>, z: Seq<T>, lo: int, k: int, hi: int, x: int, y: int)
    requires perm(s, z), frame(s, z, x, y), 0 <= lo <= x <= y <= hi <= s.len(), lo <= k < x || y <= k < hi
    ensures selected(g, s, lo, k, hi) ==> selected(g, z, lo, k, hi)
{
    lemma_selected_kbelow(g, s, lo, hi, k);
    lemma_kbelow_perm(g, s, z, lo, k, hi, x, y);
    lemma_kbelow_perm(g, s, z, lo, k + 1, hi, x, y);
    lemma_kbelow_selected(g, z, lo, k, hi);
}
pub proof fn lemma_kbelow_selected<T>(g: CmpG<T>, s: Seq<T>, lo: int, k: int, hi: int)
    requires lo <= k < hi
    ensures kbelow(g, s, lo, k, hi) && kbelow(g, s, lo, k + 1, hi) ==> selected(g, s, lo, k, hi)
{ }
}verus
verus{
pub open spec fn pairs(s: Seq<usize>, b: int) -> Seq<(usize, MPtr)> {
    Seq::new(s.len(), |k: int| (s[k], MPtr { addr: (b + s[k]) as usize }))
}
pub proof fn lemma_pairs_ext(s: Seq<usize>, d: int, at: int, b: int)
    requires 0 <= d, 0 <= at, d + at < s.len()
    ensures pairs(s.subrange(0, d + at + 1), b) =~= (pairs(s.subrange(0, d), b) + pairs(s.subrange(d, d + at), b)).push((s[d + at], MPtr { addr: (b + s[d + at]) as usize }))
{ }
pub proof fn lemma_take_pivot(s: Seq<usize>, d: int, at: int, rest: Seq<usize>, left: Seq<usize>, right: Seq<usize>, pivot: usize)
    requires 0 <= d <= s.len(), rest == s.subrange(d, s.len() as int), 0 <= at < rest.len(), left == rest.subrange(0, at), right == rest.subrange(at + 1, rest.len() as int) || right == rest.subrange(at, rest.len() as int).subrange(1, rest.len() - at), pivot == rest[at]
    ensures s[d + at] == pivot, left == s.subrange(d, d + at), right == s.subrange(d + at + 1, s.len() as int),
        ascending(s) ==> ascending(left) && forall|k: int| #![trigger left[k]] 0 <= k < left.len() ==> left[k] < pivot,
{
    assert(left =~= s.subrange(d, d + at));
    assert(right =~= s.subrange(d + at + 1, s.len() as int));
    if ascending(s) {
        assert forall|i: int, j: int| #![trigger left[i], left[j]] 0 <= i < j < left.len() implies left[i] < left[j] by { assert(left[i] == s[d + i] && left[j] == s[d + j]); }
        assert forall|k: int| #![trigger left[k]] 0 <= k < left.len() implies left[k] < pivot by { assert(left[k] == s[d + k]); }
    }
}
pub open spec fn ascending(s: Seq<usize>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] < s[j]
}
pub open spec fn inrange(s: Seq<usize>, lo: int, hi: int) -> bool {
    forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> lo <= s[k] < hi
}
pub proof fn lemma_left_range(s: Seq<usize>, d: int, at: int, rest: Seq<usize>, left: Seq<usize>, lo: int, hi: int, offset: int, pivot: usize)
    requires 0 <= d, 0 <= at, d + at < s.len(), left == s.subrange(d, d + at), s[d + at] == pivot, offset == lo || (d > 0 && offset == s[d - 1] + 1)
    ensures ascending(s) && inrange(s, lo, hi) ==> inrange(left, offset, pivot as int) && offset <= pivot < hi
{
    if ascending(s) && inrange(s, lo, hi) {
        assert forall|k: int| #![trigger left[k]] 0 <= k < left.len() implies offset <= left[k] < pivot by { assert(left[k] == s[d + k]); }
    }
}
}verus
