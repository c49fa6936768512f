# pivot choice and selection in partition.rs and par/partition.rs
fn partition::from_is_less, par::partition::from_is_less
ensures ok: r != Ord3::Equal
ensures ok: g.ok ==> ((r == Ord3::Less) == lt(g, x, y))

fn partition::reverse::revswap, par::partition::reverse::revswap
requires a.len == n, b.len == n, a.base + n <= b.base
ensures[C10,C03,C04] perm(hp0, hp1)
ensures[C10] forall|k: int| #![trigger hp1[k]] a.base <= k < a.base + n ==> hp1[k] == hp0[b.base + n - 1 - (k - a.base)]
ensures[C10] forall|k: int| #![trigger hp1[k]] b.base <= k < b.base + n ==> hp1[k] == hp0[a.base + n - 1 - (k - b.base)]
ensures[C10,C13] forall|k: int| #![trigger hp1[k]] 0 <= k < hp0.len() && !(a.base <= k < a.base + n) && !(b.base <= k < b.base + n) ==> hp1[k] == hp0[k]
inv 1 i <= n
inv 1[C10] perm(hp0, hp@)
inv 1[C10] forall|k: int| #![trigger hp@[k]] a.base <= k < a.base + i ==> hp@[k] == hp0[b.base + n - 1 - (k - a.base)]
inv 1[C10] forall|k: int| #![trigger hp@[k]] b.base + n - i <= k < b.base + n ==> hp@[k] == hp0[a.base + n - 1 - (k - b.base)]
inv 1[C10] forall|k: int| #![trigger hp@[k]] 0 <= k < hp0.len() && !(a.base <= k < a.base + i) && !(b.base + n - i <= k < b.base + n) ==> hp@[k] == hp0[k]
dec 1 n - i

fn partition::reverse, par::partition::reverse
conserve v
ensures[C10] forall|k: int| #![trigger hp1[k]] v.lo() <= k < v.hi() ==> hp1[k] == hp0[v.hi() - 1 - (k - v.lo())]

fn partition::is_sorted, par::partition::is_sorted
ensures[C10] ok: g.ok ==> (r <==> forall|i: int| #![trigger hp0[i]] v.lo() < i < v.hi() ==> (g.rel)(hp0[i - 1], hp0[i]))
inv 1[C10] g.ok ==> forall|k: int| #![trigger hp@[k]] v.lo() < k < v.base + i ==> (g.rel)(hp@[k - 1], hp@[k])

fn partition::break_patterns::gen_usize, par::partition::break_patterns::gen_usize

fn partition::break_patterns, par::partition::break_patterns
conserve v
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)
at after gen_usize 1: lemma_and_below(RET, (modulus - 1) as usize)

fn partition::choose_pivot::sort2, par::partition::choose_pivot::sort2
requires a0 < v.len, b0 < v.len, swaps0 < 1000
ensures hp1 == hp0, a1 < v.len, b1 < v.len, swaps1 <= swaps0 + 1

fn partition::choose_pivot::sort3, par::partition::choose_pivot::sort3
requires a0 < v.len, b0 < v.len, c0 < v.len, swaps0 < 900
ensures hp1 == hp0, a1 < v.len, b1 < v.len, c1 < v.len, swaps1 <= swaps0 + 3

fn partition::choose_pivot::sort_adjacent, par::partition::choose_pivot::sort_adjacent
requires 1 <= a0, a0 + 1 < v.len, swaps0 < 900
ensures hp1 == hp0, a1 < v.len, swaps1 <= swaps0 + 3

fn partition::choose_pivot, par::partition::choose_pivot
requires v.len >= 1
conserve v
ensures ok: r.0 < v.len

fn partition::median_idx, par::partition::median_idx
requires a < v.len, b < v.len, c < v.len
ensures ok: r < v.len

fn partition::ninther, par::partition::ninther
requires n.0 < v.len, n.1 < v.len, n.2 < v.len, n.3 < v.len, n.4 < v.len, n.5 < v.len, n.6 < v.len, n.7 < v.len, n.8 < v.len
conserve v

fn partition::median_of_ninthers, par::partition::median_of_ninthers
requires v.len > 10, esize::<T>() != 0
conserve v
ensures ok: r < v.len
ensures[O] ok: g.ok && flat(g) ==> selected(g, hp1, v.lo(), v.base + r, v.hi())
decreases v.len, 0nat
inv 1 a + 3 * (hi - i) <= lo, b + 3 * (hi - i) <= v.len, lo == i__start, hi == i__end, frac <= lo, hi + frac <= v.len
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)

fn partition::median_of_medians, par::partition::median_of_medians
requires k < v.len, esize::<T>() != 0
conserve v
ensures[O] ok: g.ok && flat(g) ==> selected(g, hp1, v.lo(), v.base + k, v.hi())
decreases v.len, 1nat
inv 1 k < v.len, v_in.lo() <= v.lo(), v.hi() <= v_in.hi(), v.base + k == v_in.base + k_in
inv 1[C13] frame(hp0, hp@, v_in.lo(), v_in.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] g.ok && flat(g) ==> kbelow(g, hp@, v_in.lo(), v.lo(), v_in.hi()) && kbelow(g, hp@, v_in.lo(), v.hi(), v_in.hi())
dec 1 v.len
at loop 1 begin: let ghost (hp_b, v_b) = (hp@, v)
at[O] after insertion_sort_shift_left 1: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi())
at[O] return 1: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); assert(sorted(g, hp@, v.lo(), v.hi()) ==> selected(g, hp@, v.lo(), v.base + k, v.hi())); lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.base + k)
at[O] after swap 1: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.base + k)
at[O] after swap 2: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.base + k)
at[O] let p 1: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), v.base + p); lemma_selected_kbelow(g, hp@, v_in.lo(), v_in.hi(), v.base + p)
at let p 1: let ghost (hp_p, p_b) = (hp@, p)
at[O] after partition_equal 1: if g.ok && flat(g) { lemma_kbelow_perm(g, hp_p, hp@, v_in.lo(), v.lo(), v_in.hi(), v.base + p_b, v.hi()); lemma_kbelow_perm2(g, hp_p, hp@, v_in.lo(), v_in.hi(), v.base + p_b, v.hi()); lemma_equal_run(g, hp_p, hp@, v_in.lo(), v_in.hi(), v.base + p_b, v.base + p_b + RET, v.hi()); }

verus{
pub proof fn lemma_and_below(a: usize, b: usize)
    ensures (a & b) <= b
{ assert((a & b) <= b) by (bit_vector); }
}verus
verus{ O
/// Nothing at or after b is below anything before b.
pub open spec fn kbelow<T>(g: CmpG<T>, s: Seq<T>, a: int, b: int, c: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] a <= i < b && b <= j < c ==> !lt(g, s[j], s[i])
}
/// Position k holds the element that sorted order puts there.
pub open spec fn selected<T>(g: CmpG<T>, s: Seq<T>, lo: int, k: int, hi: int) -> bool {
    &&& forall|i: int| #![trigger s[i]] lo <= i < k ==> !lt(g, s[k], s[i])
    &&& forall|i: int| #![trigger s[i]] k < i < hi ==> !lt(g, s[i], s[k])
}
pub proof fn lemma_kbelow_perm<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, lo: int, m: int, hi: int, x: int, y: int)
    requires perm(a, z), frame(a, z, x, y), 0 <= lo <= x <= y <= hi <= a.len(), y <= m || m <= x, lo <= m <= hi
    ensures kbelow(g, a, lo, m, hi) ==> kbelow(g, z, lo, m, hi)
{
    lemma_perm_range(a, z, x, y);
    if kbelow(g, a, lo, m, hi) {
        assert forall|i: int, j: int| #![trigger z[i], z[j]] lo <= i < m && m <= j < hi implies !lt(g, z[j], z[i]) by {
            if x <= i < y {
                let k = choose|k: int| x <= k < y && #[trigger] a[k] == z[i];
                assert(z[j] == a[j]);
                assert(!lt(g, a[j], a[k]));
            } else if x <= j < y {
                let k = choose|k: int| x <= k < y && #[trigger] a[k] == z[j];
                assert(z[i] == a[i]);
                assert(!lt(g, a[k], a[i]));
            } else {
                assert(z[i] == a[i] && z[j] == a[j]);
            }
        }
    }
}
/// Rearranging [x,y) keeps what is known at both of its ends.
pub proof fn lemma_kbelow_perm2<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, lo: int, hi: int, x: int, y: int)
    requires perm(a, z), frame(a, z, x, y), 0 <= lo <= x <= y <= hi <= a.len()
    ensures
        kbelow(g, a, lo, x, hi) ==> kbelow(g, z, lo, x, hi),
        kbelow(g, a, lo, y, hi) ==> kbelow(g, z, lo, y, hi)
{
    lemma_kbelow_perm(g, a, z, lo, x, hi, x, y);
    lemma_kbelow_perm(g, a, z, lo, y, hi, x, y);
}
/// Gathering what equals the element at x: the whole run [x,y) is in place, and nothing after it is below it.
pub proof fn lemma_equal_run<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, lo: int, hi: int, x: int, y: int, vh: int)
    requires
        perm(a, z), frame(a, z, x, vh), 0 <= lo <= x < y <= vh <= hi <= a.len(), selected(g, a, lo, x, hi), kbelow(g, z, lo, vh, hi),
        forall|k: int| #![trigger z[k]] x <= k < y ==> !lt(g, a[x], z[k]),
        forall|k: int| #![trigger z[k]] y <= k < vh ==> lt(g, a[x], z[k])
    ensures
        kbelow(g, z, lo, y, hi),
        forall|k: int| #![trigger z[k]] x <= k < y ==> selected(g, z, lo, k, hi)
{
    lemma_perm_range(a, z, x, vh);
    let p = a[x];
    assert forall|i: int| #![trigger z[i]] lo <= i < y implies !lt(g, p, z[i]) by {
        if i < x { assert(z[i] == a[i]); }
    }
    assert forall|i: int| #![trigger z[i]] x <= i < hi implies !lt(g, z[i], p) by {
        if i < vh {
            let k = choose|k: int| x <= k < vh && #[trigger] a[k] == z[i];
            assert(!lt(g, a[k], p));
        } else {
            assert(z[i] == a[i]);
        }
    }
    assert forall|k: int| #![trigger z[k]] x <= k < y implies selected(g, z, lo, k, hi) by { }
}
pub proof fn lemma_selected_widen<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, x: int, y: int, k: int)
    requires lo <= x <= k < y <= hi
    ensures kbelow(g, s, lo, x, hi) && kbelow(g, s, lo, y, hi) && selected(g, s, x, k, y) ==> selected(g, s, lo, k, hi)
{
    if kbelow(g, s, lo, x, hi) && kbelow(g, s, lo, y, hi) && selected(g, s, x, k, y) {
        assert forall|i: int| #![trigger s[i]] lo <= i < k implies !lt(g, s[k], s[i]) by { }
        assert forall|i: int| #![trigger s[i]] k < i < hi implies !lt(g, s[i], s[k]) by { }
    }
}
pub proof fn lemma_selected_kbelow<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int, k: int)
    requires lo <= k < hi
    ensures selected(g, s, lo, k, hi) ==> kbelow(g, s, lo, k, hi) && kbelow(g, s, lo, k + 1, hi)
{
    if selected(g, s, lo, k, hi) {
        assert forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < k && k <= j < hi implies !lt(g, s[j], s[i]) by { assert(!lt(g, s[k], s[i])); if j > k { assert(!lt(g, s[j], s[k])); } }
        assert forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < k + 1 && k + 1 <= j < hi implies !lt(g, s[j], s[i]) by { assert(!lt(g, s[j], s[k])); if i < k { assert(!lt(g, s[k], s[i])); } }
    }
}
}verus
