# How often the comparator is called: n0 before, n1 after (aspect K, decided by C17).
verus{ K
/// Number of binary digits, floor(log2 n) + 1.
pub open spec fn bits(n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { 1 + bits(n / 2) } }
/// How often a length above 20 survives losing an eighth.
pub open spec fn lev(n: int) -> int
    decreases n
{ if n <= 20 { 0 } else { 1 + lev(n - n / 8) } }
pub proof fn lemma_bits_mono(a: int, b: int)
    requires a <= b
    ensures bits(a) <= bits(b), 0 <= bits(a)
    decreases b
{ if b > 0 { lemma_bits_mono(a / 2, b / 2); } }
pub proof fn lemma_lev_mono(a: int, b: int)
    requires a <= b
    ensures lev(a) <= lev(b), 0 <= lev(a)
    decreases b
{ if b > 20 { lemma_lev_mono(a - a / 8, b - b / 8); if a > 20 { } else { } } }
/// lev is logarithmic.
pub proof fn lemma_lev_small()
    ensures lev(75) <= 12, bits(21) == 5
{
    assert(lev(75) == 1 + lev(66) && lev(66) == 1 + lev(58) && lev(58) == 1 + lev(51) && lev(51) == 1 + lev(45) && lev(45) == 1 + lev(40) && lev(40) == 1 + lev(35));
    assert(lev(35) == 1 + lev(31) && lev(31) == 1 + lev(28) && lev(28) == 1 + lev(25) && lev(25) == 1 + lev(22) && lev(22) == 1 + lev(20) && lev(20) == 0);
    assert(bits(21) == 1 + bits(10) && bits(10) == 1 + bits(5) && bits(5) == 1 + bits(2) && bits(2) == 1 + bits(1) && bits(1) == 1 + bits(0) && bits(0) == 0);
}
pub proof fn lemma_lev_bits(n: int)
    requires 0 <= n
    ensures lev(n) <= 6 * bits(n)
    decreases n
{
    lemma_bits_mono(0, n);
    if n <= 20 {
    } else if n <= 75 {
        lemma_lev_small(); lemma_lev_mono(n, 75); lemma_bits_mono(21, n);
    } else {
        let a1 = n - n / 8;
        let a2 = a1 - a1 / 8;
        let a3 = a2 - a2 / 8;
        let a4 = a3 - a3 / 8;
        let a5 = a4 - a4 / 8;
        let a6 = a5 - a5 / 8;
        assert(8 * a1 <= 7 * n + 7 && 8 * a2 <= 7 * a1 + 7 && 8 * a3 <= 7 * a2 + 7 && 8 * a4 <= 7 * a3 + 7 && 8 * a5 <= 7 * a4 + 7 && 8 * a6 <= 7 * a5 + 7);
        assert(8 * a1 >= 7 * n && 8 * a2 >= 7 * a1 && 8 * a3 >= 7 * a2 && 8 * a4 >= 7 * a3 && 8 * a5 >= 7 * a4);
        assert(2 * a6 <= n && a5 > 20);
        assert(lev(n) == 1 + lev(a1) && lev(a1) == 1 + lev(a2) && lev(a2) == 1 + lev(a3) && lev(a3) == 1 + lev(a4) && lev(a4) == 1 + lev(a5) && lev(a5) == 1 + lev(a6));
        lemma_lev_bits(a6);
        lemma_bits_mono(a6, n / 2);
        assert(bits(n) == 1 + bits(n / 2));
    }
}
/// One step down the heap from `node` to `child` halves what is below.
pub proof fn lemma_heap_level(n: int, node: int, child: int)
    requires 0 <= node, 2 * node + 1 <= child < n
    ensures bits(n / (node + 1)) >= 1 + bits(n / (child + 1))
{
    let q = n / (node + 1);
    assert(q >= 1) by (nonlinear_arith) requires q == n / (node + 1), n >= node + 1, node >= 0;
    assert(n / (child + 1) <= q / 2) by (nonlinear_arith) requires q == n / (node + 1), child + 1 >= 2 * (node + 1), node >= 0, n >= 0;
    lemma_bits_mono(n / (child + 1), q / 2);
}
pub proof fn lemma_one_level(n: int, node: int)
    requires 0 <= node < n
    ensures bits(n / (node + 1)) >= 1
{
    let q = n / (node + 1);
    assert(q >= 1) by (nonlinear_arith) requires q == n / (node + 1), n >= node + 1, node >= 0;
    lemma_bits_mono(0, q / 2);
}
/// Comparisons of `i` sift-downs in a heap of n elements.
pub open spec fn hs_left(i: int, n: int) -> int { 2 * (i * bits(n)) }
pub proof fn lemma_hs(n: int)
    requires 0 <= n
    ensures hs_left(n / 2, n) + hs_left(n, n) <= 3 * (n * bits(n)), hs_left(0, n) == 0, hs_left(1, n) >= 0
{
    lemma_bits_mono(0, n);
    let r = bits(n);
    let h = n / 2;
    assert(2 * (h * r) + 2 * (n * r) <= 3 * (n * r)) by (nonlinear_arith) requires 0 <= r, 2 * h <= n, h >= 0;
}
pub proof fn lemma_heap_from(n: int, len: int, node: int)
    requires 0 <= node, 0 <= n <= len
    ensures 0 <= bits(n / (node + 1)) <= bits(len)
{
    assert(0 <= n / (node + 1) <= n) by (nonlinear_arith) requires node >= 0, n >= 0;
    lemma_bits_mono(n / (node + 1), len);
}
/// What quicksort may still spend per element: `limit` bad pivots, `wb` 1 unless the last was bad,
/// `st` 1 unless all elements are known to be above the predecessor.
pub open spec fn qw(n: int, limit: int, wb: int, st: int) -> int { 13 * (2 * (lev(n) + limit + wb) + st + 2) + 3 * bits(n) }
#[verifier::opaque]
pub open spec fn qs(n: int, limit: int, wb: int, st: int) -> int { n * qw(n, limit, wb, st) }
pub open spec fn b01(b: bool) -> int { if b { 1 } else { 0 } }
pub proof fn lemma_qs_mono(a: int, b: int, limit: int, wb: int, st: int)
    requires 0 <= a <= b, 0 <= limit, 0 <= wb, 0 <= st
    ensures 0 <= qs(a, limit, wb, st) <= qs(b, limit, wb, st), qs(b, limit, wb, st) >= 26 * b + 3 * (b * bits(b)), qs(b, limit, wb, st) >= 26 * b
{
    reveal(qs);
    lemma_bits_mono(a, b); lemma_lev_mono(a, b);
    let (p, q) = (qw(a, limit, wb, st), qw(b, limit, wb, st));
    assert(0 <= a * p <= b * q) by (nonlinear_arith) requires 0 <= a <= b, 0 <= p <= q;
    let r = bits(b);
    assert(b * q >= 26 * b + 3 * (b * r)) by (nonlinear_arith) requires 0 <= b, q >= 26 + 3 * r;
    assert(b * r >= 0) by (nonlinear_arith) requires 0 <= b, 0 <= r;
}
/// A partition pays 13 per element and leaves two parts; wb2 says it was balanced.
pub proof fn lemma_qs_part(n: int, a: int, b: int, limit: int, wb: bool, st: int, wb2: bool)
    requires 0 <= a, 0 <= b, a + b + 1 == n, n > 20, 0 <= st, limit >= 1, wb2 ==> a <= n - n / 8 && b <= n - n / 8
    ensures ({
        let l = if wb { limit } else { limit - 1 };
        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
        qs(lo, l, 1, 1) + qs(hi, l, b01(wb2), 1) + 13 * n <= qs(n, limit, b01(wb), st)
    })
{
    reveal(qs);
    let l = if wb { limit } else { limit - 1 };
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    lemma_bits_mono(lo, n); lemma_bits_mono(hi, n);
    lemma_lev_mono(lo, n - n / 8); lemma_lev_mono(hi, n);
    if wb2 { lemma_lev_mono(hi, n - n / 8); }
    let w = qw(n, limit, b01(wb), st);
    let (p, q) = (qw(lo, l, 1, 1), qw(hi, l, b01(wb2), 1));
    assert(lev(n) == 1 + lev(n - n / 8));
    assert(p + 13 <= w);
    assert(q + 13 <= w);
    lemma_lev_mono(0, lo); lemma_bits_mono(0, lo);
    assert(lo * p + hi * q + 13 * n <= n * w) by (nonlinear_arith) requires 0 <= lo, 0 <= hi, lo + hi + 1 == n, p + 13 <= w, q + 13 <= w, w >= 13;
}
/// Gathering the elements equal to the predecessor pays 13 per element too.
pub proof fn lemma_qs_equal(n: int, m: int, limit: int, wb: bool)
    requires 0 <= m <= n, limit >= 1
    ensures qs(m, if wb { limit } else { limit - 1 }, b01(wb), 0) + 13 * n <= qs(n, limit, b01(wb), 1)
{
    reveal(qs);
    let l = if wb { limit } else { limit - 1 };
    lemma_bits_mono(m, n); lemma_lev_mono(m, n);
    let (p, q) = (qw(m, l, b01(wb), 0), qw(n, limit, b01(wb), 1));
    assert(m * p + 13 * n <= n * q) by (nonlinear_arith) requires 0 <= m <= n, p + 13 <= q, p >= 0;
}
/// All of [a,b) lies above the predecessor.
pub open spec fn predlt<T>(g: CmpG<T>, s: Seq<T>, a: int, b: int, pred: Option<MPtr>) -> bool {
    pred is Some && forall|k: int| #![trigger s[k]] a <= k < b ==> lt(g, s[(pred->Some_0).addr as int], s[k])
}
pub proof fn lemma_predlt_perm<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, x: int, y: int, pred: Option<MPtr>)
    requires perm(a, z), frame(a, z, x, y), 0 <= x <= y <= a.len(), pred is Some ==> (pred->Some_0).addr < a.len() && !(x <= (pred->Some_0).addr < y)
    ensures predlt(g, a, x, y, pred) ==> predlt(g, z, x, y, pred)
{
    lemma_perm_range(a, z, x, y);
    if predlt(g, a, x, y, pred) {
        assert forall|k: int| #![trigger z[k]] x <= k < y implies lt(g, z[(pred->Some_0).addr as int], z[k]) by {
            let j = choose|j: int| x <= j < y && #[trigger] a[j] == z[k];
            assert(lt(g, a[(pred->Some_0).addr as int], a[j]));
        }
    }
}
pub proof fn lemma_short32(n: int, off: int)
    requires 0 <= off <= n <= 32
    ensures (n - off) * n <= 32 * n
{ assert((n - off) * n <= 32 * n) by (nonlinear_arith) requires 0 <= off <= n <= 32; }
pub proof fn lemma_short(n: int, off: int)
    requires 0 <= off <= n <= 20
    ensures (n - off) * n <= 20 * n
{ assert((n - off) * n <= 20 * n) by (nonlinear_arith) requires 0 <= off <= n <= 20; }
}verus

fn insertion_sort::insert_tail, insertion_sort::insert_head
ensures[K] ok: n1 <= n0 + v.len

fn insertion_sort::insert_tail
inv 1[K] is_less.n() + j <= n0 + v.len - 1

fn insertion_sort::insert_head
inv 1[K] is_less.n() <= n0 + i - 1

fn insertion_sort::insertion_sort_shift_left
ensures[K] ok: n1 <= n0 + (v.len - offset) * v.len
ensures[K] ok: v.len <= 32 ==> n1 <= n0 + 32 * v.len
at[K] start: if v.len <= 32 { lemma_short32(v.len as int, offset as int); }
inv 1[K] is_less.n() <= n0 + (i - offset) * v.len
at[K] after insert_tail 1: assert((i + 1 - offset) * v.len == (i - offset) * v.len + v.len) by (nonlinear_arith)

fn insertion_sort::insertion_sort_shift_right
ensures[K] ok: n1 <= n0 + offset * v.len
inv 1[K] is_less.n() <= n0 + (offset - i) * v.len
at[K] after insert_head 1: assert((offset - i) * v.len == (offset - (i + 1)) * v.len + v.len) by (nonlinear_arith)

fn insertion_sort::partial_insertion_sort
ensures[K] ok: n1 <= n0 + 11 * v.len + 5
inv 1[K] is_less.n() <= n0 + i + IT * (2 * v.len + 1)
at[K] after insertion_sort_shift_left 1: assert((i - (i - 1)) * i == i) by (nonlinear_arith)
at[K] after insertion_sort_shift_right 1: assert(1 * i == i) by (nonlinear_arith)
at[K] loop 1 end: assert((IT + 1) * (2 * v.len + 1) == IT * (2 * v.len + 1) + (2 * v.len + 1)) by (nonlinear_arith)
at[K] loop 1 begin: let ghost (n_b, i_b) = (is_less.n(), i)
at[K] loop 1 begin: assert(IT * (2 * v.len + 1) <= 4 * (2 * v.len + 1)) by (nonlinear_arith) requires 0 <= IT <= 4
invx 2[K] is_less.n() + i_b <= n_b + i, i_b <= i
lens 2[K] is_less.n() + i_b <= n_b + i + 1, i_b <= i
lens 2[K] i >= v.len ==> is_less.n() + i_b <= n_b + i

fn heap_sort::heap_sort::sift_down
ensures[K] ok: n1 <= n0 + 2 * bits(v.len as int / (node + 1))
inv 1[K] is_less.n() + 2 * bits(v.len as int / (node + 1)) <= n0 + 2 * bits(v.len as int / (node_in + 1))
at[K] after swap 1: lemma_heap_level(v.len as int, node as int, child as int)
at[K] loop 1 break: lemma_heap_from(v.len as int, v.len as int, node as int)
at[K] loop 1 begin: if node < v.len { lemma_one_level(v.len as int, node as int); }

fn heap_sort::heap_sort
ensures[K] ok: n1 <= n0 + 3 * (v.len * bits(v.len as int))
at[K] loop 1 begin: let ghost n_b = is_less.n()
at[K] before sift_down 1: lemma_heap_from(v.len as int, v.len as int, i as int)
at[K] before sift_down 2: lemma_heap_from(i as int, v.len as int, 0)
at[K] loop 1 end: assert(hs_left(i + 1, v.len as int) == hs_left(i as int, v.len as int) + 2 * bits(v.len as int)) by (nonlinear_arith) requires hs_left(i + 1, v.len as int) == 2 * ((i + 1) * bits(v.len as int)), hs_left(i as int, v.len as int) == 2 * (i * bits(v.len as int))
at[K] loop 2 end: assert(hs_left(i + 1, v.len as int) == hs_left(i as int, v.len as int) + 2 * bits(v.len as int)) by (nonlinear_arith) requires hs_left(i + 1, v.len as int) == 2 * ((i + 1) * bits(v.len as int)), hs_left(i as int, v.len as int) == 2 * (i * bits(v.len as int))
at[K] loop 1 before: lemma_hs(v.len as int)
inv 1[K] is_less.n() + hs_left(i as int, v.len as int) <= n0 + hs_left(v.len as int / 2, v.len as int)
inv 2[K] is_less.n() + hs_left(i as int, v.len as int) <= n0 + hs_left(v.len as int / 2, v.len as int) + hs_left(v.len as int, v.len as int)

fn partition::choose_pivot::sort2
ensures[K] ok: n1 <= n0 + 1
fn partition::choose_pivot::sort3, partition::choose_pivot::sort_adjacent
ensures[K] ok: n1 <= n0 + 3
fn partition::choose_pivot
ensures[K] ok: n1 <= n0 + 12

fn partition::partition
ensures[K] ok: n1 <= n0 + v.len + 1
invx 1[K] is_less.n() <= n0 + l
lens 1[K] is_less.n() <= n0 + l + 1
invx 2[K] is_less.n() + r <= n0 + l + v.len + 1
lens 2[K] is_less.n() + r <= n0 + l + v.len + 2

fn partition::partition_in_blocks
ensures[K] ok: n1 <= n0 + v.len
inv 1[K] is_less.n() + r <= n0 + l + v.len + (if start_l.off < end_l.off { block_l as int } else { 0 }) + (if start_r.off < end_r.off { block_r as int } else { 0 })
inv 2[K] is_less.n() + r <= n0 + l + v.len + i + (if start_r.off < end_r.off { block_r as int } else { 0 })
inv 3[K] is_less.n() + r <= n0 + l + v.len + block_l + i
inv 4[K] is_less.n() + r <= n0 + l + v.len + block_l + block_r
inv 5[K] is_less.n() <= n0 + v.len
inv 6[K] is_less.n() <= n0 + v.len

fn partition::partition_equal
ensures[K] ok: n1 <= n0 + v.len + 2
inv 1[K] is_less.n() + r <= n0 + l + v.len + 1
invx 1[K] is_less.n() + r <= n0 + l + v.len
invx 2[K] is_less.n() + r <= n0 + l + v.len
lens 2[K] is_less.n() + r <= n0 + l + 1 + v.len
at[K] loop 3 before: let ghost nr_3 = is_less.n() + r
invx 3[K] is_less.n() + r <= nr_3
lens 3[K] is_less.n() + r <= n0 + l + 1 + v.len

fn quick_sort::recurse
ensures[K] ok: g.ok && flat(g) ==> n1 <= n0 + qs(v.len as int, limit as int, 1, 1)
at[K] loop 1 before: let ghost mut st: int = 1
inv 1[K] g.ok && flat(g) ==> is_less.n() + qs(v.len as int, limit as int, b01(was_balanced), st) <= n0 + qs(v_in.len as int, limit_in as int, 1, 1)
inv 1[K] st == 1 || st == 0 && (g.ok && flat(g) ==> predlt(g, hp@, v.lo(), v.hi(), pred))
at[K] loop 1 begin: let ghost (lm_b, wb_b, n_b, st_b) = (limit as int, was_balanced, is_less.n(), st)
at[K] loop 1 begin: lemma_qs_mono(v.len as int, v.len as int, limit as int, b01(was_balanced), st); if 1 <= v.len <= 20 { lemma_short(v.len as int, 1) }
at[K] before partition_equal 1: lemma_predlt_perm(g, hp_b, hp@, v.lo(), v.hi(), pred)
at[K] after partition_equal 1: st = 0;
at[K] let mid 1: lemma_qs_equal(v.len as int, v.len - mid, lm_b, wb_b)
at[K] let mid 2: lemma_qs_part(v.len as int, mid as int, v.len - mid - 1, lm_b, wb_b, st_b, mid >= v.len / 8 && v.len - mid >= v.len / 8)
at[K] let mid 2: st = 1;

fn quick_sort::quick_sort
ensures[K] ok: g.ok && flat(g) ==> n1 <= n0 + nlogn(v.len as int)
at[K] return 1: lemma_bits_mono(0, v.len as int); lemma_nlogn(v.len as int, 0)
at[K] before recurse 1: if v.len > 0 { lemma_pow2_bits(v.len as int, (limit - 1) as nat); } lemma_nlogn(v.len as int, limit as int)
verus{ K
/// The bound the sorts are held to.
#[verifier::opaque]
pub open spec fn nlogn(n: int) -> int { n * (185 * bits(n) + 65) }
pub proof fn lemma_pow2_bits(n: int, e: nat)
    requires pow2(e) <= n < 2 * pow2(e)
    ensures bits(n) == e + 1
    decreases e
{
    if e == 0 { assert(n == 1); assert(bits(0) == 0); assert(bits(1) == 1 + bits(0)); }
    else { lemma_pow2_bits(n / 2, (e - 1) as nat); assert(pow2(e) >= 2) by { lemma_pow2_pos((e - 1) as nat); } }
}
pub proof fn lemma_pow2_pos(e: nat)
    ensures pow2(e) >= 1
    decreases e
{ if e > 0 { lemma_pow2_pos((e - 1) as nat); } }
pub proof fn lemma_nlogn(n: int, limit: int)
    requires 0 <= n, 0 <= limit <= bits(n)
    ensures qs(n, limit, 1, 1) <= nlogn(n), 0 <= nlogn(n)
{
    reveal(qs); reveal(nlogn);
    lemma_lev_bits(n); lemma_bits_mono(0, n);
    let (w, b) = (qw(n, limit, 1, 1), bits(n));
    assert(0 <= n * (185 * b + 65)) by (nonlinear_arith) requires 0 <= n, 0 <= b;
    assert(w <= 185 * b + 65);
    assert(n * w <= n * (185 * b + 65)) by (nonlinear_arith) requires 0 <= n, w <= 185 * b + 65;
}
}verus

fn ArrayBase::sort_unstable_by, ArrayBase::sort_unstable_by_key
ensures[K] ok: GL.ok && flat(GL) ==> n1 <= n0 + nlogn(self_.len as int)
