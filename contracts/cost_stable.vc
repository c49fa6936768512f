# How often the stable sorts call the comparator (aspect K, decided by C19).
fn merge_sort::merge
ensures[K] ok: n1 <= n0 + v.len
inv 2[K] is_less.n() + mid <= n0 + hole.start + right
inv 4[K] is_less.n() + hole.dest + hole.end <= n0 + v.len

fn merge_sort::find_streak
ensures[K] ok: n1 <= n0 + r.0
invx 1[K] is_less.n() + 1 <= n0 + end
lens 1[K] is_less.n() <= n0 + end
invx 2[K] is_less.n() + 1 <= n0 + end
lens 2[K] is_less.n() <= n0 + end

fn merge_sort::provide_sorted_batch
ensures[K] ok: n1 <= n0 + 32 * (r - start)

verus{ K
/// What the pending runs have left to pay for: a run three times its length per run below it.
#[verifier::opaque]
pub open spec fn owed(s: Seq<merge_sort__TimSortRun>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { owed(s.drop_last()) + 3 * (s.last().len * (s.len() - 1)) } }
/// A merge is due whatever comes next in the input: the top two or three runs are out of order.
pub open spec fn due(s: Seq<merge_sort__TimSortRun>) -> bool {
    let n = s.len() as int;
    n >= 2 && (s[n - 2].len <= s[n - 1].len || n >= 3 && s[n - 3].len <= s[n - 2].len + s[n - 1].len)
}
/// Or the third and fourth are.
pub open spec fn due4(s: Seq<merge_sort__TimSortRun>) -> bool {
    let n = s.len() as int;
    n >= 4 && s[n - 4].len <= s[n - 3].len + s[n - 2].len
}
/// Debt that the next merge settles or hands on.
pub open spec fn debt(s: Seq<merge_sort__TimSortRun>, d: int) -> bool {
    d == 0 || 0 <= d && due(s) && d <= s.last().len
}
/// The pair collapse may ask for.
pub open spec fn pair(s: Seq<merge_sort__TimSortRun>, r: int) -> bool {
    let n = s.len() as int;
    n >= 2 && (r == n - 2 || n >= 3 && r == n - 3 && s[n - 3].len <= s[n - 2].len + s[n - 1].len)
}
pub open spec fn merged(s: Seq<merge_sort__TimSortRun>, r: int, m: merge_sort__TimSortRun) -> Seq<merge_sort__TimSortRun> { s.update(r + 1, m).remove(r) }
pub proof fn lemma_owed_push(s: Seq<merge_sort__TimSortRun>, m: merge_sort__TimSortRun)
    ensures owed(s.push(m)) == owed(s) + 3 * (m.len * s.len())
{ reveal(owed); assert(s.push(m).drop_last() =~= s); }
pub proof fn lemma_owed_pos(s: Seq<merge_sort__TimSortRun>)
    ensures 0 <= owed(s)
    decreases s.len()
{
    reveal(owed);
    if s.len() > 0 {
        lemma_owed_pos(s.drop_last());
        let (a, b) = (s.last().len as int, s.len() - 1);
        assert(0 <= a * b) by (nonlinear_arith) requires 0 <= a, 0 <= b;
    }
}
pub open spec fn paid(s: Seq<merge_sort__TimSortRun>, r: int) -> int {
    if r == s.len() - 2 { 3 * s[r + 1].len } else { 3 * (s[r + 1].len + s[r + 2].len) }
}
/// Merging moves one or two runs one place down.
pub proof fn lemma_owed_merge(s: Seq<merge_sort__TimSortRun>, r: int, m: merge_sort__TimSortRun)
    requires r == s.len() - 2 || r == s.len() - 3, 0 <= r, m.len == s[r].len + s[r + 1].len
    ensures owed(merged(s, r, m)) + paid(s, r) == owed(s)
{
    let a = s.subrange(0, r);
    let (y, x) = (s[r], s[r + 1]);
    lemma_owed_push(a, y); lemma_owed_push(a.push(y), x); lemma_owed_push(a, m);
    assert(m.len * r == y.len * r + x.len * r) by (nonlinear_arith) requires m.len == y.len + x.len;
    assert(x.len * (r + 1) == x.len * r + x.len) by (nonlinear_arith);
    if r == s.len() - 2 {
        assert(s =~= a.push(y).push(x));
        assert(merged(s, r, m) =~= a.push(m));
    } else {
        let w = s[r + 2];
        lemma_owed_push(a.push(y).push(x), w); lemma_owed_push(a.push(m), w);
        assert(s =~= a.push(y).push(x).push(w));
        assert(merged(s, r, m) =~= a.push(m).push(w));
        assert(w.len * (r + 2) == w.len * (r + 1) + w.len) by (nonlinear_arith);
    }
}
pub open spec fn rest(s: Seq<merge_sort__TimSortRun>, r: int, d: int) -> int {
    let e = d + s[r].len + s[r + 1].len - paid(s, r);
    if e < 0 { 0 } else { e }
}
/// A merge that is due pays for itself and the debt, or leaves a debt no larger than the new top.
pub proof fn lemma_owed_step(s: Seq<merge_sort__TimSortRun>, r: int, m: merge_sort__TimSortRun, d: int)
    requires tiled(s), pair(s, r), debt(s, d), due(s) || due4(s), m.len == s[r].len + s[r + 1].len
    ensures debt(merged(s, r, m), rest(s, r, d)), owed(merged(s, r, m)) + paid(s, r) == owed(s)
{
    lemma_owed_merge(s, r, m);
    let n = s.len() as int;
    let t = merged(s, r, m);
    assert(forall|k: int| 0 <= k < r ==> t[k] == s[k]);
    assert(t[r] == m);
    assert(r == n - 3 ==> t[r + 1] == s[r + 2]);
}
pub open spec fn height(n: int) -> int { 2 * bits(n) }
pub proof fn lemma_bits_pow2(n: int)
    requires 0 <= n
    ensures pow2(bits(n) as nat) > n, bits(n) >= 0
    decreases n
{ lemma_bits_mono(0, n); if n > 0 { lemma_bits_pow2(n / 2); } }
pub proof fn lemma_height(s: Seq<merge_sort__TimSortRun>, len: int)
    requires tim(s), tiled(s), span(s) <= len
    ensures s.len() <= height(len)
{
    lemma_bits_mono(0, len); lemma_bits_pow2(len);
    let k = bits(len);
    if s.len() > 2 * k {
        lemma_depth_step(s, k);
        lemma_tiled_span(s, s.len() - 1 - 2 * k);
    }
}
/// The bound the stable sorts are held to.
#[verifier::opaque]
pub open spec fn stable_cost(n: int) -> int { n * (8 * bits(n) + 40) }
/// What is granted for the input read so far.
#[verifier::opaque]
pub open spec fn granted(end: int, len: int) -> int { end * (40 + 3 * height(len)) }
}verus

fn merge_sort::merge_sort::collapse
ensures[K] ok: r is Some && !at_end(hs_seq(rp0, runs), stop as int) ==> due(hs_seq(rp0, runs)) || due4(hs_seq(rp0, runs))
ensures[K] ok: r is Some ==> pair(hs_seq(rp0, runs), r->Some_0 as int)
ensures[K] ok: r is None ==> !due(hs_seq(rp0, runs)) && !due4(hs_seq(rp0, runs))

fn merge_sort::merge_sort
ensures[K] ok: n1 <= n0 + stable_cost(v.len as int)
at[K] start: lemma_stable(v.len as int)
at[K] loop 1 before: lemma_granted(0, 0, len as int)
inv 1[K] end < len ==> is_less.n() + owed(rv_seq(rp@, runs)) <= n0 + granted(end as int, len as int)
inv 1[K] end == len ==> is_less.n() <= n0 + granted(end as int, len as int) + len * height(len as int)
at[K] after push 1: assert(rv_seq(rp@, runs).drop_last() =~= rs_b); lemma_height(rs_b, len as int); lemma_stable_push(rs_b, rv_seq(rp@, runs), end as int, len as int)
at[K] loop 2 before: let ghost mut d: int = 0
inv 2[K] end < len ==> is_less.n() + owed(rv_seq(rp@, runs)) <= n0 + granted(end as int, len as int) + d && debt(rv_seq(rp@, runs), d)
inv 2[K] end == len ==> is_less.n() + len * (runs.len - 1) <= n0 + granted(end as int, len as int) + len * height(len as int)
at[K] loop 2 end: if end < len { lemma_owed_step(rs_c, r as int, rv_seq(rp@, runs)[r as int], d); d = rest(rs_c, r as int, d); } else { lemma_tiled_span(rs_c, r + 1); assert(len * (rs_c.len() - 1) == len * (runs.len - 1) + len) by (nonlinear_arith) requires rs_c.len() == runs.len + 1; }
at[K] loop 1 after: lemma_stable_done(len as int)

verus{ K
pub open spec fn at_end(s: Seq<merge_sort__TimSortRun>, stop: int) -> bool { span(s) == stop }
pub proof fn lemma_granted(a: int, b: int, len: int)
    requires 0 <= a <= b, 0 <= len
    ensures granted(b, len) == granted(a, len) + (b - a) * (40 + 3 * height(len)), granted(0, len) == 0, owed(Seq::empty()) == 0
{
    reveal(granted); reveal(owed);
    let h = 40 + 3 * height(len);
    assert(b * h == a * h + (b - a) * h) by (nonlinear_arith);
}
/// Reading a run and putting it on the stack.
pub proof fn lemma_stable_push(a: Seq<merge_sort__TimSortRun>, b: Seq<merge_sort__TimSortRun>, end: int, len: int)
    requires b.len() == a.len() + 1, b.drop_last() == a, tiled(b), span(b) == end <= len, tiled(a), a.len() <= height(len)
    ensures span(a) + b.last().len == end, granted(end, len) >= granted(span(a), len) + 40 * b.last().len + owed(b) - owed(a), 0 <= owed(b), 0 <= owed(a), len * (b.len() - 1) <= len * height(len)
{
    assert(b =~= a.push(b.last()));
    if a.len() > 0 { assert(b[a.len() as int].start == b[a.len() - 1].start + b[a.len() - 1].len); assert(b[a.len() - 1] == a.last()); }
    lemma_owed_push(a, b.last()); lemma_owed_pos(a); lemma_owed_pos(b);
    lemma_granted(span(a), end, len);
    let (l, h, n) = (b.last().len as int, height(len), a.len() as int);
    assert(l * (40 + 3 * h) >= 40 * l + 3 * (l * n)) by (nonlinear_arith) requires 0 <= l, n <= h;
    assert(len * n <= len * h) by (nonlinear_arith) requires 0 <= len, n <= h;
}
pub proof fn lemma_stable(n: int)
    requires 0 <= n
    ensures 0 <= stable_cost(n), n <= 40 ==> (n - 1) * n <= stable_cost(n)
{
    reveal(stable_cost);
    lemma_bits_mono(0, n);
    let b = bits(n);
    assert(0 <= n * (8 * b + 40)) by (nonlinear_arith) requires 0 <= n, 0 <= b;
    if n <= 40 { assert((n - 1) * n <= n * (8 * b + 40)) by (nonlinear_arith) requires 0 <= n <= 40, 0 <= b; }
}
pub proof fn lemma_stable_done(n: int)
    requires 0 <= n
    ensures granted(n, n) + n * height(n) <= stable_cost(n)
{
    reveal(stable_cost); reveal(granted);
    let b = bits(n);
    assert(n * (40 + 3 * (2 * b)) + n * (2 * b) == n * (8 * b + 40)) by (nonlinear_arith);
}
}verus

fn stable_sort::stable_sort
ensures[K] ok: n1 <= n0 + stable_cost(v.len as int)
at[K] return 1: lemma_stable(v.len as int)

fn ArrayBase::sort_by, ArrayBase::sort_by_key
ensures[K] ok: n1 <= n0 + stable_cost(self_.len as int)
