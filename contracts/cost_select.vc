# How often selection calls the comparator (aspect K, decided by C18).
verus{ K
pub type Nine = (usize, usize, usize, usize, usize, usize, usize, usize, usize);
/// x is at or above p (up), or at or below it.
pub open spec fn hit<T>(g: CmpG<T>, p: T, up: bool, x: T) -> bool { if up { !lt(g, x, p) } else { !lt(g, p, x) } }
/// How many of s hit.
pub open spec fn cs<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { cs(g, p, up, s.drop_last()) + b01(hit(g, p, up, s.last())) } }
#[verifier::opaque]
pub open spec fn cnt<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, a: int, b: int) -> int { cs(g, p, up, s.subrange(a, b)) }
pub proof fn lemma_cs_add<T>(g: CmpG<T>, p: T, up: bool, x: Seq<T>, y: Seq<T>)
    ensures cs(g, p, up, x + y) == cs(g, p, up, x) + cs(g, p, up, y)
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else { assert((x + y).drop_last() =~= x + y.drop_last()); assert((x + y).last() == y.last()); lemma_cs_add(g, p, up, x, y.drop_last()); }
}
pub proof fn lemma_cs_one<T>(g: CmpG<T>, p: T, up: bool, x: T)
    ensures cs(g, p, up, seq![x]) == b01(hit(g, p, up, x))
{ assert(seq![x].drop_last() =~= Seq::<T>::empty()); assert(cs(g, p, up, Seq::<T>::empty()) == 0); }
pub proof fn lemma_cs_perm<T>(g: CmpG<T>, p: T, up: bool, x: Seq<T>, y: Seq<T>)
    requires x.to_multiset() == y.to_multiset()
    ensures cs(g, p, up, x) == cs(g, p, up, y)
    decreases x.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(x.to_multiset().len() == x.len() && y.to_multiset().len() == y.len());
    if x.len() > 0 {
        let v = x.last();
        assert(x.contains(v));
        assert(y.to_multiset().count(v) > 0);
        assert(y.contains(v));
        let j = choose|j: int| 0 <= j < y.len() && y[j] == v;
        let (yl, yr) = (y.subrange(0, j), y.subrange(j + 1, y.len() as int));
        assert(y =~= yl + seq![v] + yr);
        assert(y.remove(j) =~= yl + yr);
        assert(x.remove(x.len() - 1) =~= x.drop_last());
        lemma_cs_add(g, p, up, yl + seq![v], yr);
        lemma_cs_add(g, p, up, yl, seq![v]);
        lemma_cs_add(g, p, up, yl, yr);
        lemma_cs_one(g, p, up, v);
        lemma_cs_perm(g, p, up, x.drop_last(), y.remove(j));
    } else { assert(y =~= x); }
}
pub proof fn lemma_cnt_split<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len()
    ensures cnt(g, p, up, s, a, c) == cnt(g, p, up, s, a, b) + cnt(g, p, up, s, b, c)
{ reveal(cnt); assert(s.subrange(a, c) =~= s.subrange(a, b) + s.subrange(b, c)); lemma_cs_add(g, p, up, s.subrange(a, b), s.subrange(b, c)); }
pub proof fn lemma_cnt_one<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, a: int)
    requires 0 <= a < s.len()
    ensures cnt(g, p, up, s, a, a + 1) == b01(hit(g, p, up, s[a])), cnt(g, p, up, s, a, a) == 0
{ reveal(cnt); assert(s.subrange(a, a + 1) =~= seq![s[a]]); lemma_cs_one(g, p, up, s[a]); }
pub proof fn lemma_cnt_bounds<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures 0 <= cnt(g, p, up, s, a, b) <= b - a
    decreases b - a
{
    if a < b { lemma_cnt_split(g, p, up, s, a, b - 1, b); lemma_cnt_one(g, p, up, s, b - 1); lemma_cnt_bounds(g, p, up, s, a, b - 1); }
    else { reveal(cnt); assert(s.subrange(a, b) =~= Seq::<T>::empty()); }
}
/// None hits, or all do.
pub proof fn lemma_cnt_none<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| #![trigger s[k]] a <= k < b ==> !hit(g, p, up, s[k])
    ensures cnt(g, p, up, s, a, b) == 0
    decreases b - a
{
    lemma_cnt_bounds(g, p, up, s, a, b);
    if a < b { lemma_cnt_split(g, p, up, s, a, b - 1, b); lemma_cnt_one(g, p, up, s, b - 1); lemma_cnt_none(g, p, up, s, a, b - 1); }
}
pub proof fn lemma_cnt_all<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| #![trigger s[k]] a <= k < b ==> hit(g, p, up, s[k])
    ensures cnt(g, p, up, s, a, b) == b - a
    decreases b - a
{
    lemma_cnt_bounds(g, p, up, s, a, b);
    if a < b { lemma_cnt_split(g, p, up, s, a, b - 1, b); lemma_cnt_one(g, p, up, s, b - 1); lemma_cnt_all(g, p, up, s, a, b - 1); }
}
pub proof fn lemma_cnt_perm<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, z: Seq<T>, a: int, b: int)
    requires perm(s, z), frame(s, z, a, b), 0 <= a <= b <= s.len()
    ensures cnt(g, p, up, s, a, b) == cnt(g, p, up, z, a, b)
{ reveal(cnt); lemma_perm_range(s, z, a, b); lemma_ms_eq(s.subrange(a, b), z.subrange(a, b)); lemma_cs_perm(g, p, up, s.subrange(a, b), z.subrange(a, b)); }
pub proof fn lemma_ms_eq<T>(a: Seq<T>, b: Seq<T>)
    ensures ms(a) == ms(b) ==> a.to_multiset() == b.to_multiset()
{ }
/// The eight others of a ninther that are at or above (below) its median at n.4.
pub open spec fn hits8<T>(g: CmpG<T>, s: Seq<T>, base: int, n: Nine, p: T, up: bool) -> int {
    b01(hit(g, p, up, s[base + n.0])) + b01(hit(g, p, up, s[base + n.1])) + b01(hit(g, p, up, s[base + n.2])) + b01(hit(g, p, up, s[base + n.3]))
    + b01(hit(g, p, up, s[base + n.5])) + b01(hit(g, p, up, s[base + n.6])) + b01(hit(g, p, up, s[base + n.7])) + b01(hit(g, p, up, s[base + n.8]))
}
#[verifier::opaque]
pub open spec fn nin<T>(g: CmpG<T>, s: Seq<T>, base: int, n: Nine) -> bool {
    hits8(g, s, base, n, s[base + n.4], true) >= 3 && hits8(g, s, base, n, s[base + n.4], false) >= 3
}
#[verifier::opaque]
pub open spec fn in9(n: Nine, k: int) -> bool { k == n.0 || k == n.1 || k == n.2 || k == n.3 || k == n.4 || k == n.5 || k == n.6 || k == n.7 || k == n.8 }
#[verifier::opaque]
pub open spec fn distinct9(n: Nine) -> bool {
    &&& n.0 != n.1 && n.0 != n.2 && n.0 != n.3 && n.0 != n.4 && n.0 != n.5 && n.0 != n.6 && n.0 != n.7 && n.0 != n.8
    &&& n.1 != n.2 && n.1 != n.3 && n.1 != n.4 && n.1 != n.5 && n.1 != n.6 && n.1 != n.7 && n.1 != n.8
    &&& n.2 != n.3 && n.2 != n.4 && n.2 != n.5 && n.2 != n.6 && n.2 != n.7 && n.2 != n.8
    &&& n.3 != n.4 && n.3 != n.5 && n.3 != n.6 && n.3 != n.7 && n.3 != n.8
    &&& n.4 != n.5 && n.4 != n.6 && n.4 != n.7 && n.4 != n.8
    &&& n.5 != n.6 && n.5 != n.7 && n.5 != n.8
    &&& n.6 != n.7 && n.6 != n.8
    &&& n.7 != n.8
}
/// How many of the three hit.
#[verifier::opaque]
pub open spec fn c3<T>(g: CmpG<T>, p: T, up: bool, x: T, y: T, z: T) -> int { b01(hit(g, p, up, x)) + b01(hit(g, p, up, y)) + b01(hit(g, p, up, z)) }
pub open spec fn mid3<T>(g: CmpG<T>, p: T, x: T, y: T, z: T) -> bool { c3(g, p, true, x, y, z) >= 2 && c3(g, p, false, x, y, z) >= 2 }
/// The medians of the two outer triples, in order.
pub open spec fn outer<T>(g: CmpG<T>, s: Seq<T>, base: int, n: Nine, b: T, h: T) -> bool {
    ||| mid3(g, b, s[base + n.0], s[base + n.1], s[base + n.2]) && mid3(g, h, s[base + n.6], s[base + n.7], s[base + n.8])
    ||| mid3(g, h, s[base + n.0], s[base + n.1], s[base + n.2]) && mid3(g, b, s[base + n.6], s[base + n.7], s[base + n.8])
}
/// How many of the nine hit.
#[verifier::opaque]
pub open spec fn hits9<T>(g: CmpG<T>, s: Seq<T>, base: int, n: Nine, p: T, up: bool) -> int { b01(hit(g, p, up, s[base + n.4])) + hits8(g, s, base, n, p, up) }
/// The middle of the medians of three triples, d e f being one of them, has four on either side, itself included.
pub proof fn lemma_nine<T>(g: CmpG<T>, s: Seq<T>, base: int, n: Nine, b: T, h: T, x: T, p: T)
    requires
        mid3(g, x, s[base + n.3], s[base + n.4], s[base + n.5]), outer(g, s, base, n, b, h),
        p == b && !lt(g, b, x) && !lt(g, h, b) || p == h && !lt(g, x, h) && !lt(g, h, b) || p == x && !lt(g, x, b) && !lt(g, h, x)
    ensures hits9(g, s, base, n, p, true) >= 4, hits9(g, s, base, n, p, false) >= 4
{
    let (u, w) = if mid3(g, b, s[base + n.0], s[base + n.1], s[base + n.2]) && mid3(g, h, s[base + n.6], s[base + n.7], s[base + n.8]) { (b, h) } else { (h, b) };
    lemma_nine_side(g, s, base, n, u, w, x, p, true);
    lemma_nine_side(g, s, base, n, u, w, x, p, false);
}
pub proof fn lemma_c3_trans<T>(g: CmpG<T>, m: T, p: T, up: bool, x: T, y: T, z: T)
    requires hit(g, p, up, m)
    ensures c3(g, p, up, x, y, z) >= c3(g, m, up, x, y, z)
{ reveal(c3); }
pub proof fn lemma_nine_side<T>(g: CmpG<T>, s: Seq<T>, base: int, n: Nine, b: T, h: T, x: T, p: T, up: bool)
    requires
        c3(g, b, up, s[base + n.0], s[base + n.1], s[base + n.2]) >= 2, c3(g, x, up, s[base + n.3], s[base + n.4], s[base + n.5]) >= 2, c3(g, h, up, s[base + n.6], s[base + n.7], s[base + n.8]) >= 2,
        b01(hit(g, p, up, b)) + b01(hit(g, p, up, x)) + b01(hit(g, p, up, h)) >= 2
    ensures hits9(g, s, base, n, p, up) >= 4
{
    if hit(g, p, up, b) { lemma_c3_trans(g, b, p, up, s[base + n.0], s[base + n.1], s[base + n.2]); }
    if hit(g, p, up, x) { lemma_c3_trans(g, x, p, up, s[base + n.3], s[base + n.4], s[base + n.5]); }
    if hit(g, p, up, h) { lemma_c3_trans(g, h, p, up, s[base + n.6], s[base + n.7], s[base + n.8]); }
    reveal(hits9); reveal(c3);
}
/// With p in the middle place, three of the others are on either side.
pub proof fn lemma_nin_swap<T>(g: CmpG<T>, s: Seq<T>, z: Seq<T>, base: int, n: Nine, x: int)
    requires
        distinct9(n), in9(n, x), 0 <= base, forall|k: int| #![trigger in9(n, k)] in9(n, k) ==> base + k < s.len(),
        s.len() == z.len(), z[base + n.4] == s[base + x], z[base + x] == s[base + n.4], forall|k: int| #![trigger z[k]] 0 <= k < s.len() && k != base + x && k != base + n.4 ==> z[k] == s[k],
        hits9(g, s, base, n, s[base + x], true) >= 4, hits9(g, s, base, n, s[base + x], false) >= 4
    ensures nin(g, z, base, n)
{
    reveal(nin); reveal(distinct9); reveal(in9); reveal(hits9);
    assert(in9(n, n.0 as int) && in9(n, n.1 as int) && in9(n, n.2 as int) && in9(n, n.3 as int) && in9(n, n.4 as int) && in9(n, n.5 as int) && in9(n, n.6 as int) && in9(n, n.7 as int) && in9(n, n.8 as int));
    let p = s[base + x];
    assert(z[base + n.4] == p);
    assert(hit(g, p, true, p) && hit(g, p, false, p));
}
}verus

fn partition::median_idx
ensures[K] ok: n1 <= n0 + 3
ensures[K] ok: r == a || r == b || r == c
ensures[K] ok: g.ok ==> mid3(g, hp0[v.base + r], hp0[v.base + a], hp0[v.base + b], hp0[v.base + c])
at[K] start: reveal(c3)

fn partition::ninther
ensures[K] ok: n1 <= n0 + 12
ensures[K] ok: forall|k: int| #![trigger hp1[k]] 0 <= k < hp0.len() && !in9(n, k - v.base) ==> hp1[k] == hp0[k]
ensures[K] ok: g.ok && distinct9(n) ==> nin(g, hp1, v.base as int, n)
at[K] start: reveal(in9)
at[K] start: let ghost (go, nn, bs) = (g, n, v.base as int)
at[K] fi 3: let ghost xd = d
at[K] before swap 3: if go.ok { assert(mid3(go, hp@[bs + e], hp@[bs + nn.3], hp@[bs + nn.4], hp@[bs + nn.5])) by { reveal(c3); } lemma_nine(go, hp@, bs, nn, hp@[bs + b], hp@[bs + h], hp@[bs + e], hp@[bs + b]); }
at[K] after swap 3: if go.ok && distinct9(nn) { lemma_nin_swap(go, hp0, hp@, bs, nn, b as int); }
at[K] before swap 4: if go.ok { assert(mid3(go, hp@[bs + e], hp@[bs + nn.3], hp@[bs + nn.4], hp@[bs + nn.5])) by { reveal(c3); } lemma_nine(go, hp@, bs, nn, hp@[bs + b], hp@[bs + h], hp@[bs + e], hp@[bs + h]); }
at[K] after swap 4: if go.ok && distinct9(nn) { lemma_nin_swap(go, hp0, hp@, bs, nn, h as int); }
at[K] return 1: if go.ok && distinct9(nn) && hp@ == hp0 && !lt(go, hp@[bs + e], hp@[bs + b]) && !lt(go, hp@[bs + h], hp@[bs + e]) { assert(mid3(go, hp@[bs + e], hp@[bs + nn.3], hp@[bs + nn.4], hp@[bs + nn.5])) by { reveal(c3); } lemma_nine(go, hp@, bs, nn, hp@[bs + b], hp@[bs + h], hp@[bs + e], hp@[bs + e]); lemma_nin_swap(go, hp0, hp@, bs, nn, e as int); }
at[K] before swap 5: if go.ok { assert(mid3(go, hp@[bs + xd], hp@[bs + nn.3], hp@[bs + nn.4], hp@[bs + nn.5])) by { reveal(c3); } lemma_nine(go, hp@, bs, nn, hp@[bs + b], hp@[bs + h], hp@[bs + xd], hp@[bs + d]); }
at[K] after swap 5: if go.ok && distinct9(nn) { lemma_nin_swap(go, hp0, hp@, bs, nn, d as int); }

verus{ K
/// How many ninthers are taken of n elements.
pub open spec fn nf(n: int) -> int { if n <= 1024 { n / 12 } else if n <= 131072 { n / 64 } else { n / 1024 } }
/// The nine positions of ninther t.
pub open spec fn nine(lo: int, f: int, gap: int, t: int) -> Nine {
    let (a, b, i) = (lo - 4 * f - gap + 3 * t, lo + f + gap + 3 * t, lo + t);
    (a as usize, (i - f) as usize, b as usize, (a + 1) as usize, i as usize, (b + 1) as usize, (a + 2) as usize, (i + f) as usize, (b + 2) as usize)
}
/// The ninthers lie within the length and are disjoint.
pub open spec fn fits(len: int, lo: int, f: int, gap: int) -> bool {
    1 <= f <= gap && 0 <= lo - 4 * f - gap && lo + 4 * f + gap <= len && len <= isize::MAX
}
#[verifier::opaque]
pub open spec fn grp<T>(g: CmpG<T>, s: Seq<T>, base: int, lo: int, f: int, gap: int, t: int) -> bool { nin(g, s, base, nine(lo, f, gap, t)) }
pub proof fn lemma_grp_keep<T>(g: CmpG<T>, s: Seq<T>, z: Seq<T>, base: int, len: int, lo: int, f: int, gap: int, t: int, u: int)
    requires
        fits(len, lo, f, gap), 0 <= base, base + len <= s.len(), s.len() == z.len(), 0 <= t < f, 0 <= u < f, t != u,
        forall|k: int| #![trigger z[k]] 0 <= k < s.len() && !in9(nine(lo, f, gap, t), k - base) ==> z[k] == s[k]
    ensures grp(g, s, base, lo, f, gap, u) ==> grp(g, z, base, lo, f, gap, u)
{
    reveal(grp); reveal(nin); reveal(in9);
    let n = nine(lo, f, gap, u);
    let m = nine(lo, f, gap, t);
    assert(!in9(m, n.0 as int) && !in9(m, n.1 as int) && !in9(m, n.2 as int) && !in9(m, n.3 as int) && !in9(m, n.4 as int) && !in9(m, n.5 as int) && !in9(m, n.6 as int) && !in9(m, n.7 as int) && !in9(m, n.8 as int));
    assert(z[base + n.0] == s[base + n.0] && z[base + n.1] == s[base + n.1] && z[base + n.2] == s[base + n.2] && z[base + n.3] == s[base + n.3] && z[base + n.4] == s[base + n.4]);
    assert(z[base + n.5] == s[base + n.5] && z[base + n.6] == s[base + n.6] && z[base + n.7] == s[base + n.7] && z[base + n.8] == s[base + n.8]);
}
/// One more ninther.
pub proof fn lemma_grp_step<T>(g: CmpG<T>, s: Seq<T>, z: Seq<T>, base: int, len: int, lo: int, f: int, gap: int, t: int, n: Nine)
    requires
        fits(len, lo, f, gap), 0 <= base, base + len <= s.len(), s.len() == z.len(), 0 <= t < f,
        n.0 == lo - 4 * f - gap + 3 * t, n.1 == lo + t - f, n.2 == lo + f + gap + 3 * t, n.3 == n.0 + 1, n.4 == lo + t, n.5 == n.2 + 1, n.6 == n.0 + 2, n.7 == lo + t + f, n.8 == n.2 + 2,
        forall|k: int| #![trigger z[k]] 0 <= k < s.len() && !in9(n, k - base) ==> z[k] == s[k],
        distinct9(n) ==> nin(g, z, base, n),
        forall|u: int| #![trigger grp(g, s, base, lo, f, gap, u)] 0 <= u < t ==> grp(g, s, base, lo, f, gap, u)
    ensures forall|u: int| #![trigger grp(g, z, base, lo, f, gap, u)] 0 <= u < t + 1 ==> grp(g, z, base, lo, f, gap, u)
{
    assert(n == nine(lo, f, gap, t));
    assert(distinct9(n)) by { reveal(distinct9); }
    assert(grp(g, z, base, lo, f, gap, t)) by { reveal(grp); }
    assert forall|u: int| #![trigger grp(g, z, base, lo, f, gap, u)] 0 <= u < t + 1 implies grp(g, z, base, lo, f, gap, u) by {
        if u < t { assert(grp(g, s, base, lo, f, gap, u)); lemma_grp_keep(g, s, z, base, len, lo, f, gap, t, u); }
    }
}
pub proof fn lemma_hit_trans<T>(g: CmpG<T>, p: T, m: T, x: T, up: bool)
    requires g.ok, flat(g), hit(g, p, up, m), hit(g, m, up, x)
    ensures hit(g, p, up, x)
{ }
/// The ninthers whose median hits: each brings three more.
pub proof fn lemma_grps<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, base: int, len: int, lo: int, f: int, gap: int, t: int)
    requires
        g.ok, flat(g), fits(len, lo, f, gap), 0 <= base, base + len <= s.len(), 0 <= t <= f,
        forall|u: int| #![trigger grp(g, s, base, lo, f, gap, u)] 0 <= u < t ==> grp(g, s, base, lo, f, gap, u)
    ensures ({
        let (a, l, r, b) = (base + lo - 4 * f - gap, base + lo - f, base + lo + f, base + lo + f + gap);
        cnt(g, p, up, s, a, a + 3 * t) + cnt(g, p, up, s, l, l + t) + cnt(g, p, up, s, r, r + t) + cnt(g, p, up, s, b, b + 3 * t)
            >= 3 * cnt(g, p, up, s, base + lo, base + lo + t)
    })
    decreases t
{
    let (a, l, m, r, b) = (base + lo - 4 * f - gap, base + lo - f, base + lo, base + lo + f, base + lo + f + gap);
    if t == 0 {
        lemma_cnt_one(g, p, up, s, a); lemma_cnt_one(g, p, up, s, l); lemma_cnt_one(g, p, up, s, m); lemma_cnt_one(g, p, up, s, r); lemma_cnt_one(g, p, up, s, b);
    } else {
        let u = t - 1;
        lemma_grps(g, p, up, s, base, len, lo, f, gap, u);
        lemma_cnt_three(g, p, up, s, a, a + 3 * u);
        lemma_cnt_three(g, p, up, s, b, b + 3 * u);
        lemma_cnt_split(g, p, up, s, l, l + u, l + t); lemma_cnt_one(g, p, up, s, l + u);
        lemma_cnt_split(g, p, up, s, r, r + u, r + t); lemma_cnt_one(g, p, up, s, r + u);
        lemma_cnt_split(g, p, up, s, m, m + u, m + t); lemma_cnt_one(g, p, up, s, m + u);
        lemma_grp_brings(g, p, up, s, base, len, lo, f, gap, u);
    }
}
pub proof fn lemma_cnt_three<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, a: int, b: int)
    requires 0 <= a <= b, b + 3 <= s.len()
    ensures cnt(g, p, up, s, a, b + 3) == cnt(g, p, up, s, a, b) + b01(hit(g, p, up, s[b])) + b01(hit(g, p, up, s[b + 1])) + b01(hit(g, p, up, s[b + 2]))
{
    lemma_cnt_split(g, p, up, s, a, b, b + 3); lemma_cnt_split(g, p, up, s, b, b + 1, b + 3); lemma_cnt_split(g, p, up, s, b + 1, b + 2, b + 3);
    lemma_cnt_one(g, p, up, s, b); lemma_cnt_one(g, p, up, s, b + 1); lemma_cnt_one(g, p, up, s, b + 2);
}
pub proof fn lemma_grp_brings<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, base: int, len: int, lo: int, f: int, gap: int, u: int)
    requires g.ok, flat(g), fits(len, lo, f, gap), 0 <= base, base + len <= s.len(), 0 <= u < f, grp(g, s, base, lo, f, gap, u)
    ensures ({
        let (a, l, m, r, b) = (base + lo - 4 * f - gap + 3 * u, base + lo - f + u, base + lo + u, base + lo + f + u, base + lo + f + gap + 3 * u);
        b01(hit(g, p, up, s[a])) + b01(hit(g, p, up, s[a + 1])) + b01(hit(g, p, up, s[a + 2])) + b01(hit(g, p, up, s[l])) + b01(hit(g, p, up, s[r]))
            + b01(hit(g, p, up, s[b])) + b01(hit(g, p, up, s[b + 1])) + b01(hit(g, p, up, s[b + 2])) >= 3 * b01(hit(g, p, up, s[m]))
    })
{
    reveal(grp); reveal(nin);
    let n = nine(lo, f, gap, u);
    let q = s[base + n.4];
    if hit(g, p, up, q) {
        assert forall|x: T| #![trigger hit(g, q, up, x)] hit(g, q, up, x) implies hit(g, p, up, x) by { lemma_hit_trans(g, p, q, x, up); }
        assert(hits8(g, s, base, n, q, up) >= 3);
        assert(hits8(g, s, base, n, p, up) >= hits8(g, s, base, n, q, up));
    }
}
/// The median of the medians of the ninthers: so many elements are not above it, and so many not below it.
pub proof fn lemma_pivot_counts<T>(g: CmpG<T>, s: Seq<T>, z: Seq<T>, base: int, len: int, lo: int, f: int, gap: int)
    requires
        g.ok, flat(g), fits(len, lo, f, gap), 0 <= base, base + len <= s.len(),
        forall|u: int| #![trigger grp(g, s, base, lo, f, gap, u)] 0 <= u < f ==> grp(g, s, base, lo, f, gap, u),
        perm(s, z), frame(s, z, base + lo, base + lo + f),
        selected(g, z, base + lo, base + lo + f / 2, base + lo + f)
    ensures
        cnt(g, z[base + lo + f / 2], false, z, base, base + len) >= 4 * (f / 2 + 1),
        cnt(g, z[base + lo + f / 2], true, z, base, base + len) >= 4 * (f - f / 2),
{
    let p = z[base + lo + f / 2];
    let (m, k) = (base + lo, base + lo + f / 2);
    lemma_pivot_half(g, p, false, s, z, base, len, lo, f, gap, base + lo, k + 1);
    lemma_pivot_half(g, p, true, s, z, base, len, lo, f, gap, k, base + lo + f);
}
pub proof fn lemma_pivot_half<T>(g: CmpG<T>, p: T, up: bool, s: Seq<T>, z: Seq<T>, base: int, len: int, lo: int, f: int, gap: int, x: int, y: int)
    requires
        g.ok, flat(g), fits(len, lo, f, gap), 0 <= base, base + len <= s.len(),
        forall|u: int| #![trigger grp(g, s, base, lo, f, gap, u)] 0 <= u < f ==> grp(g, s, base, lo, f, gap, u),
        perm(s, z), frame(s, z, base + lo, base + lo + f), base + lo <= x <= y <= base + lo + f,
        forall|k: int| #![trigger z[k]] x <= k < y ==> hit(g, p, up, z[k])
    ensures cnt(g, p, up, z, base, base + len) >= 4 * (y - x)
{
    let (a, l, m, r, b) = (base + lo - 4 * f - gap, base + lo - f, base + lo, base + lo + f, base + lo + f + gap);
    let e = base + len;
    lemma_cnt_all(g, p, up, z, x, y);
    lemma_cnt_split(g, p, up, z, m, x, r); lemma_cnt_split(g, p, up, z, x, y, r);
    lemma_cnt_bounds(g, p, up, z, m, x); lemma_cnt_bounds(g, p, up, z, y, r);
    lemma_cnt_perm(g, p, up, s, z, m, r);
    lemma_cnt_widen(s, z, m, r, base, e);
    lemma_cnt_perm(g, p, up, s, z, base, e);
    lemma_grps(g, p, up, s, base, len, lo, f, gap, f);
    lemma_cnt_split(g, p, up, s, base, a, e); lemma_cnt_split(g, p, up, s, a, a + 3 * f, e); lemma_cnt_split(g, p, up, s, a + 3 * f, l, e);
    lemma_cnt_split(g, p, up, s, l, m, e); lemma_cnt_split(g, p, up, s, m, r, e); lemma_cnt_split(g, p, up, s, r, r + f, e);
    lemma_cnt_split(g, p, up, s, r + f, b, e); lemma_cnt_split(g, p, up, s, b, b + 3 * f, e);
    lemma_cnt_bounds(g, p, up, s, base, a); lemma_cnt_bounds(g, p, up, s, a + 3 * f, l); lemma_cnt_bounds(g, p, up, s, r + f, b); lemma_cnt_bounds(g, p, up, s, b + 3 * f, e);
}
pub proof fn lemma_cnt_widen<T>(s: Seq<T>, z: Seq<T>, x: int, y: int, a: int, b: int)
    requires frame(s, z, x, y), a <= x, y <= b
    ensures frame(s, z, a, b)
{ }
}verus

fn partition::median_of_ninthers
ensures[K] ok: g.ok && flat(g) ==> n1 <= n0 + 12 * nf(v.len as int) + mb(nf(v.len as int)) + v.len + 1
ensures[K] ok: g.ok && flat(g) && v.len > 1024 ==> v.len - r >= 2 * nf(v.len as int)
ensures[K] ok: g.ok && flat(g) && v.len > 1024 ==> cnt(g, hp1[v.base + r], false, hp1, v.lo(), v.hi()) >= 2 * nf(v.len as int)
inv 1[K] a == lo - 4 * frac - gap + 3 * (i - lo), b == lo + frac + gap + 3 * (i - lo)
inv 1[K] is_less.n() <= n0 + 12 * (i - lo)
inv 1[K] g.ok && v.len > 1024 ==> forall|u: int| #![trigger grp(g, hp@, v.base as int, lo as int, frac as int, gap as int, u)] 0 <= u < i - lo ==> grp(g, hp@, v.base as int, lo as int, frac as int, gap as int, u)
at[K] loop 1 before: assert(frac == nf(v.len as int)); assert(v.len > 1024 ==> fits(v.len as int, lo as int, frac as int, gap as int))
at[K] loop 1 begin: let ghost hp_b = hp@
at[K] after ninther 1: if g.ok && v.len > 1024 { lemma_grp_step(g, hp_b, hp@, v.base as int, v.len as int, lo as int, frac as int, gap as int, i - lo, (a, (i - frac) as usize, b, (a + 1) as usize, i, (b + 1) as usize, (a + 2) as usize, (i + frac) as usize, (b + 2) as usize)); }
at[K] before median_of_medians 1: let ghost hp_l = hp@
at[K] after median_of_medians 1: if g.ok && flat(g) && v.len > 1024 { lemma_pivot_counts(g, hp_l, hp@, v.base as int, v.len as int, lo as int, frac as int, gap as int); }
at[K] after median_of_medians 1: if frac > 0 { lemma_mb(frac as int); }
at[K] before partition 1: let ghost hp_q = hp@
at[K] after partition 1: if g.ok && flat(g) && v.len > 1024 { let p = hp_q[v.base + lo + frac / 2]; lemma_cnt_perm(g, p, true, hp_q, hp@, v.lo(), v.hi()); lemma_cnt_perm(g, p, false, hp_q, hp@, v.lo(), v.hi()); lemma_cnt_none(g, p, true, hp@, v.lo(), v.base + RET.0); lemma_cnt_split(g, p, true, hp@, v.lo(), v.base + RET.0, v.hi()); lemma_cnt_bounds(g, p, true, hp@, v.base + RET.0, v.hi()); }

verus{ K
/// The bound on median_of_medians.
pub open spec fn mb(n: int) -> int { if n <= 10 { n * n } else if n <= 131 { 3 * (n * n) } else if n <= 1024 { 13 * (n * n) } else { 13312 * n } }
pub proof fn lemma_mb(n: int)
    requires 0 <= n
    ensures 0 <= mb(n) <= 13312 * n, n > 10 ==> 2 * n <= mb(n), n <= 10 ==> (n - 1) * n <= mb(n)
{
    assert(0 <= n * n) by (nonlinear_arith) requires 0 <= n;
    assert((n - 1) * n <= n * n) by (nonlinear_arith) requires 0 <= n;
    if n > 10 { assert(10 * n <= n * n) by (nonlinear_arith) requires 10 <= n; }
    if n <= 1024 { assert(n * n <= 1024 * n) by (nonlinear_arith) requires 0 <= n <= 1024; }
}
/// One pivot of a short array costs no more than what dropping one element saves.
pub proof fn lemma_mb_short(n: int, m: int)
    requires 11 <= n <= 1024, 0 <= m < n
    ensures 12 * nf(n) + mb(nf(n)) + 2 * n + 3 + mb(m) <= mb(n)
{
    let f = nf(n);
    assert(m * m <= (n - 1) * (n - 1)) by (nonlinear_arith) requires 0 <= m <= n - 1;
    assert((n - 1) * (n - 1) == n * n - 2 * n + 1) by (nonlinear_arith);
    assert(0 <= m * m) by (nonlinear_arith) requires 0 <= m;
    if n <= 131 { assert(f * f <= 10 * f) by (nonlinear_arith) requires 0 <= f <= 10; }
    else { assert(f * f <= 85 * f) by (nonlinear_arith) requires 0 <= f <= 85; }
}
pub proof fn lemma_mb_long(n: int, m: int)
    requires 1024 < n, 0 <= m <= n - 2 * nf(n)
    ensures 12 * nf(n) + mb(nf(n)) + 2 * n + 3 + mb(m) <= mb(n)
{ lemma_mb(nf(n)); lemma_mb(m); }
}verus

fn partition::median_of_medians
ensures[K] ok: g.ok && flat(g) ==> n1 <= n0 + mb(v.len as int)
inv 1[K] g.ok && flat(g) ==> is_less.n() + mb(v.len as int) <= n0 + mb(v_in.len as int)
at[K] loop 1 begin: lemma_mb(v.len as int)
at[K] let p 1: if v.len <= 1024 { lemma_mb_short(v.len as int, 0); lemma_mb_short(v.len as int, p as int); } else { lemma_mb_long(v.len as int, 0); if g.ok && flat(g) { lemma_mb_long(v.len as int, p as int); } }
at[K] after partition_equal 1: if g.ok && flat(g) { if v.len <= 1024 { lemma_mb_short(v.len as int, v.len - p_b - RET); } else { let (q, y) = (hp_p[v.base + p_b], v.base + p_b + RET); lemma_cnt_widen(hp_p, hp@, v.base + p_b, v.hi(), v.lo(), v.hi()); lemma_cnt_perm(g, q, false, hp_p, hp@, v.lo(), v.hi()); lemma_cnt_split(g, q, false, hp@, v.lo(), y, v.hi()); lemma_cnt_none(g, q, false, hp@, y, v.hi()); lemma_cnt_bounds(g, q, false, hp@, v.lo(), y); lemma_mb_long(v.len as int, v.len - p_b - RET); } }

fn partition::from_is_less
ensures[K] ok: n1 <= n0 + 1

verus{ K
/// What partition_at_index_loop may still spend.
#[verifier::opaque]
pub open spec fn pb(n: int, limit: int, wb: int, pr: int) -> int { n * (13312 + 4 * (limit + wb) + 2 * pr) }
/// The bound single-index selection is held to.
#[verifier::opaque]
pub open spec fn linear(n: int) -> int { 13382 * n }
pub proof fn lemma_pb_start(n: int, pr: int)
    requires 0 <= n, pr == 0 || pr == 1
    ensures pb(n, 16, 1, pr) <= linear(n)
{ reveal(pb); reveal(linear); assert(n * (13312 + 4 * 17 + 2 * pr) <= 13382 * n) by (nonlinear_arith) requires 0 <= n, pr <= 1; }
pub proof fn lemma_pb_end(n: int, limit: int, wb: int, pr: int)
    requires 0 <= n, 0 <= limit, 0 <= wb, 0 <= pr
    ensures 0 <= pb(n, limit, wb, pr), mb(n) <= pb(n, limit, wb, pr), n <= 10 ==> (n - 1) * n <= pb(n, limit, wb, pr), n >= 1 ==> 2 * n + 15 <= pb(n, limit, wb, pr)
{
    reveal(pb); lemma_mb(n);
    assert(13312 * n <= n * (13312 + 4 * (limit + wb) + 2 * pr)) by (nonlinear_arith) requires 0 <= n, 0 <= limit, 0 <= wb, 0 <= pr;
}
pub proof fn lemma_pb_equal(n: int, m: int, limit: int, wb: bool)
    requires 0 <= m < n, 1 <= limit
    ensures n + 15 + pb(m, if wb { limit } else { limit - 1 }, b01(wb), 0) <= pb(n, limit, b01(wb), 1)
{
    reveal(pb);
    let y = 13312 + 4 * (if wb { limit } else { limit - 1 } + b01(wb));
    assert(m * y + y <= n * y) by (nonlinear_arith) requires 0 <= m < n, 0 <= y;
    let z = 13312 + 4 * (limit + b01(wb)) + 2;
    assert(n * y + 2 * n <= n * z) by (nonlinear_arith) requires 0 <= n, y + 2 <= z;
}
pub proof fn lemma_pb_part(n: int, m: int, limit: int, wb: bool, wb2: bool, pr: int, pr2: int)
    requires 0 <= m < n, 1 <= limit, 0 <= pr, 0 <= pr2 <= 1, wb2 ==> m <= n - n / 8
    ensures n + 15 + pb(m, if wb { limit } else { limit - 1 }, b01(wb2), pr2) <= pb(n, limit, b01(wb), pr)
{
    reveal(pb);
    let y = 13312 + 4 * (if wb { limit } else { limit - 1 } + b01(wb2)) + 2 * pr2;
    let z = 13312 + 4 * (limit + b01(wb)) + 2 * pr;
    if wb2 {
        assert(y <= z + 2);
        let d = if n < 8 { 1int } else { n / 8 };
        assert(m * y <= (n - d) * y) by (nonlinear_arith) requires m <= n - d, 0 <= y;
        assert((n - d) * y == n * y - d * y) by (nonlinear_arith);
        assert(13312 * d <= d * y) by (nonlinear_arith) requires 0 <= d, 13312 <= y;
        assert(n * y <= n * z + 2 * n) by (nonlinear_arith) requires 0 <= n, y <= z + 2;
    } else {
        assert(y + 2 <= z);
        assert(m * y + y <= n * y) by (nonlinear_arith) requires 0 <= m < n, 0 <= y;
        assert(n * y + 2 * n <= n * z) by (nonlinear_arith) requires 0 <= n, y + 2 <= z;
    }
}
}verus

fn partition::partition_at_index_loop
ensures[K] ok: g.ok && flat(g) ==> n1 <= n0 + linear(v.len as int)
inv 1[K] g.ok && flat(g) ==> is_less.n() + pb(v.len as int, limit as int, b01(was_balanced), b01(pred is Some)) <= n0 + linear(v_in.len as int)
inv 1[K] limit <= 16
at[K] loop 1 before: lemma_pb_start(v.len as int, b01(pred is Some))
at[K] loop 1 begin: let ghost (lm_b, wb_b, pr_b, n_b) = (limit as int, was_balanced, b01(pred is Some), is_less.n())
at[K] loop 1 begin: lemma_pb_end(v.len as int, limit as int, b01(was_balanced), b01(pred is Some))
at[K] let mid 1: lemma_pb_equal(v.len as int, v.len - mid, lm_b, wb_b)
at[K] let mid 2: let ghost wb_n = mid >= v.len / 8 && v.len - mid >= v.len / 8
at[K] let mid 2: lemma_pb_part(v.len as int, mid as int, lm_b, wb_b, wb_n, pr_b, pr_b); lemma_pb_part(v.len as int, v.len - mid - 1, lm_b, wb_b, wb_n, pr_b, 1)

fn partition::partition_at_index
ensures[K] ok: g.ok && flat(g) ==> n1 <= n0 + linear(v.len as int)
at[K] entry: reveal(linear)

fn ArrayBase::select_nth_unstable_by, ArrayBase::select_nth_unstable_by_key
ensures[K] ok: GL.ok && flat(GL) ==> n1 <= n0 + linear(self_.len as int)

verus{ K
/// The bound selection of m indices is held to.
#[verifier::opaque]
pub open spec fn many(n: int, m: int) -> int { 13382 * (n * bits(m)) }
pub proof fn lemma_many(n: int, m: int, l: int, r: int)
    requires m >= 1, 0 <= l, 0 <= r, l + r < n
    ensures linear(n) + many(l, m / 2) + many(r, m - m / 2 - 1) <= many(n, m), 0 <= many(r, m - m / 2 - 1)
{
    reveal(many); reveal(linear);
    let b = bits(m / 2);
    let c = bits(m - m / 2 - 1);
    lemma_bits_mono(m - m / 2 - 1, m / 2); lemma_bits_mono(0, m / 2); lemma_bits_mono(0, m - m / 2 - 1);
    assert(bits(m) == 1 + b);
    assert(l * b + r * c + n <= n * (1 + b) && 0 <= r * c) by (nonlinear_arith) requires 0 <= c <= b, 0 <= l, 0 <= r, l + r <= n;
}
pub proof fn lemma_many_none(n: int)
    ensures many(n, 0) == 0
{ reveal(many); assert(bits(0) == 0); assert(n * 0 == 0) by (nonlinear_arith); }
}verus

fn partition::partition_at_indices
ensures[K] ok: g.ok && flat(g) ==> n1 <= n0 + many(v.len as int, indices@.len() as int)
inv 1[K] g.ok && flat(g) ==> is_less.n() + many(v.len as int, indices@.len() as int) <= n0 + many(v_in.len as int, indices_in@.len() as int)
inv 1[K] many(v.len as int, 0) == 0
at[K] loop 1 before: lemma_many_none(v.len as int)
at[K] loop 1 begin: let ghost (v_b, m_b) = (v.len as int, indices@.len() as int)
at[K] let right 1: lemma_many(v_b, m_b, left.len as int, right.len as int)
at[K] loop 1 end: lemma_many_none(v.len as int)

fn ArrayBase::select_many_nth_unstable_by, ArrayBase::select_many_nth_unstable_by_key
ensures[K] ok: GL.ok && flat(GL) ==> n1 <= n0 + many(self_.len as int, indices@.len() as int)
