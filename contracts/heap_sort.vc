fn heap_sort::heap_sort::sift_down, par::heap_sort::heap_sort::sift_down
requires node < v.len
conserve v
ensures[O] ok: g.ok && heap(g, hp0, v.lo(), v.len as int, node + 1) ==> heap(g, hp1, v.lo(), v.len as int, node as int)
inv 1 node < v.len
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] node_in <= node, node > node_in ==> (node - 1) / 2 >= node_in
inv 1[O] g.ok && heap(g, hp0, v.lo(), v.len as int, node_in + 1) ==> heap_hole(g, hp@, v.lo(), v.len as int, node_in as int, node as int)
dec 1 v.len - node
lens 1[O] g.ok && heap(g, hp0, v.lo(), v.len as int, node_in + 1) ==> heap(g, hp@, v.lo(), v.len as int, node_in as int)
at before swap 1: let ghost hp_s = hp@
at[O] after swap 1: lemma_sift_step(g, hp_s, hp@, v.lo(), v.len as int, node_in as int, node as int, child as int)
at[O] loop 1 break: lemma_sift_done(g, hp@, v.lo(), v.len as int, node_in as int, node as int)

fn heap_sort::heap_sort, par::heap_sort::heap_sort
conserve v
ensures[O] ok: g.ok && flat(g) ==> sorted(g, hp1, v.lo(), v.hi())
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] g.ok ==> heap(g, hp@, v.lo(), v.len as int, i as int)
inv 2[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 2[C03,C04] perm(hp0, hp@)
inv 2[O] g.ok && i > 0 ==> heap(g, hp@, v.lo(), i as int, 0)
inv 2[O] g.ok && flat(g) ==> sorted(g, hp@, v.base + i, v.hi()) && below(g, hp@, v.lo(), v.base + i, v.base + i, v.hi())
at[O] before swap 1: if g.ok { lemma_heap_top(g, hp@, v.lo(), i + 1); }
at[O] after swap 1: assert(g.ok ==> heap(g, hp@, v.lo(), i as int, 1)); assert(g.ok && flat(g) ==> sorted(g, hp@, v.base + i, v.hi())); assert(g.ok && flat(g) ==> below(g, hp@, v.lo(), v.base + i, v.base + i, v.hi()))
at after swap 1: let ghost hp_s = hp@
at[O] after sift_down 2: lemma_below_perm(g, hp_s, hp@, v.lo(), v.base + i, v.hi())

verus{ O
pub open spec fn heap<T>(g: CmpG<T>, s: Seq<T>, base: int, n: int, from: int) -> bool {
    forall|c: int| 1 <= c < n && (c - 1) / 2 >= from ==> !lt(g, s[base + (c - 1) / 2], #[trigger] s[base + c])
}
pub open spec fn heap_hole<T>(g: CmpG<T>, s: Seq<T>, base: int, n: int, from: int, node: int) -> bool {
    &&& forall|c: int| 1 <= c < n && (c - 1) / 2 >= from && (c - 1) / 2 != node ==> !lt(g, s[base + (c - 1) / 2], #[trigger] s[base + c])
    &&& node > from ==> forall|c: int| 1 <= c < n && (c - 1) / 2 == node ==> !lt(g, s[base + (node - 1) / 2], #[trigger] s[base + c])
}
pub open spec fn childmax<T>(g: CmpG<T>, s: Seq<T>, base: int, n: int, node: int, child: int) -> bool {
    &&& 0 <= node < child < n && (child - 1) / 2 == node
    &&& forall|c: int| 1 <= c < n && (c - 1) / 2 == node ==> !lt(g, s[base + child], #[trigger] s[base + c])
}
pub proof fn lemma_sift_step<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, base: int, n: int, from: int, node: int, child: int)
    requires
        b == a.update(base + node, a[base + child]).update(base + child, a[base + node]),
        0 <= base, base + n <= a.len(), 0 <= node < child < n, (child - 1) / 2 == node, from <= node,
        node > from ==> (node - 1) / 2 >= from,
        g.ok && heap_hole(g, a, base, n, from, node) ==> childmax(g, a, base, n, node, child) && lt(g, a[base + node], a[base + child]),
    ensures
        g.ok && heap_hole(g, a, base, n, from, node) ==> heap_hole(g, b, base, n, from, child)
{
    if !(g.ok && heap_hole(g, a, base, n, from, node)) { return; }
    assert forall|c: int| 1 <= c < n && (c - 1) / 2 >= from && (c - 1) / 2 != child implies !lt(g, b[base + (c - 1) / 2], #[trigger] b[base + c]) by {
        let p = (c - 1) / 2;
        if p == node {
            assert(!lt(g, a[base + child], a[base + c]));
            if c == child { } else { assert(b[base + c] == a[base + c]); }
        } else if c == node {
            assert(!lt(g, a[base + (node - 1) / 2], a[base + child]));
            assert(b[base + p] == a[base + p]);
        } else {
            assert(!lt(g, a[base + p], a[base + c]));
        }
    }
    assert forall|c: int| 1 <= c < n && (c - 1) / 2 == child implies !lt(g, b[base + (child - 1) / 2], #[trigger] b[base + c]) by {
        assert(!lt(g, a[base + (c - 1) / 2], a[base + c]));
    }
}
pub proof fn lemma_sift_done<T>(g: CmpG<T>, a: Seq<T>, base: int, n: int, from: int, node: int)
    requires
        from <= node,
        g.ok && heap_hole(g, a, base, n, from, node) ==> forall|c: int| 1 <= c < n && (c - 1) / 2 == node ==> !lt(g, a[base + node], #[trigger] a[base + c]),
    ensures
        g.ok && heap_hole(g, a, base, n, from, node) ==> heap(g, a, base, n, from)
{ }
pub proof fn lemma_heap_top_at<T>(g: CmpG<T>, s: Seq<T>, base: int, n: int, c: int)
    requires heap(g, s, base, n, 0), 0 <= c < n
    ensures !lt(g, s[base], s[base + c])
    decreases c
{
    if c > 0 {
        lemma_heap_top_at(g, s, base, n, (c - 1) / 2);
        assert(!lt(g, s[base + (c - 1) / 2], s[base + c]));
    }
}
pub proof fn lemma_heap_top<T>(g: CmpG<T>, s: Seq<T>, base: int, n: int)
    requires heap(g, s, base, n, 0)
    ensures forall|j: int| #![trigger s[j]] base <= j < base + n ==> !lt(g, s[base], s[j])
{
    assert forall|j: int| #![trigger s[j]] base <= j < base + n implies !lt(g, s[base], s[j]) by {
        lemma_heap_top_at(g, s, base, n, j - base);
        assert(base + (j - base) == j);
    }
}
pub proof fn lemma_below_perm<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, lo: int, m: int, hi: int)
    requires perm(a, b), frame(a, b, lo, m), 0 <= lo <= m <= hi <= a.len()
    ensures below(g, a, lo, m, m, hi) ==> below(g, b, lo, m, m, hi),
        sorted(g, a, m, hi) ==> sorted(g, b, m, hi)
{
    lemma_perm_range(a, b, lo, m);
    if below(g, a, lo, m, m, hi) {
        assert forall|i: int, j: int| #![trigger b[i], b[j]] lo <= i < m && m <= j < hi implies le(g, b[i], b[j]) by {
            let k = choose|k: int| lo <= k < m && #[trigger] a[k] == b[i];
            assert(b[j] == a[j]);
            assert(le(g, a[k], a[j]));
        }
    }
    if sorted(g, a, m, hi) {
        assert forall|i: int, j: int| #![trigger b[i], b[j]] m <= i < j < hi implies le(g, b[i], b[j]) by {
            assert(b[i] == a[i] && b[j] == a[j]);
            assert(le(g, a[i], a[j]));
        }
    }
}
}verus
