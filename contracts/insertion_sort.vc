# insertion_sort.rs and its parallel copy
fn insertion_sort::InsertionHole::new, par::insertion_sort::InsertionHole::new
ensures res.src == src, res.dest == dest

fn insertion_sort::InsertionHole::drop, partition::InsertionHole::drop, par::merge_sort::insert_head::InsertionHole::drop
requires self_.dest.addr < hp0.len()
ensures hp1 == hp0.update(self_.dest.addr as int, self_.src)
ensures hp0[self_.dest.addr as int] == self_.src ==> hp1 == hp0

fn insertion_sort::insert_tail, par::insertion_sort::insert_tail
requires v.len >= 2
conserve v
ensures[O] ok: g.ok && sorted(g, hp0, v.lo(), v.hi() - 1) && ranked(g, hp0, v.lo(), v.hi() - 1, v.hi()) ==> sorted(g, hp1, v.lo(), v.hi())
inv 1 v.lo() <= hole.dest.addr < v.hi() - 1, hole.dest.addr == v.base + j, hole.src == tmp, tmp == hp0[v.hi() - 1]
inv 1 frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@.update(hole.dest.addr as int, tmp))
inv 1[O] forall|k: int| #![trigger hp@[k]] v.lo() <= k <= hole.dest.addr ==> hp@[k] == hp0[k]
inv 1[O] forall|k: int| #![trigger hp@[k]] hole.dest.addr < k < v.hi() ==> hp@[k] == hp0[k - 1]
inv 1[O] g.ok ==> lt(g, tmp, hp0[hole.dest.addr as int])
lens 1[O] g.ok && v.lo() < hole.dest.addr ==> !lt(g, tmp, hp0[hole.dest.addr - 1])

fn insertion_sort::insert_head, par::insertion_sort::insert_head, par::merge_sort::insert_head
requires v.len >= 2
conserve v
ensures[O] ok: g.ok && sorted(g, hp0, v.lo() + 1, v.hi()) && headranked(g, hp0, v.lo(), v.hi()) ==> sorted(g, hp1, v.lo(), v.hi())
inv 1 v.lo() < hole.dest.addr < v.hi(), hole.dest.addr == v.base + i - 1, hole.src == tmp, tmp == hp0[v.lo()]
inv 1 frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@.update(hole.dest.addr as int, tmp))
inv 1[O] forall|k: int| #![trigger hp@[k]] hole.dest.addr <= k < v.hi() ==> hp@[k] == hp0[k]
inv 1[O] forall|k: int| #![trigger hp@[k]] v.lo() <= k < hole.dest.addr ==> hp@[k] == hp0[k + 1]
inv 1[O] g.ok ==> lt(g, hp0[hole.dest.addr as int], tmp)
lens 1[O] g.ok && hole.dest.addr + 1 < v.hi() ==> !lt(g, hp0[hole.dest.addr + 1], tmp)

fn insertion_sort::insertion_sort_shift_left, par::insertion_sort::insertion_sort_shift_left
requires 1 <= offset <= v.len
conserve v
ensures[O] ok: g.ok && sorted(g, hp0, v.lo(), v.base + offset) && ranked(g, hp0, v.lo(), v.base + offset, v.hi()) ==> sorted(g, hp1, v.lo(), v.hi())
inv 1[C13] frame(hp0, hp@, v.lo(), v.base + i)
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] g.ok && sorted(g, hp0, v.lo(), v.base + offset) && ranked(g, hp0, v.lo(), v.base + offset, v.hi()) ==> sorted(g, hp@, v.lo(), v.base + i) && ranked(g, hp@, v.lo(), v.base + i, v.hi())
at[O] after insert_tail 1: lemma_ranked_step(g, hp_b1, hp@, v.lo(), v.base + i, v.hi())
at loop 1 begin: let ghost hp_b1 = hp@

fn insertion_sort::insertion_sort_shift_right, par::insertion_sort::insertion_sort_shift_right
requires 1 <= offset < v.len
conserve v
ensures[O] ok: g.ok && flat(g) && sorted(g, hp0, v.base + offset, v.hi()) ==> sorted(g, hp1, v.lo(), v.hi())
inv 1[C13] frame(hp0, hp@, v.base + i, v.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] g.ok && flat(g) && sorted(g, hp0, v.base + offset, v.hi()) ==> sorted(g, hp@, v.base + i, v.hi())

fn insertion_sort::partial_insertion_sort, par::insertion_sort::partial_insertion_sort
requires v.len >= 1
conserve v
ensures[O] ok: g.ok && flat(g) && r ==> sorted(g, hp1, v.lo(), v.hi())
inv 1 1 <= i <= v.len, len == v.len
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] g.ok && flat(g) ==> sorted(g, hp@, v.lo(), v.base + i)
inv 2 1 <= i <= v.len
inv 2[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 2[C03,C04] perm(hp0, hp@)
inv 2[O] g.ok && flat(g) ==> sorted(g, hp@, v.lo(), v.base + i)
lens 2[O] i < len && g.ok ==> lt(g, hp@[v.base + i], hp@[v.base + i - 1])
dec 2 v.len - i

verus{ O
pub open spec fn headranked<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int) -> bool {
    forall|j: int| #![trigger s[j]] lo < j < hi ==> (g.rank)(s[lo]) <= (g.rank)(s[j])
}
pub proof fn lemma_ranked_step<T>(g: CmpG<T>, a: Seq<T>, b: Seq<T>, lo: int, i: int, hi: int)
    requires perm(a, b), frame(a, b, lo, i + 1), 0 <= lo <= i < hi <= a.len()
    ensures ranked(g, a, lo, i, hi) ==> ranked(g, b, lo, i + 1, hi)
{
    if !ranked(g, a, lo, i, hi) { return; }
    lemma_perm_range(a, b, lo, i + 1);
    assert forall|p: int, q: int| #![trigger b[p], b[q]] lo <= p < q < hi && i + 1 <= q implies (g.rank)(b[p]) <= (g.rank)(b[q]) by {
        assert(b[q] == a[q]);
        if p < i + 1 {
            let k = choose|k: int| lo <= k < i + 1 && #[trigger] a[k] == b[p];
            assert((g.rank)(a[k]) <= (g.rank)(a[q]));
        } else { assert(b[p] == a[p]); }
    }
}
}verus
