# parallel bulk selection
verus{
/// The slots from `base` on hold references to the elements at the given positions.
pub open spec fn slots_of(sp: Seq<Option<MPtr>>, base: int, n: int, idx: Seq<usize>, b: int) -> bool {
    forall|j: int| #![trigger sp[j]] base <= j < base + n ==> sp[j] == Some(MPtr { addr: (b + idx[j - base]) as usize })
}
/// The first n indices lie in the range.
pub open spec fn done(s: Seq<usize>, n: int, lo: int, hi: int) -> bool {
    forall|k: int| #![trigger s[k]] 0 <= k < n ==> lo <= s[k] < hi
}
pub open spec fn slots_frame(a: Seq<Option<MPtr>>, z: Seq<Option<MPtr>>, lo: int, hi: int) -> bool {
    a.len() == z.len() && forall|j: int| #![trigger z[j]] 0 <= j < a.len() && !(lo <= j < hi) ==> z[j] == a[j]
}
}verus
fn par::partition::par_partition_at_indices
conserve v
requires offset + v.len <= isize::MAX, values.base + values.len <= sp0.len(), sp0.len() <= isize::MAX
requires[C12] indices@.len() <= values.len
panics !(ascending(indices@) && inrange(indices@, offset as int, offset + v.len))
ensures[C12] slots_frame(sp0, sp1, values.base as int, values.base + indices@.len())
ensures[C12] ok: ascending(indices@) && inrange(indices@, offset as int, offset + v.len)
ensures[C12] ok: slots_of(sp1, values.base as int, indices@.len() as int, indices@, v.base - offset)
ensures[O] ok: g.ok && flat(g) ==> forall|k: int| #![trigger indices@[k]] 0 <= k < indices@.len() ==> selected(g, hp1, v.lo(), v.base + indices@[k] - offset, v.hi())
decreases indices@.len()
attr #[verifier::rlimit(60)]
iso 1
at loop 1 before: let ghost mut d: int = 0
inv 1 0 <= d <= indices_in@.len()
invx 1 indices@ == indices_in@.subrange(d, indices_in@.len() as int)
inv 1 offset_in + v_in.len <= isize::MAX, v_in.base + v_in.len <= isize::MAX, MAX_SEQUENTIAL == 2000
invx 1 v_in.lo() <= v.lo(), v.hi() == v_in.hi(), v.base + offset_in == v_in.base + offset, offset + v.len <= isize::MAX
inv 1 values_in.base + values_in.len <= sp0.len(), sp0.len() <= isize::MAX, indices_in@.len() <= values_in.len
invx 1 values.base == values_in.base + d, values.len == values_in.len - d
inv 1[C13] frame(hp0, hp@, v_in.lo(), v_in.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[C12] slots_frame(sp0, sp@, values_in.base as int, values_in.base + indices_in@.len())
inv 1[C12] slots_of(sp@, values_in.base as int, d, indices_in@, v_in.base - offset_in)
inv 1[C12] forall|i: int, j: int| #![trigger indices_in@[i], indices_in@[j]] 0 <= i < j < d ==> indices_in@[i] < indices_in@[j]
invx 1[C12] done(indices_in@, d, offset_in as int, offset as int)
inv 1[C12] done(indices_in@, d, offset_in as int, offset_in + v_in.len)
invx 1[O] g.ok && flat(g) ==> kbelow(g, hp@, v_in.lo(), v.lo(), v_in.hi())
inv 1[O] g.ok && flat(g) ==> forall|k: int| #![trigger indices_in@[k]] 0 <= k < d ==> selected(g, hp@, v_in.lo(), v_in.base + indices_in@[k] - offset_in, v_in.hi())
invx 1 offset == offset_in || (d > 0 && offset == indices_in@[d - 1] + 1)
lens 1 d == indices_in@.len()
dec 1 indices@.len()
at loop 1 begin: let ghost (hp_b, d_b, offset_b, sp_b) = (hp@, d, offset, sp@)
at let pivot 1: lemma_take_pivot(indices_in@, d, at as int, indices@, left_indices@, right_indices@, pivot)
at let pivot 1: lemma_left_range(indices_in@, d, at as int, indices@, left_indices@, offset_in as int, offset_in + v_in.len, offset as int, pivot)
at let right 1: assert(offset <= pivot < offset + v.len); assert(value.addr == v_in.base + pivot - offset_in)
at let right 1: let ghost hp_p = hp@
at let right_values 2: let ghost sp_p = sp@
at let right_values 2: assert(left_indices@.len() == at && indices_in@[d + at] == pivot)
at[O] let right 1: lemma_kbelow_perm2(g, hp_b, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi()); lemma_selected_widen(g, hp@, v_in.lo(), v_in.hi(), v.lo(), v.hi(), left.hi()); lemma_selected_kbelow(g, hp@, v_in.lo(), v_in.hi(), left.hi())
at[C12] after par_partition_at_indices 1: lemma_slots_left(sp_p, sp@, values_in.base as int, d, at as int, indices_in@, left_indices@, v_in.base - offset_in)
at[O] after par_partition_at_indices 1: lemma_many_left(g, hp_b, hp_p, hp@, v_in, v, left, indices_in@, left_indices@, d, at as int, offset_in as int, offset as int, pivot)
at[C12] after par_partition_at_indices 1: lemma_asc_left(indices_in@, left_indices@, d, at as int, offset_in as int, offset as int, pivot)
at assign indices 1: d = d + at + 1; assert(indices@ =~= indices_in@.subrange(d, indices_in@.len() as int))
at after par_partition_at_indices 2: let ghost (hp_l, sp_l, r_l) = (hp@, sp@, RET)
at[C12] after par_partition_at_indices 2: if RET is Ok { lemma_slots_left(sp_p, sp@, values_in.base as int, d, at as int, indices_in@, left_indices@, v_in.base - offset_in); lemma_asc_left(indices_in@, left_indices@, d, at as int, offset_in as int, offset as int, pivot) }
at[O] after par_partition_at_indices 2: if RET is Ok { lemma_many_left(g, hp_b, hp_p, hp@, v_in, v, left, indices_in@, left_indices@, d, at as int, offset_in as int, offset as int, pivot) }
at[C12] after par_partition_at_indices 3: if r_l is Ok && RET is Ok { lemma_slots_right(sp_l, sp@, values_in.base as int, d + at + 1, indices_in@, right_indices@, v_in.base - offset_in); lemma_asc_right(indices_in@, right_indices@, d + at + 1, offset_in as int, pivot + 1, offset_in + v_in.len); }
at[O] after par_partition_at_indices 3: if r_l is Ok && RET is Ok { lemma_many_right(g, hp_l, hp@, v_in, right, indices_in@, right_indices@, d + at + 1, offset_in as int, pivot + 1); }
at after par_partition_at_indices 3: d = indices_in@.len() as int

verus{
pub proof fn lemma_slots_left(sp: Seq<Option<MPtr>>, sq: Seq<Option<MPtr>>, base: int, d: int, at: int, idx: Seq<usize>, left: Seq<usize>, b: int)
    requires
        0 <= base, 0 <= d, 0 <= at, d + at < idx.len(), base + d + at < sp.len(), left == idx.subrange(d, d + at),
        slots_of(sp, base, d, idx, b), sp[base + d + at] == Some(MPtr { addr: (b + idx[d + at]) as usize }),
        slots_frame(sp, sq, base + d, base + d + at), slots_of(sq, base + d, at, left, b),
    ensures slots_of(sq, base, d + at + 1, idx, b)
{
    assert forall|j: int| #![trigger sq[j]] base <= j < base + d + at + 1 implies sq[j] == Some(MPtr { addr: (b + idx[j - base]) as usize }) by {
        if base + d <= j < base + d + at { assert(left[j - base - d] == idx[j - base]); } else { assert(sq[j] == sp[j]); }
    }
}
pub proof fn lemma_slots_right(sp: Seq<Option<MPtr>>, sq: Seq<Option<MPtr>>, base: int, d: int, idx: Seq<usize>, right: Seq<usize>, b: int)
    requires
        0 <= base, 0 <= d <= idx.len(), base + d <= sp.len(), right == idx.subrange(d, idx.len() as int),
        slots_of(sp, base, d, idx, b), slots_frame(sp, sq, base + d, base + idx.len()), slots_of(sq, base + d, right.len() as int, right, b),
    ensures slots_of(sq, base, idx.len() as int, idx, b)
{
    assert forall|j: int| #![trigger sq[j]] base <= j < base + idx.len() implies sq[j] == Some(MPtr { addr: (b + idx[j - base]) as usize }) by {
        if base + d <= j { assert(right[j - base - d] == idx[j - base]); } else { assert(sq[j] == sp[j]); }
    }
}
pub proof fn lemma_asc_left(idx: Seq<usize>, left: Seq<usize>, d: int, at: int, lo: int, offset: int, pivot: usize)
    requires
        0 <= d, 0 <= at, d + at < idx.len(), left == idx.subrange(d, d + at), idx[d + at] == pivot, lo <= offset <= pivot,
        ascending(left), inrange(left, offset, pivot as int),
        forall|i: int, j: int| #![trigger idx[i], idx[j]] 0 <= i < j < d ==> idx[i] < idx[j],
        done(idx, d, lo, offset),
    ensures
        forall|i: int, j: int| #![trigger idx[i], idx[j]] 0 <= i < j < d + at + 1 ==> idx[i] < idx[j],
        done(idx, d + at + 1, lo, pivot + 1),
{
    assert forall|i: int| #![trigger idx[i]] d <= i < d + at implies offset <= idx[i] < pivot by { assert(left[i - d] == idx[i]) }
    assert forall|i: int, j: int| #![trigger idx[i], idx[j]] 0 <= i < j < d + at + 1 implies idx[i] < idx[j] by {
        if d <= i && j < d + at { assert(left[i - d] < left[j - d]) }
    }
}
pub proof fn lemma_asc_right(idx: Seq<usize>, right: Seq<usize>, d: int, lo: int, offset: int, hi: int)
    requires
        0 <= d <= idx.len(), right == idx.subrange(d, idx.len() as int), lo <= offset <= hi,
        ascending(right), inrange(right, offset, hi),
        forall|i: int, j: int| #![trigger idx[i], idx[j]] 0 <= i < j < d ==> idx[i] < idx[j],
        done(idx, d, lo, offset),
    ensures ascending(idx), inrange(idx, lo, hi)
{
    assert forall|i: int| #![trigger idx[i]] d <= i < idx.len() implies offset <= idx[i] < hi by { assert(right[i - d] == idx[i]) }
    assert forall|i: int, j: int| #![trigger idx[i], idx[j]] 0 <= i < j < idx.len() implies idx[i] < idx[j] by {
        if d <= i { assert(right[i - d] < right[j - d]) }
    }
}
}verus
verus{ O
/// The first d picks and those to the left of the pivot, and the pivot, are at their final places.
pub proof fn lemma_many_left<T>(g: CmpG<T>, hb: Seq<T>, hp: Seq<T>, h: Seq<T>, vi: Vw, v: Vw, left: Vw, idx: Seq<usize>, lidx: Seq<usize>, d: int, at: int, oi: int, o: int, pivot: usize)
    requires
        0 <= d, 0 <= at, d + at < idx.len(), lidx == idx.subrange(d, d + at), idx[d + at] == pivot, 0 <= oi <= o <= pivot,
        v.lo() == vi.lo() + o - oi, v.hi() == vi.hi(), vi.hi() <= hb.len(), left.base == v.base, left.hi() == vi.base + pivot - oi, left.hi() < vi.hi(),
        perm(hb, hp), frame(hb, hp, v.lo(), v.hi()), perm(hp, h), frame(hp, h, left.lo(), left.hi()),
        done(idx, d, oi, o),
        inrange(lidx, o, pivot as int),
        g.ok && flat(g) ==> kbelow(g, hp, vi.lo(), v.lo(), vi.hi()) && kbelow(g, hp, vi.lo(), left.hi(), vi.hi()) && kbelow(g, hp, vi.lo(), left.hi() + 1, vi.hi()),
        g.ok && flat(g) ==> forall|k: int| #![trigger idx[k]] 0 <= k < d ==> selected(g, hb, vi.lo(), vi.base + idx[k] - oi, vi.hi()),
        g.ok && flat(g) ==> forall|k: int| #![trigger lidx[k]] 0 <= k < lidx.len() ==> selected(g, h, left.lo(), left.base + lidx[k] - o, left.hi()),
    ensures
        g.ok && flat(g) ==> kbelow(g, h, vi.lo(), left.hi() + 1, vi.hi()),
        g.ok && flat(g) ==> forall|k: int| #![trigger idx[k]] 0 <= k < d + at + 1 ==> selected(g, h, vi.lo(), vi.base + idx[k] - oi, vi.hi()),
{
    if g.ok && flat(g) {
        lemma_kbelow_perm2(g, hp, h, vi.lo(), vi.hi(), left.lo(), left.hi());
        lemma_kbelow_perm(g, hp, h, vi.lo(), left.hi() + 1, vi.hi(), left.lo(), left.hi());
        lemma_kbelow_selected(g, h, vi.lo(), left.hi(), vi.hi());
        assert forall|k: int| #![trigger idx[k]] 0 <= k < d + at + 1 implies selected(g, h, vi.lo(), vi.base + idx[k] - oi, vi.hi()) by {
            if k < d {
                lemma_selected_perm(g, hb, h, vi.lo(), vi.base + idx[k] - oi, vi.hi(), v.lo(), v.hi());
            } else if k < d + at {
                assert(lidx[k - d] == idx[k]);
                lemma_selected_widen(g, h, vi.lo(), vi.hi(), left.lo(), left.hi(), vi.base + idx[k] - oi);
            }
        }
    }
}
pub proof fn lemma_many_right<T>(g: CmpG<T>, hl: Seq<T>, h: Seq<T>, vi: Vw, right: Vw, idx: Seq<usize>, ridx: Seq<usize>, d: int, oi: int, o: int)
    requires
        0 <= d <= idx.len(), ridx == idx.subrange(d, idx.len() as int), 0 <= oi <= o,
        right.lo() == vi.lo() + o - oi, right.hi() == vi.hi(), vi.hi() <= hl.len(),
        perm(hl, h), frame(hl, h, right.lo(), right.hi()),
        done(idx, d, oi, o),
        inrange(ridx, o, oi + vi.len),
        g.ok && flat(g) ==> kbelow(g, hl, vi.lo(), right.lo(), vi.hi()),
        g.ok && flat(g) ==> forall|k: int| #![trigger idx[k]] 0 <= k < d ==> selected(g, hl, vi.lo(), vi.base + idx[k] - oi, vi.hi()),
        g.ok && flat(g) ==> forall|k: int| #![trigger ridx[k]] 0 <= k < ridx.len() ==> selected(g, h, right.lo(), right.base + ridx[k] - o, right.hi()),
    ensures
        g.ok && flat(g) ==> forall|k: int| #![trigger idx[k]] 0 <= k < idx.len() ==> selected(g, h, vi.lo(), vi.base + idx[k] - oi, vi.hi()),
{
    if g.ok && flat(g) {
        lemma_kbelow_perm2(g, hl, h, vi.lo(), vi.hi(), right.lo(), right.hi());
        assert forall|k: int| #![trigger idx[k]] 0 <= k < idx.len() implies selected(g, h, vi.lo(), vi.base + idx[k] - oi, vi.hi()) by {
            if k < d {
                lemma_selected_perm(g, hl, h, vi.lo(), vi.base + idx[k] - oi, vi.hi(), right.lo(), right.hi());
            } else {
                assert(ridx[k - d] == idx[k]);
                assert(kbelow(g, h, vi.lo(), vi.hi(), vi.hi()));
                lemma_selected_widen(g, h, vi.lo(), vi.hi(), right.lo(), right.hi(), vi.base + idx[k] - oi);
            }
        }
    }
}
}verus
