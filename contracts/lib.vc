# The public API (impl Slice1Ext for ArrayBase).

verus{
/// What binary_search_by may assume about an array partitioned by the probe.
pub open spec fn split<T>(f: spec_fn(T) -> Ord3, s: Seq<T>, lo: int, hi: int) -> bool {
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi && f(s[j]) is Less ==> f(s[i]) is Less
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi && f(s[i]) is Greater ==> f(s[j]) is Greater
}
}verus

fn ArrayBase::binary_search_by
ensures[C08] ok: match r { Ok(i) => i < self_.len, Err(i) => i <= self_.len }
ensures[C08] ok: g.ok && split(g.f, hp0, self_.lo(), self_.hi()) ==> match r {
    Ok(i) => (g.f)(hp0[self_.base + i]) is Equal,
    Err(i) => (forall|k: int| #![trigger hp0[k]] self_.lo() <= k < self_.base + i ==> (g.f)(hp0[k]) is Less) && (forall|k: int| #![trigger hp0[k]] self_.base + i <= k < self_.hi() ==> (g.f)(hp0[k]) is Greater) }
inv 1 left <= right <= self_.len
inv? 1 size == right - left
inv 1[C08] g.ok && split(g.f, hp@, self_.lo(), self_.hi()) ==> (forall|k: int| #![trigger hp@[k]] self_.lo() <= k < self_.base + left ==> (g.f)(hp@[k]) is Less) && (forall|k: int| #![trigger hp@[k]] self_.base + right <= k < self_.hi() ==> (g.f)(hp@[k]) is Greater)
dec 1 right - left

fn ArrayBase::partition_point
ensures[C08] ok: r <= self_.len
ensures[C08] ok: g.ok && (forall|i: int, j: int| #![trigger hp0[i], hp0[j]] self_.lo() <= i < j < self_.hi() && (g.f)(hp0[j]) ==> (g.f)(hp0[i])) ==> (forall|k: int| #![trigger hp0[k]] self_.lo() <= k < self_.hi() ==> ((g.f)(hp0[k]) <==> k < self_.base + r))

fn ArrayBase::binary_search
ensures[C08] ok: match r { Ok(i) => i < self_.len, Err(i) => i <= self_.len }
ensures[C08] ok: T::kg().ok && ordered(|p: T| (T::kg().key)(p), hp0, self_.lo(), self_.hi()) ==> match r {
    Ok(i) => (T::kg().key)(hp0[self_.base + i]) == (T::kg().key)(x),
    Err(i) => (forall|k: int| #![trigger hp0[k]] self_.lo() <= k < self_.base + i ==> (T::kg().key)(hp0[k]) < (T::kg().key)(x)) && (forall|k: int| #![trigger hp0[k]] self_.base + i <= k < self_.hi() ==> (T::kg().key)(hp0[k]) > (T::kg().key)(x)) }

fn ArrayBase::binary_search_by_key
ensures[C08] ok: match r { Ok(i) => i < self_.len, Err(i) => i <= self_.len }
ensures[C08] ok: g.ok && F::K::kg().ok && ordered(|p: T| (F::K::kg().key)((g.f)(p)), hp0, self_.lo(), self_.hi()) ==> match r {
    Ok(i) => (F::K::kg().key)((g.f)(hp0[self_.base + i])) == (F::K::kg().key)(b),
    Err(i) => (forall|k: int| #![trigger hp0[k]] self_.lo() <= k < self_.base + i ==> (F::K::kg().key)((g.f)(hp0[k])) < (F::K::kg().key)(b)) && (forall|k: int| #![trigger hp0[k]] self_.base + i <= k < self_.hi() ==> (F::K::kg().key)((g.f)(hp0[k])) > (F::K::kg().key)(b)) }

fn ArrayBase::contains
inv? 1 T::kg().rok ==> forall|k: int| #![trigger hp@[k]] self_.lo() <= k < self_.lo() + IT ==> !(T::kg().eq)(hp@[k], x)
ensures[C10] ok: T::kg().rok ==> (r <==> exists|i: int| #![trigger hp0[i]] self_.lo() <= i < self_.hi() && (T::kg().eq)(hp0[i], x))

verus{
pub open spec fn ordered<T>(f: spec_fn(T) -> int, s: Seq<T>, lo: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi ==> f(s[i]) <= f(s[j])
}
}verus

fn ArrayBase::sort_unstable, ArrayBase::sort_unstable_by, ArrayBase::sort_unstable_by_key, ArrayBase::par_sort_unstable, ArrayBase::par_sort_unstable_by, ArrayBase::par_sort_unstable_by_key
conserve self_
ensures[O] ok: GL.ok && flat(GL) ==> sorted(GL, hp1, self_.lo(), self_.hi())

fn ArrayBase::sort, ArrayBase::sort_by, ArrayBase::sort_by_key
conserve self_
ensures[C15] bp1 == bp0, rp1 == rp0
ensures[O] ok: GL.ok && ranked(GL, hp0, self_.lo(), self_.lo(), self_.hi()) ==> sorted(GL, hp1, self_.lo(), self_.hi())

fn ArrayBase::par_sort, ArrayBase::par_sort_by, ArrayBase::par_sort_by_key
conserve self_
ensures[C15] bp1 == bp0
ensures[O] ok: GL.ok && ranked(GL, hp0, self_.lo(), self_.lo(), self_.hi()) ==> sorted(GL, hp1, self_.lo(), self_.hi())

fn ArrayBase::select_nth_unstable, ArrayBase::select_nth_unstable_by, ArrayBase::select_nth_unstable_by_key
conserve self_
panics index >= self_.len
ensures[C07] ok: index < self_.len
ensures[C05] ok: r.0.base == self_.base && r.0.len == index && r.1.addr == self_.base + index && r.2.base == self_.base + index + 1 && r.2.len == self_.len - index - 1
ensures[O] ok: GL.ok && flat(GL) ==> selected(GL, hp1, self_.lo(), self_.base + index, self_.hi())

fn ArrayBase::select_many_nth_unstable, ArrayBase::select_many_nth_unstable_by, ArrayBase::select_many_nth_unstable_by_key
conserve self_
panics !(ascending(indices@) && inrange(indices@, 0, self_.len as int))
ensures[C07] ok: ascending(indices@) && inrange(indices@, 0, self_.len as int)
ensures[C06] ok: final(collection)@ == old(collection)@ + Seq::new(indices@.len(), |k: int| (indices@[k], MPtr { addr: (self_.base + indices@[k]) as usize }))
ensures[O] ok: GL.ok && flat(GL) ==> forall|k: int| #![trigger indices@[k]] 0 <= k < indices@.len() ==> selected(GL, hp1, self_.lo(), self_.base + indices@[k], self_.hi())
at[C06] after partition_at_indices 1: assert(collection@ =~= old(collection)@ + Seq::new(indices@.len(), |k: int| (indices@[k], MPtr { addr: (self_.base + indices@[k]) as usize })))

fn ArrayBase::is_sorted, ArrayBase::is_sorted_by, ArrayBase::is_sorted_by_key
ensures[C10] ok: GR.ok ==> (r <==> forall|i: int| #![trigger hp0[i]] self_.lo() < i < self_.hi() ==> (GR.rel)(hp0[i - 1], hp0[i]))

fn ArrayBase::reverse
conserve self_
ensures[C10] forall|k: int| #![trigger hp1[k]] self_.lo() <= k < self_.hi() ==> hp1[k] == hp0[self_.hi() - 1 - (k - self_.lo())]

fn ArrayBase::partition_dedup, ArrayBase::partition_dedup_by, ArrayBase::partition_dedup_by_key
conserve self_
ensures ok: r.0.base == self_.base && (r.1.len > 0 ==> r.1.base == self_.base + r.0.len) && r.0.len + r.1.len == self_.len
ensures[C09] ok: GB.ok ==> hp1.subrange(self_.lo(), self_.lo() + r.0.len) == dedup(GB.rel, hp0, self_.lo(), self_.len as int)

fn ArrayBase::partition_dedup_by
ensures[C09] ok: self_.len >= 1 ==> dedup_calls(hp0, self_.lo(), self_.len as int, calls_of(old(same_bucket).log(), final(same_bucket).log()))
ensures[C09] ok: final(same_bucket).log() == old(same_bucket).log() + calls_of(old(same_bucket).log(), final(same_bucket).log())
ensures[C09] ok: self_.len == 0 ==> final(same_bucket).log() == old(same_bucket).log()
ensures[C09] ok: r.0.len == kept(hp0, self_.lo(), calls_of(old(same_bucket).log(), final(same_bucket).log()), self_.len as int).len() && hp1.subrange(self_.lo(), self_.lo() + r.0.len) == kept(hp0, self_.lo(), calls_of(old(same_bucket).log(), final(same_bucket).log()), self_.len as int)

fn ArrayBase::par_select_many_nth_unstable, ArrayBase::par_select_many_nth_unstable_by, ArrayBase::par_select_many_nth_unstable_by_key
conserve self_
requires collection0.wf(sp0)
panics !(ascending(indices@) && inrange(indices@, 0, self_.len as int))
ensures[C12] ok: ascending(indices@) && inrange(indices@, 0, self_.len as int)
ensures[C12] collection1.wf(sp1) && collection1.len >= collection0.len && (forall|i: int| 0 <= i < collection0.len ==> #[trigger] sp1[i] == sp0[i])
ensures[C12] ok: collection1.len == collection0.len + indices@.len() && slots_of(sp1, collection0.len as int, indices@.len() as int, indices@, self_.base as int)
ensures[C12] err: collection1.len == collection0.len
ensures[O] ok: GL.ok && flat(GL) ==> forall|k: int| #![trigger indices@[k]] 0 <= k < indices@.len() ==> selected(GL, hp1, self_.lo(), self_.base + indices@[k], self_.hi())
