# partition_dedup.rs
verus{
/// What is kept of the n elements from lo, given the answers of the test for positions 1, 2, ..
pub open spec fn kept<T>(s: Seq<T>, lo: int, log: Seq<(T, T, bool)>, n: int) -> Seq<T>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if n == 1 { seq![s[lo]] }
    else if log[n - 2].2 { kept(s, lo, log, n - 1) }
    else { kept(s, lo, log, n - 1).push(s[lo + n - 1]) }
}
pub proof fn lemma_kept_log<T>(s: Seq<T>, lo: int, a: Seq<(T, T, bool)>, b: Seq<(T, T, bool)>, n: int)
    requires forall|i: int| 0 <= i < n - 1 ==> #[trigger] a[i] == b[i]
    ensures kept(s, lo, a, n) == kept(s, lo, b, n)
    decreases n
{ if n > 1 { lemma_kept_log(s, lo, a, b, n - 1); } }
/// What is kept when the test is the relation `rel`: each element not related to the last one kept.
pub open spec fn dedup<T>(rel: spec_fn(T, T) -> bool, s: Seq<T>, lo: int, n: int) -> Seq<T>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if n == 1 { seq![s[lo]] }
    else if rel(s[lo + n - 1], dedup(rel, s, lo, n - 1).last()) { dedup(rel, s, lo, n - 1) }
    else { dedup(rel, s, lo, n - 1).push(s[lo + n - 1]) }
}
}verus
fn partition_dedup::partition_dedup
conserve v
ensures[C09] ok: g.ok ==> hp1.subrange(v.lo(), v.lo() + r.0.len) == dedup(g.rel, hp0, v.lo(), v.len as int)
ensures ok: r.0.base == v.base && (r.1.len > 0 ==> r.1.base == v.base + r.0.len) && r.0.len + r.1.len == v.len
ensures[C09] ok: v.len >= 1 ==> dedup_calls(hp0, v.lo(), v.len as int, calls_of(old(same_bucket).log(), final(same_bucket).log()))
ensures[C09] ok: final(same_bucket).log() == old(same_bucket).log() + calls_of(old(same_bucket).log(), final(same_bucket).log())
ensures[C09] ok: v.len == 0 ==> final(same_bucket).log() == old(same_bucket).log()
ensures[C09] ok: r.0.len == kept(hp0, v.lo(), calls_of(old(same_bucket).log(), final(same_bucket).log()), v.len as int).len() && hp1.subrange(v.lo(), v.lo() + r.0.len) == kept(hp0, v.lo(), calls_of(old(same_bucket).log(), final(same_bucket).log()), v.len as int)
at entry: axiom_mem_len(*hp)
at entry: let ghost log0 = same_bucket.log()
at[C09] return 1: lemma_dedup_nil(hp0, v.lo()); assert(calls_of(log0, log0) =~= Seq::empty()); assert(log0 =~= log0 + calls_of(log0, log0)); assert(v.len == 1 ==> hp@.subrange(v.lo(), v.lo() + 1) =~= seq![hp@[v.lo()]]); assert(v.len == 0 ==> hp@.subrange(v.lo(), v.lo()) =~= Seq::empty())
inv 1 1 <= next_write <= next_read <= len, len == v.len, v == v_in, v.base + v.len <= hp@.len(), hp@.len() <= isize::MAX
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)
at[C09] loop 1 before: let ghost mut calls: Seq<(T, T, bool)> = Seq::empty()
at[C09] loop 1 before: lemma_dedup_nil(hp0, v.lo()); assert(log0 =~= log0 + calls); assert(hp@.subrange(v.lo(), v.lo() + 1) =~= seq![hp@[v.lo()]])
inv 1[C09] same_bucket.log() == log0 + calls
inv 1[C09] dedup_calls(hp0, v.lo(), next_read as int, calls)
inv 1[C09] next_write == kept(hp0, v.lo(), calls, next_read as int).len(), hp@.subrange(v.lo(), v.lo() + next_write) == kept(hp0, v.lo(), calls, next_read as int)
inv 1[C09] g.ok ==> hp@.subrange(v.lo(), v.lo() + next_write) == dedup(g.rel, hp0, v.lo(), next_read as int)
inv 1[C09] forall|k: int| #![trigger hp@[k]] v.base + next_read <= k < v.hi() ==> hp@[k] == hp0[k]
dec 1 len - next_read
iso 1
at[C09] loop 1 begin: let ghost (calls_b, hp_b, nw_b) = (calls, hp@, next_write)
at[C09] after is_less 1: calls = calls.push((hp@[v.base + read], hp@[v.base + prev_write], RET)); assert(hp@[v.base + prev_write] == hp@.subrange(v.lo(), v.lo() + next_write)[prev_write as int]); lemma_dedup_step(hp0, v.lo(), next_read as int, calls_b, (hp@[v.base + read], hp@[v.base + prev_write], RET)); assert(same_bucket.log() =~= log0 + calls)
at[C09] loop 1 end: assert(next_write > nw_b ==> hp@.subrange(v.lo(), v.lo() + next_write) =~= hp_b.subrange(v.lo(), v.lo() + nw_b).push(hp0[v.base + read])); assert(next_write == nw_b ==> hp@ == hp_b)
at[C09] loop 1 after: assert(same_bucket.log().subrange(log0.len() as int, same_bucket.log().len() as int) =~= calls)
verus{
pub open spec fn calls_of<T>(a: Seq<(T, T, bool)>, b: Seq<(T, T, bool)>) -> Seq<(T, T, bool)> {
    b.subrange(a.len() as int, b.len() as int)
}
/// Exactly one call per element after the first, in order, against the last element kept before it.
#[verifier::opaque]
pub open spec fn dedup_calls<T>(s: Seq<T>, lo: int, n: int, calls: Seq<(T, T, bool)>) -> bool {
    &&& calls.len() == n - 1
    &&& forall|k: int| #![trigger calls[k]] 0 <= k < n - 1 ==> calls[k].0 == s[lo + k + 1] && kept(s, lo, calls, k + 1).len() > 0 && calls[k].1 == kept(s, lo, calls, k + 1).last()
}
pub proof fn lemma_dedup_nil<T>(s: Seq<T>, lo: int)
    ensures dedup_calls(s, lo, 1, Seq::empty())
{ reveal(dedup_calls); }
pub proof fn lemma_dedup_step<T>(s: Seq<T>, lo: int, n: int, a: Seq<(T, T, bool)>, e: (T, T, bool))
    requires n >= 1, dedup_calls(s, lo, n, a), e.0 == s[lo + n], kept(s, lo, a, n).len() > 0, e.1 == kept(s, lo, a, n).last()
    ensures dedup_calls(s, lo, n + 1, a.push(e)), kept(s, lo, a.push(e), n + 1) == (if e.2 { kept(s, lo, a, n) } else { kept(s, lo, a, n).push(s[lo + n]) })
{
    reveal(dedup_calls);
    let b = a.push(e);
    assert forall|k: int| k <= n implies #[trigger] kept(s, lo, b, k) == kept(s, lo, a, k) by { lemma_kept_log(s, lo, a, b, k); }
    assert forall|k: int| #![trigger b[k]] 0 <= k < n implies b[k].0 == s[lo + k + 1] && kept(s, lo, b, k + 1).len() > 0 && b[k].1 == kept(s, lo, b, k + 1).last() by {
        assert(kept(s, lo, b, k + 1) == kept(s, lo, a, k + 1));
        if k < n - 1 { assert(b[k] == a[k]); }
    }
}
}verus
