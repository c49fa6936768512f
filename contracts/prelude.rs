// ---- trusted memory and comparator model (see DESIGN.md, "Trusted base") ----------------------
pub struct Unwind;

#[derive(Clone, Copy)]
pub enum Ord3 { Less, Equal, Greater }

pub fn ord_eq(a: Ord3, b: Ord3) -> (r: bool)
    ensures r == (a == b)
{ match (a, b) { (Ord3::Less, Ord3::Less) => true, (Ord3::Equal, Ord3::Equal) => true, (Ord3::Greater, Ord3::Greater) => true, _ => false } }

/// What a comparator is, seen by the proofs: `ok` says it answers like the strict weak order of
/// `key`; `rank` is an arbitrary ghost label used to state stability; `nopanic` says it returns.
#[verifier::reject_recursive_types(T)]
pub struct CmpG<T> { pub ok: bool, pub key: spec_fn(T) -> int, pub rank: spec_fn(T) -> int, pub nopanic: bool }

pub trait Less<T>: Sized {
    spec fn g(&self) -> CmpG<T>;
    spec fn n(&self) -> nat; //K number of calls so far
    #[verifier::prophetic] spec fn pn(&self) -> nat; //K what the comparator borrowed inside will have counted when the borrow ends
    fn call(&mut self, a: T, b: T) -> (r: Result<bool, Unwind>)
        ensures
            final(self).n() <= old(self).n() + 1, final(self).pn() == old(self).pn(), //K
            final(self).g() == old(self).g(),
            r is Err ==> !old(self).g().nopanic,
            r is Ok && old(self).g().ok ==> (r->Ok_0 <==> (old(self).g().key)(a) < (old(self).g().key)(b));
}

/// A relation handed to is_sorted: `ok` says it answers like the pure relation `rel`.
#[verifier::reject_recursive_types(T)]
pub struct RelG<T> { pub ok: bool, pub rel: spec_fn(T, T) -> bool, pub nopanic: bool }
pub trait Rel<T>: Sized {
    spec fn g(&self) -> RelG<T>;
    fn call(&mut self, a: T, b: T) -> (r: Result<bool, Unwind>)
        ensures
            final(self).g() == old(self).g(),
            r is Err ==> !old(self).g().nopanic,
            r is Ok && old(self).g().ok ==> (r->Ok_0 <==> (old(self).g().rel)(a, b));
}
/// The same-bucket test of partition_dedup, with the history of its calls and answers; `ok` says it
/// answers like the pure relation `rel`.
#[verifier::reject_recursive_types(T)]
pub struct BucketG<T> { pub ok: bool, pub rel: spec_fn(T, T) -> bool, pub nopanic: bool }
pub trait Bucket<T>: Sized {
    spec fn g(&self) -> BucketG<T>;
    spec fn log(&self) -> Seq<(T, T, bool)>;
    fn call(&mut self, a: T, b: T) -> (r: Result<bool, Unwind>)
        ensures
            final(self).g() == old(self).g(),
            r is Err ==> !old(self).g().nopanic,
            r is Ok && old(self).g().ok ==> (r->Ok_0 <==> (old(self).g().rel)(a, b)),
            r is Ok ==> final(self).log() == old(self).log().push((a, b, r->Ok_0));
}

// ---- what callers hand to the API: orders, keys, probes ----------------------------------------
/// The Ord / PartialOrd / PartialEq implementation of an element or key type: `ok` says it is a
/// total order by `key`; `rok` that == and <= are the pure relations `eq` and `le`. `rank` is an
/// arbitrary ghost label.
#[verifier::reject_recursive_types(K)]
pub struct KG<K> { pub ok: bool, pub key: spec_fn(K) -> int, pub rank: spec_fn(K) -> int, pub rok: bool, pub eq: spec_fn(K, K) -> bool, pub le: spec_fn(K, K) -> bool, pub nopanic: bool }
pub trait KOrd: Sized + Copy {
    spec fn kg() -> KG<Self>;
    fn k_cmp(a: Self, b: Self) -> (r: Result<Ord3, Unwind>)
        ensures
            r is Err ==> !Self::kg().nopanic,
            r is Ok && Self::kg().ok ==> r->Ok_0 == ord_of((Self::kg().key)(a), (Self::kg().key)(b));
    fn k_lt(a: Self, b: Self) -> (r: Result<bool, Unwind>)
        ensures
            r is Err ==> !Self::kg().nopanic,
            r is Ok && Self::kg().ok ==> (r->Ok_0 <==> (Self::kg().key)(a) < (Self::kg().key)(b));
    fn k_gt(a: Self, b: Self) -> (r: Result<bool, Unwind>)
        ensures
            r is Err ==> !Self::kg().nopanic,
            r is Ok && Self::kg().ok ==> (r->Ok_0 <==> (Self::kg().key)(a) > (Self::kg().key)(b));
    fn k_le(a: Self, b: Self) -> (r: Result<bool, Unwind>)
        ensures
            r is Err ==> !Self::kg().nopanic,
            r is Ok && Self::kg().ok ==> (r->Ok_0 <==> (Self::kg().key)(a) <= (Self::kg().key)(b)),
            r is Ok && Self::kg().rok ==> (r->Ok_0 <==> (Self::kg().le)(a, b));
    fn k_ge(a: Self, b: Self) -> (r: Result<bool, Unwind>)
        ensures
            r is Err ==> !Self::kg().nopanic,
            r is Ok && Self::kg().ok ==> (r->Ok_0 <==> (Self::kg().key)(a) >= (Self::kg().key)(b));
    fn k_eq(a: Self, b: Self) -> (r: Result<bool, Unwind>)
        ensures
            r is Err ==> !Self::kg().nopanic,
            r is Ok && Self::kg().rok ==> (r->Ok_0 <==> (Self::kg().eq)(a, b));
    fn k_ne(a: Self, b: Self) -> (r: Result<bool, Unwind>)
        ensures
            r is Err ==> !Self::kg().nopanic,
            r is Ok && Self::kg().rok ==> (r->Ok_0 <==> !(Self::kg().eq)(a, b));
}
pub open spec fn ord_of(a: int, b: int) -> Ord3 { if a < b { Ord3::Less } else if a == b { Ord3::Equal } else { Ord3::Greater } }

/// A three-way comparison handed to the _by functions.
pub trait Cmp3<T>: Sized {
    spec fn g(&self) -> CmpG<T>;
    spec fn n(&self) -> nat; //K number of calls so far
    #[verifier::prophetic] spec fn pn(&self) -> nat; //K what the comparator borrowed inside will have counted when the borrow ends
    fn call(&mut self, a: T, b: T) -> (r: Result<Ord3, Unwind>)
        ensures
            final(self).n() <= old(self).n() + 1, final(self).pn() == old(self).pn(), //K
            final(self).g() == old(self).g(),
            r is Err ==> !old(self).g().nopanic,
            r is Ok && old(self).g().ok ==> r->Ok_0 == ord_of((old(self).g().key)(a), (old(self).g().key)(b));
}
/// A key function, with the history of the elements it was called on.
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(K)]
pub struct KeyG<T, K> { pub ok: bool, pub f: spec_fn(T) -> K, pub rank: spec_fn(T) -> int, pub nopanic: bool }
pub trait KeyFn<T>: Sized {
    type K: KOrd;
    spec fn g(&self) -> KeyG<T, Self::K>;
    spec fn log(&self) -> Seq<T>;
    fn call(&mut self, a: T) -> (r: Result<Self::K, Unwind>)
        ensures
            final(self).g() == old(self).g(),
            final(self).log() == old(self).log().push(a),
            r is Err ==> !old(self).g().nopanic,
            r is Ok && old(self).g().ok ==> r->Ok_0 == (old(self).g().f)(a);
}
#[verifier::reject_recursive_types(T)]
pub struct PredG<T> { pub ok: bool, pub f: spec_fn(T) -> bool, pub nopanic: bool }
pub trait Pred<T>: Sized {
    spec fn g(&self) -> PredG<T>;
    spec fn n(&self) -> nat; //K
    #[verifier::prophetic] spec fn pn(&self) -> nat; //K
    fn call(&mut self, a: T) -> (r: Result<bool, Unwind>)
        ensures
            final(self).n() <= old(self).n() + 1, final(self).pn() == old(self).pn(), //K
            final(self).g() == old(self).g(),
            r is Err ==> !old(self).g().nopanic,
            r is Ok && old(self).g().ok ==> (r->Ok_0 <==> (old(self).g().f)(a));
}
/// The probe of a binary search.
#[verifier::reject_recursive_types(T)]
pub struct ProbeG<T> { pub ok: bool, pub f: spec_fn(T) -> Ord3, pub nopanic: bool }
pub trait Probe<T>: Sized {
    spec fn g(&self) -> ProbeG<T>;
    spec fn n(&self) -> nat; //K
    #[verifier::prophetic] spec fn pn(&self) -> nat; //K
    fn call(&mut self, a: T) -> (r: Result<Ord3, Unwind>)
        ensures
            final(self).n() <= old(self).n() + 1, final(self).pn() == old(self).pn(), //K
            final(self).g() == old(self).g(),
            r is Err ==> !old(self).g().nopanic,
            r is Ok && old(self).g().ok ==> r->Ok_0 == (old(self).g().f)(a);
}
/// `A::lt` as a comparator
pub struct OrdLt { } //-K
pub struct OrdLt { pub c: Ghost<nat> } //K
impl OrdLt {
    pub fn new() -> (r: OrdLt) { OrdLt { } } //-K
    pub fn new() -> (r: OrdLt) ensures r.c@ == 0 { OrdLt { c: Ghost(0) } } //K
}
impl<T: KOrd> Less<T> for OrdLt {
    open spec fn g(&self) -> CmpG<T> { ord_less::<T>() }
    open spec fn n(&self) -> nat { self.c@ } //K
    #[verifier::prophetic] open spec fn pn(&self) -> nat { 0 } //K
    fn call(&mut self, a: T, b: T) -> (r: Result<bool, Unwind>) {
        proof { self.c@ = self.c@ + 1; } //K
        KOrd::k_lt(a, b)
    }
}
/// Comparisons made through a key function: every one calls it twice.
pub open spec fn kcalls<T>(l: Seq<T>) -> nat { ((l.len() + 1) / 2) as nat } //K
// what the comparisons derived from the above mean
pub open spec fn ord_less<T: KOrd>() -> CmpG<T> { CmpG { ok: T::kg().ok, key: T::kg().key, rank: T::kg().rank, nopanic: T::kg().nopanic } }
pub open spec fn ord_rel<T: KOrd>() -> RelG<T> { RelG { ok: T::kg().rok, rel: T::kg().le, nopanic: T::kg().nopanic } }
pub open spec fn ord_bucket<T: KOrd>() -> BucketG<T> { BucketG { ok: T::kg().rok, rel: T::kg().eq, nopanic: T::kg().nopanic } }
pub open spec fn ord_probe<T: KOrd>(x: T) -> ProbeG<T> { ProbeG { ok: T::kg().ok, f: |p: T| ord_of((T::kg().key)(p), (T::kg().key)(x)), nopanic: T::kg().nopanic } }
pub open spec fn ord_pred<T: KOrd>(x: T) -> PredG<T> { PredG { ok: T::kg().rok, f: |a: T| (T::kg().eq)(a, x), nopanic: T::kg().nopanic } }
pub open spec fn key_less<T, K: KOrd>(f: KeyG<T, K>) -> CmpG<T> { CmpG { ok: f.ok && K::kg().ok, key: |a: T| (K::kg().key)((f.f)(a)), rank: f.rank, nopanic: f.nopanic && K::kg().nopanic } }
pub open spec fn key_rel<T, K: KOrd>(f: KeyG<T, K>) -> RelG<T> { RelG { ok: f.ok && K::kg().rok, rel: |a: T, b: T| (K::kg().le)((f.f)(a), (f.f)(b)), nopanic: f.nopanic && K::kg().nopanic } }
pub open spec fn key_bucket<T, K: KOrd>(f: KeyG<T, K>) -> BucketG<T> { BucketG { ok: f.ok && K::kg().rok, rel: |a: T, b: T| (K::kg().eq)((f.f)(a), (f.f)(b)), nopanic: f.nopanic && K::kg().nopanic } }
pub open spec fn key_probe<T, K: KOrd>(f: KeyG<T, K>, b: K) -> ProbeG<T> { ProbeG { ok: f.ok && K::kg().ok, f: |a: T| ord_of((K::kg().key)((f.f)(a)), (K::kg().key)(b)), nopanic: f.nopanic && K::kg().nopanic } }
pub open spec fn pred_probe<T>(p: PredG<T>) -> ProbeG<T> { ProbeG { ok: p.ok, f: |a: T| if (p.f)(a) { Ord3::Less } else { Ord3::Greater }, nopanic: p.nopanic } }

pub open spec fn key<T>(g: CmpG<T>, x: T) -> int { (g.key)(x) }
pub open spec fn rank<T>(g: CmpG<T>, x: T) -> int { (g.rank)(x) }
pub open spec fn flat<T>(g: CmpG<T>) -> bool { forall|x: T| #[trigger] (g.rank)(x) == 0 }
pub open spec fn lt<T>(g: CmpG<T>, a: T, b: T) -> bool { (g.key)(a) < (g.key)(b) }
pub open spec fn le<T>(g: CmpG<T>, a: T, b: T) -> bool {
    (g.key)(a) < (g.key)(b) || ((g.key)(a) == (g.key)(b) && (g.rank)(a) <= (g.rank)(b))
}
pub open spec fn sorted<T>(g: CmpG<T>, s: Seq<T>, lo: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi ==> le(g, s[i], s[j])
}
/// Elements from position `from` on carry ranks at least those of everything before them.
pub open spec fn ranked<T>(g: CmpG<T>, s: Seq<T>, lo: int, from: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi && from <= j ==> (g.rank)(s[i]) <= (g.rank)(s[j])
}
/// Everything in [alo,ahi) is key-below-or-equal everything in [blo,bhi).
pub open spec fn below<T>(g: CmpG<T>, s: Seq<T>, alo: int, ahi: int, blo: int, bhi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] alo <= i < ahi && blo <= j < bhi ==> le(g, s[i], s[j])
}

// ---- multisets -------------------------------------------------------------------------------
pub open spec fn perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && ms(a) == ms(b) }
pub closed spec fn ms<T>(a: Seq<T>) -> Multiset<T> { a.to_multiset() }
pub open spec fn frame<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger b[i]] 0 <= i < a.len() && !(lo <= i < hi) ==> a[i] == b[i]
}

pub proof fn lemma_ms_update<T>(s: Seq<T>, i: int, x: T)
    requires 0 <= i < s.len()
    ensures ms(s.update(i, x)) == ms(s).insert(x).remove(s[i]),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let a = s.subrange(0, i);
    let b = s.subrange(i + 1, s.len() as int);
    assert(s =~= a + seq![s[i]] + b);
    assert(s.update(i, x) =~= a + seq![x] + b);
    vstd::seq_lib::lemma_multiset_commutative(a + seq![s[i]], b);
    vstd::seq_lib::lemma_multiset_commutative(a, seq![s[i]]);
    vstd::seq_lib::lemma_multiset_commutative(a + seq![x], b);
    vstd::seq_lib::lemma_multiset_commutative(a, seq![x]);
    assert(seq![x] =~= Seq::<T>::empty().push(x));
    assert(seq![s[i]] =~= Seq::<T>::empty().push(s[i]));
    assert(ms(s.update(i, x)) =~= ms(s).insert(x).remove(s[i]));
}
/// Moving the hole from d to j (the value x that belongs in the hole travels along).
pub proof fn lemma_hole_move<T>(s: Seq<T>, d: int, j: int, x: T)
    requires 0 <= d < s.len(), 0 <= j < s.len(), d != j
    ensures perm(s.update(d, x), s.update(d, s[j]).update(j, x))
{
    lemma_ms_update(s, d, x);
    lemma_ms_update(s, d, s[j]);
    lemma_ms_update(s.update(d, s[j]), j, x);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(ms(s).count(s[j]) > 0 && ms(s).count(s[d]) > 0);
    assert(ms(s.update(d, x)) =~= ms(s.update(d, s[j]).update(j, x)));
}
pub proof fn lemma_swap_perm<T>(s: Seq<T>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s.len()
    ensures perm(s, s.update(i, s[j]).update(j, s[i]))
{
    if i == j {
        assert(s.update(i, s[j]).update(j, s[i]) =~= s);
    } else {
        lemma_hole_move(s, i, j, s[i]);
        assert(s.update(i, s[i]) =~= s);
    }
}
/// After a permutation that leaves everything outside [lo,hi) alone, what is in [lo,hi) was there.
pub proof fn lemma_perm_range<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int)
    requires perm(a, b), frame(a, b, lo, hi), 0 <= lo <= hi <= a.len()
    ensures
        forall|i: int| #![trigger b[i]] lo <= i < hi ==> exists|j: int| lo <= j < hi && #[trigger] a[j] == b[i],
        ms(a.subrange(lo, hi)) == ms(b.subrange(lo, hi)),
{
    let (al, am, ar) = (a.subrange(0, lo), a.subrange(lo, hi), a.subrange(hi, a.len() as int));
    let (bl, bm, br) = (b.subrange(0, lo), b.subrange(lo, hi), b.subrange(hi, b.len() as int));
    assert(al =~= bl);
    assert(ar =~= br);
    assert(a =~= al + am + ar);
    assert(b =~= bl + bm + br);
    vstd::seq_lib::lemma_multiset_commutative(al + am, ar);
    vstd::seq_lib::lemma_multiset_commutative(al, am);
    vstd::seq_lib::lemma_multiset_commutative(bl + bm, br);
    vstd::seq_lib::lemma_multiset_commutative(bl, bm);
    assert(am.to_multiset() =~= bm.to_multiset()) by {
        assert forall|x: T| am.to_multiset().count(x) == bm.to_multiset().count(x) by {
            assert(a.to_multiset().count(x) == al.to_multiset().count(x) + am.to_multiset().count(x) + ar.to_multiset().count(x));
            assert(b.to_multiset().count(x) == bl.to_multiset().count(x) + bm.to_multiset().count(x) + br.to_multiset().count(x));
        }
    }
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| #![trigger b[i]] lo <= i < hi implies exists|j: int| lo <= j < hi && #[trigger] a[j] == b[i] by {
        let x = bm[i - lo];
        assert(bm.to_multiset().count(x) > 0);
        assert(am.contains(x));
        let j = choose|j: int| 0 <= j < am.len() && am[j] == x;
        assert(a[j + lo] == b[i]);
    }
}

// ---- the array -------------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct MPtr { pub addr: usize }

impl MPtr {
    /// Pointer arithmetic on an element of a view depends on the memory layout; only 0 is allowed.
    pub fn step(self, n: usize) -> (r: MPtr)
        requires n == 0
        ensures r == self
    { self }
}

/// The underlying element storage the views of one call look at (logical index order).
pub struct Mem<T> { pub v: Vec<T>, pub es: usize }

impl<T> View for Mem<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { self.v@ }
}

pub uninterp spec fn esize<T>() -> usize;
/// A zero-sized type has a single value.
pub axiom fn axiom_zst<T>(a: T, b: T)
    ensures esize::<T>() == 0 ==> a == b;
/// ndarray: the number of elements of an array never exceeds isize::MAX.
pub axiom fn axiom_mem_len<T>(m: Mem<T>)
    ensures m@.len() <= isize::MAX;

impl<T: Copy> Mem<T> {
    #[verifier::external_body]
    pub fn esize(&self) -> (r: usize)
        ensures r == esize::<T>()
    { core::mem::size_of::<T>() }

    pub fn get(&self, p: MPtr) -> (r: T)
        requires p.addr < self@.len()
        ensures r == self@[p.addr as int], self@.update(p.addr as int, r) == self@
    {
        proof { assert(self@.update(p.addr as int, self@[p.addr as int]) =~= self@); }
        self.v[p.addr]
    }
    pub fn put(&mut self, x: T, d: MPtr)
        requires d.addr < old(self)@.len()
        ensures
            final(self)@ == old(self)@.update(d.addr as int, x),
            old(self)@[d.addr as int] == x ==> final(self)@ == old(self)@,
    {
        let ghost o = self@;
        self.v.set(d.addr, x);
        proof { if o[d.addr as int] == x { assert(self@ =~= o); } }
    }
    /// copy_nonoverlapping(s, d, 1) inside the array
    pub fn copy1(&mut self, s: MPtr, d: MPtr)
        requires
            s.addr < old(self)@.len(),
            d.addr < old(self)@.len(),
            s.addr != d.addr,
        ensures
            final(self)@ == old(self)@.update(d.addr as int, old(self)@[s.addr as int]),
            forall|x: T| #![trigger final(self)@.update(s.addr as int, x)] perm(old(self)@.update(d.addr as int, x), final(self)@.update(s.addr as int, x)),
    {
        let x = self.v[s.addr];
        let ghost o = self@;
        self.v.set(d.addr, x);
        proof {
            assert forall|x: T| #![trigger self@.update(s.addr as int, x)] perm(o.update(d.addr as int, x), self@.update(s.addr as int, x)) by {
                lemma_hole_move(o, d.addr as int, s.addr as int, x);
            }
        }
    }
    /// copy_nonoverlapping(s, d, n) inside the array: only layout independent for one element
    pub fn copy_n(&mut self, s: MPtr, d: MPtr, n: usize)
        requires n == 1, s.addr < old(self)@.len(), d.addr < old(self)@.len(), s.addr != d.addr
        ensures final(self)@ == old(self)@.update(d.addr as int, old(self)@[s.addr as int]),
            forall|x: T| #![trigger final(self)@.update(s.addr as int, x)] perm(old(self)@.update(d.addr as int, x), final(self)@.update(s.addr as int, x)),
    { self.copy1(s, d) }
    /// ptr::copy(s, d, 1)
    pub fn copy_any(&mut self, s: MPtr, d: MPtr, n: usize)
        requires n == 1, s.addr < old(self)@.len(), d.addr < old(self)@.len()
        ensures final(self)@ == old(self)@.update(d.addr as int, old(self)@[s.addr as int]),
            forall|x: T| #![trigger final(self)@.update(s.addr as int, x)] s.addr != d.addr ==> perm(old(self)@.update(d.addr as int, x), final(self)@.update(s.addr as int, x)),
    {
        if s.addr != d.addr { self.copy1(s, d) } else {
            proof { assert(self@.update(d.addr as int, self@[s.addr as int]) =~= self@); }
        }
    }
    /// `*d = x` for an owned x: never used on elements by this crate
    #[verifier::external_body]
    pub fn assign(&mut self, d: MPtr, x: T)
        requires false
    { }
    /// mem::swap / ptr::swap of two elements; `excl` for the safe one, whose references must be disjoint
    pub fn swap_ptr(&mut self, a: MPtr, b: MPtr, excl: bool)
        requires
            a.addr < old(self)@.len(),
            b.addr < old(self)@.len(),
            excl ==> a.addr != b.addr,
        ensures
            final(self)@ == old(self)@.update(a.addr as int, old(self)@[b.addr as int]).update(b.addr as int, old(self)@[a.addr as int]),
            perm(old(self)@, final(self)@),
    {
        proof { lemma_swap_perm(self@, a.addr as int, b.addr as int); }
        let x = self.v[a.addr];
        let y = self.v[b.addr];
        self.v.set(a.addr, y);
        self.v.set(b.addr, x);
    }
    /// ArrayBase::swap: panics unless both indices are in bounds
    pub fn swap(&mut self, v: Vw, i: usize, j: usize)
        requires
            i < v.len, // [C14]
            j < v.len, // [C14]
            v.base + v.len <= old(self)@.len(),
        ensures
            final(self)@ == old(self)@.update(v.base + i, old(self)@[v.base + j]).update(v.base + j, old(self)@[v.base + i]),
            perm(old(self)@, final(self)@),
    {
        proof { axiom_mem_len(*self); }
        self.swap_ptr(MPtr { addr: v.base + i }, MPtr { addr: v.base + j }, false)
    }
    /// IndexLonger::uswap / ArrayBase::uswap: unchecked
    pub fn uswap(&mut self, v: Vw, i: usize, j: usize)
        requires
            i < v.len, // [C15]
            j < v.len, // [C15]
            v.base + v.len <= old(self)@.len(),
        ensures
            final(self)@ == old(self)@.update(v.base + i, old(self)@[v.base + j]).update(v.base + j, old(self)@[v.base + i]),
            perm(old(self)@, final(self)@),
    {
        proof { axiom_mem_len(*self); }
        self.swap_ptr(MPtr { addr: v.base + i }, MPtr { addr: v.base + j }, false)
    }
}

/// A view: `len` consecutive logical positions from `base`.
#[derive(Clone, Copy)]
pub struct Vw { pub base: usize, pub len: usize }

impl Vw {
    pub open spec fn lo(self) -> int { self.base as int }
    pub open spec fn hi(self) -> int { self.base + self.len }
    #[verifier::when_used_as_spec(slen)]
    pub fn len(self) -> (r: usize)
        ensures r == self.len
    { self.len }
    pub open spec fn slen(self) -> usize { self.len }
    /// unchecked element access
    pub fn uget(self, i: usize) -> (r: MPtr)
        requires
            i < self.len, // [C15]
            self.base + self.len <= usize::MAX,
        ensures r.addr == self.base + i
    { MPtr { addr: self.base + i } }
    /// checked element access: panics out of bounds
    pub fn idx(self, i: usize) -> (r: MPtr)
        requires
            i < self.len, // [C14]
            self.base + self.len <= usize::MAX,
        ensures r.addr == self.base + i
    { MPtr { addr: self.base + i } }
    pub fn slice(self, a: usize, b: usize) -> (r: Vw)
        requires
            a <= b <= self.len, // [C14]
            self.base + self.len <= usize::MAX,
        ensures r.base == self.base + a, r.len == b - a
    { Vw { base: self.base + a, len: b - a } }
    pub fn split_at(self, k: usize) -> (r: (Vw, Vw))
        requires
            k <= self.len, // [C14]
            self.base + self.len <= usize::MAX,
        ensures r.0.base == self.base, r.0.len == k, r.1.base == self.base + k, r.1.len == self.len - k
    { (Vw { base: self.base, len: k }, Vw { base: self.base + k, len: self.len - k }) }
}

/// std's Iterator::any / all over a view's elements, in order, stopping at the first answer.
pub fn iter_any<T: Copy, P: Pred<T>>(hp: &Mem<T>, v: Vw, p: &mut P) -> (res: Result<bool, Unwind>)
    requires v.base + v.len <= hp@.len()
    ensures
        old(p).g().nopanic ==> res is Ok,
        res is Ok && old(p).g().ok ==> (res->Ok_0 <==> exists|i: int| #![trigger hp@[i]] v.base <= i < v.base + v.len && (old(p).g().f)(hp@[i])),
{
    proof { axiom_mem_len(*hp); }
    let ghost g = p.g();
    let mut i: usize = 0;
    while i < v.len
        invariant
            p.g() == g, i <= v.len, v.base + v.len <= hp@.len(), hp@.len() <= isize::MAX, g == old(p).g(),
            g.ok ==> forall|k: int| #![trigger hp@[k]] v.base <= k < v.base + i ==> !(g.f)(hp@[k]),
        decreases v.len - i
    {
        match p.call(hp.get(v.idx(i))) {
            Ok(true) => { return Ok(true); }
            Ok(false) => { }
            Err(e) => { return Err(e); }
        }
        i = i + 1;
    }
    Ok(false)
}
pub fn iter_all<T: Copy, P: Pred<T>>(hp: &Mem<T>, v: Vw, p: &mut P) -> (res: Result<bool, Unwind>)
    requires v.base + v.len <= hp@.len()
    ensures
        old(p).g().nopanic ==> res is Ok,
        res is Ok && old(p).g().ok ==> (res->Ok_0 <==> forall|i: int| #![trigger hp@[i]] v.base <= i < v.base + v.len ==> (old(p).g().f)(hp@[i])),
{
    proof { axiom_mem_len(*hp); }
    let ghost g = p.g();
    let mut i: usize = 0;
    while i < v.len
        invariant
            p.g() == g, i <= v.len, v.base + v.len <= hp@.len(), hp@.len() <= isize::MAX, g == old(p).g(),
            g.ok ==> forall|k: int| #![trigger hp@[k]] v.base <= k < v.base + i ==> (g.f)(hp@[k]),
        decreases v.len - i
    {
        match p.call(hp.get(v.idx(i))) {
            Ok(true) => { }
            Ok(false) => { return Ok(false); }
            Err(e) => { return Err(e); }
        }
        i = i + 1;
    }
    Ok(true)
}

/// Immutable view of the requested indices.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct IVw { p: core::marker::PhantomData<usize> }
impl IVw {
    pub uninterp spec fn view(self) -> Seq<usize>;
    #[verifier::external_body]
    #[verifier::when_used_as_spec(slen)]
    pub fn len(self) -> (r: usize)
        ensures r == self@.len(), r == self.slen()
    { unimplemented!() }
    pub open spec fn slen(self) -> usize { self@.len() as usize }
    #[verifier::external_body]
    pub fn idx(self, i: usize) -> (r: usize)
        requires
            i < self@.len(), // [C14]
        ensures r == self@[i as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_at(self, k: usize) -> (r: (IVw, IVw))
        requires
            k <= self@.len(), // [C14]
        ensures r.0@ == self@.subrange(0, k as int), r.1@ == self@.subrange(k as int, self@.len() as int)
    { unimplemented!() }
}
/// The caller's collection: `extend` with one pair appends it, or panics.
pub trait Coll: Sized {
    spec fn view(&self) -> Seq<(usize, MPtr)>;
    spec fn nopanic(&self) -> bool;
    fn extend1(&mut self, i: usize, p: MPtr) -> (r: Result<(), Unwind>)
        ensures
            final(self).nopanic() == old(self).nopanic(),
            r is Ok ==> final(self)@ == old(self)@.push((i, p)),
            r is Err ==> !old(self).nopanic();
}

// ---- small things ----------------------------------------------------------------------------
/// assert!/debug_assert!/assert_eq!: must hold
pub fn check_assert(c: bool)
    requires c // [C14]
{ }
/// two exclusive references must not alias
/// the views two joined tasks work on must not overlap
pub fn check_views(a: Vw, b: Vw)
    requires a.base + a.len <= b.base || b.base + b.len <= a.base // [C15]
{ }
pub fn check_slots(a: SVw, b: SVw)
    requires a.base + a.len <= b.base || b.base + b.len <= a.base // [C15]
{ }
pub fn check_disjoint(a: MPtr, b: MPtr)
    requires a.addr != b.addr // [C15]
{ }
/// dropping a bitwise copy of an element that is still in the array: a double drop
#[verifier::external_body]
pub fn drop_element<T>(x: T)
    requires false // [C04]
{ }
#[verifier::external_body]
pub fn copy_layout_dependent(n: usize)
    requires false // [C13]
{ }
pub fn swap_usize(a: &mut usize, b: &mut usize)
    ensures *final(a) == *old(b), *final(b) == *old(a)
{ let t = *a; *a = *b; *b = t; }
pub fn min_usize(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b }
{ if a <= b { a } else { b } }
pub fn max_usize(a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { a } else { b }
{ if a >= b { a } else { b } }
/// `a - b` where going below zero is how index misuse shows: debug builds panic, release builds wrap.
#[verifier::external_body]
pub fn usize_sub_panics(a: usize, b: usize) -> (r: Result<usize, Unwind>)
    ensures
        a >= b ==> r == Ok::<usize, Unwind>((a - b) as usize),
        a < b && r is Ok ==> r->Ok_0 as int == a - b + usize::MAX + 1,
{ Ok(a.wrapping_sub(b)) }
#[verifier::external_body]
pub fn usize_next_power_of_two(a: usize) -> (r: usize)
    requires
        a <= usize::MAX / 2 + 1, // [C14]
    ensures r >= a, r >= 1, a >= 1 ==> r < 2 * a
{ a.next_power_of_two() }
#[verifier::external_body]
pub fn usize_saturating_mul(a: usize, b: usize) -> (r: usize)
    ensures r as int == if a * b > usize::MAX { usize::MAX as int } else { a * b }
{ a.saturating_mul(b) }
pub fn usize_saturating_sub(a: usize, b: usize) -> (r: usize)
    ensures r as int == if a >= b { a - b } else { 0 }
{ if a >= b { a - b } else { 0 } }
pub fn usize_saturating_add(a: usize, b: usize) -> (r: usize)
    ensures r as int == if a + b > usize::MAX { usize::MAX as int } else { a + b }
{ if a <= usize::MAX - b { a + b } else { usize::MAX } }
#[verifier::external_body]
pub fn usize_wrapping_add(a: usize, b: usize) -> (r: usize)
    ensures r as int == if a + b > usize::MAX { a + b - usize::MAX - 1 } else { a + b }
{ a.wrapping_add(b) }
#[verifier::external_body]
pub fn usize_wrapping_sub(a: usize, b: usize) -> (r: usize)
    ensures r as int == if a >= b { a - b } else { a - b + usize::MAX + 1 }
{ a.wrapping_sub(b) }
#[verifier::external_body]
pub fn usize_wrapping_mul(a: usize, b: usize) -> (r: usize)
    ensures r as int == (a * b) % (usize::MAX + 1)
{ a.wrapping_mul(b) }
pub fn usize_abs_diff(a: usize, b: usize) -> (r: usize)
    ensures r as int == if a >= b { a - b } else { b - a }
{ if a >= b { a - b } else { b - a } }
pub fn usize_checked_sub(a: usize, b: usize) -> (r: Option<usize>)
    ensures r == if a >= b { Some((a - b) as usize) } else { None }
{ if a >= b { Some(a - b) } else { None } }
pub fn usize_checked_add(a: usize, b: usize) -> (r: Option<usize>)
    ensures r == if a + b <= usize::MAX { Some((a + b) as usize) } else { None }
{ if a <= usize::MAX - b { Some(a + b) } else { None } }
#[verifier::external_body]
pub fn usize_checked_mul(a: usize, b: usize) -> (r: Option<usize>)
    ensures r == if a * b <= usize::MAX { Some((a * b) as usize) } else { None }
{ a.checked_mul(b) }
/// `ilog2` panics on zero
#[verifier::external_body]
pub fn usize_ilog2(a: usize) -> (r: u32)
    requires
        a > 0, // [C14]
    ensures r < 64, pow2(r as nat) <= a < 2 * pow2(r as nat)
{ a.ilog2() }
/// `div_ceil` panics on a zero divisor
#[verifier::external_body]
pub fn usize_div_ceil(a: usize, b: usize) -> (r: usize)
    requires
        b > 0, // [C14]
    ensures r as int == if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 }
{ a.div_ceil(b) }
#[verifier::external_body]
pub fn usize_is_power_of_two(a: usize) -> (r: bool)
    ensures a == 0 ==> !r, a == 1 || a == 2 || a == 4 || a == 8 ==> r
{ a.is_power_of_two() }
/// `clamp` panics when the bounds are the wrong way round
#[verifier::external_body]
pub fn usize_clamp(a: usize, lo: usize, hi: usize) -> (r: usize)
    requires
        lo <= hi, // [C14]
    ensures r == if a < lo { lo } else if a > hi { hi } else { a }
{ a.clamp(lo, hi) }
#[verifier::external_body]
pub fn usize_leading_zeros(a: usize) -> (r: u32)
    ensures r <= 64, a > 0 ==> r < 64, a > 0 ==> pow2((63 - r) as nat) <= a < 2 * pow2((63 - r) as nat), a == 0 ==> r == 64
{ a.leading_zeros() }
pub open spec fn pow2(n: nat) -> int
    decreases n
{ if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
pub fn cmp_usize(a: usize, b: usize) -> (r: Ord3)
    ensures r == (if a < b { Ord3::Less } else if a == b { Ord3::Equal } else { Ord3::Greater })
{ if a < b { Ord3::Less } else if a == b { Ord3::Equal } else { Ord3::Greater } }

// ---- heap and local buffers --------------------------------------------------------------------
/// A pointer into an allocation of `cap` cells, at cell `off` (`off == cap` is one past the end).
#[derive(Clone, Copy)]
pub struct HPtr { pub blk: usize, pub off: usize, pub cap: usize }

/// Base address of an allocation (only differences of addresses of one allocation are meaningful).
pub uninterp spec fn hbase(blk: usize) -> int;

impl HPtr {
    pub open spec fn nul() -> HPtr { HPtr { blk: 0, off: 0, cap: 0 } }
    pub fn null() -> (r: HPtr)
        ensures r == HPtr::nul()
    { HPtr { blk: 0, off: 0, cap: 0 } }
    pub fn add(self, n: usize) -> (r: HPtr)
        requires
            self.off + n <= self.cap, // [C15]
        ensures r.blk == self.blk, r.off == self.off + n, r.cap == self.cap
    { HPtr { blk: self.blk, off: self.off + n, cap: self.cap } }
    pub fn sub(self, n: usize) -> (r: HPtr)
        requires
            n <= self.off, // [C15]
        ensures r.blk == self.blk, r.off == self.off - n, r.cap == self.cap
    { HPtr { blk: self.blk, off: self.off - n, cap: self.cap } }
    /// `p as usize` of a byte pointer
    #[verifier::external_body]
    pub fn addr(self) -> (r: usize)
        ensures r as int == hbase(self.blk) + self.off
    { self.off }
}
/// Comparing pointers of different allocations has no meaning the code may rely on.
pub fn hptr_eq(a: HPtr, b: HPtr) -> (r: bool)
    requires
        a.blk == b.blk, // [C15]
    ensures r == (a.off == b.off)
{ a.off == b.off }
pub fn hptr_lt(a: HPtr, b: HPtr) -> (r: bool)
    requires
        a.blk == b.blk, // [C15]
    ensures r == (a.off < b.off)
{ a.off < b.off }

/// Allocations by id; a cell is None until written. An id is never reused.
pub struct Heap<E> { pub m: Ghost<Map<usize, Seq<Option<E>>>> }

impl<E> View for Heap<E> {
    type V = Map<usize, Seq<Option<E>>>;
    open spec fn view(&self) -> Map<usize, Seq<Option<E>>> { self.m@ }
}
pub open spec fn hok<E>(h: Map<usize, Seq<Option<E>>>, p: HPtr) -> bool {
    h.contains_key(p.blk) && h[p.blk].len() == p.cap && p.off <= p.cap
}
impl<E: Copy> Heap<E> {
    #[verifier::external_body]
    pub fn new() -> (r: Heap<E>)
        ensures r@ == Map::<usize, Seq<Option<E>>>::empty()
    { Heap { m: Ghost::assume_new() } }
    #[verifier::external_body]
    pub fn alloc(&mut self, n: usize) -> (r: HPtr)
        ensures
            !old(self)@.contains_key(r.blk),
            r.off == 0, r.cap == n,
            final(self)@ == old(self)@.insert(r.blk, Seq::new(n as nat, |i: int| None)),
    { unimplemented!() }
    /// pointer to cell i of a local array
    pub fn cell(&self, p: HPtr, i: usize) -> (r: HPtr)
        requires
            p.off + i < p.cap, // [C14]
        ensures r.blk == p.blk, r.off == p.off + i, r.cap == p.cap
    { HPtr { blk: p.blk, off: p.off + i, cap: p.cap } }
    #[verifier::external_body]
    pub fn read(&self, p: HPtr) -> (r: E)
        requires
            self@.contains_key(p.blk), // [C15]
            p.off < self@[p.blk].len(), // [C15]
            self@[p.blk][p.off as int] is Some, // [C15]
        ensures r == self@[p.blk][p.off as int]->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, p: HPtr, x: E)
        requires
            old(self)@.contains_key(p.blk), // [C15]
            p.off < old(self)@[p.blk].len(), // [C15]
        ensures final(self)@ == old(self)@.insert(p.blk, old(self)@[p.blk].update(p.off as int, Some(x)))
    { unimplemented!() }
}

/// ndarray: the elements of an array occupy at most isize::MAX bytes.
pub axiom fn axiom_mem_bytes<T>(m: Mem<T>)
    ensures m@.len() * esize::<T>() <= isize::MAX;

impl<E: Copy> Heap<E> {
    /// alloc(Layout::array::<E>(n)): the size must be positive and at most isize::MAX bytes
    #[verifier::external_body]
    pub fn alloc_raw(&mut self, n: usize) -> (r: HPtr)
        requires
            n * esize::<E>() > 0, // [C15]
            n * esize::<E>() <= isize::MAX, // [C15]
        ensures
            !old(self)@.contains_key(r.blk),
            r.off == 0, r.cap == n,
            final(self)@ == old(self)@.insert(r.blk, Seq::new(n as nat, |i: int| None)),
    { unimplemented!() }
    /// dealloc with the size the block was allocated with; the block is gone afterwards
    #[verifier::external_body]
    pub fn dealloc(&mut self, p: HPtr, n: usize)
        requires
            old(self)@.contains_key(p.blk), // [C15]
            p.off == 0 && p.cap == n && old(self)@[p.blk].len() == n, // [C15]
        ensures final(self)@ == old(self)@.remove(p.blk)
    { unimplemented!() }
    /// copy_nonoverlapping inside this memory
    #[verifier::external_body]
    pub fn copy_nonoverlapping(&mut self, s: HPtr, d: HPtr, n: usize)
        requires
            hok(old(self)@, s) && s.off + n <= s.cap, // [C15]
            hok(old(self)@, d) && d.off + n <= d.cap, // [C15]
            s.blk != d.blk || s.off + n <= d.off || d.off + n <= s.off, // [C15]
        ensures final(self)@ == hcopy(old(self)@, s, d, n)
    { unimplemented!() }
    /// ptr::copy inside this memory
    #[verifier::external_body]
    pub fn copy(&mut self, s: HPtr, d: HPtr, n: usize)
        requires
            hok(old(self)@, s) && s.off + n <= s.cap, // [C15]
            hok(old(self)@, d) && d.off + n <= d.cap, // [C15]
        ensures final(self)@ == hcopy(old(self)@, s, d, n)
    { unimplemented!() }
    /// a shared slice of n initialised cells
    pub fn slice(&self, p: HPtr, n: usize) -> (r: HSlice)
        requires
            hok(self@, p) && p.off + n <= p.cap, // [C15]
            forall|i: int| 0 <= i < n ==> (#[trigger] self@[p.blk][p.off + i]) is Some, // [C15]
        ensures r.p == p, r.n == n
    { HSlice { p, n } }
}
pub open spec fn hcopy<E>(h: Map<usize, Seq<Option<E>>>, s: HPtr, d: HPtr, n: usize) -> Map<usize, Seq<Option<E>>> {
    h.insert(d.blk, Seq::new(h[d.blk].len(), |i: int| if d.off <= i < d.off + n { h[s.blk][s.off + i - d.off] } else { h[d.blk][i] }))
}
/// `&[E]` over heap cells
#[derive(Clone, Copy)]
pub struct HSlice { pub p: HPtr, pub n: usize }
impl HSlice {
    pub open spec fn slen(self) -> usize { self.n }
    #[verifier::when_used_as_spec(slen)]
    pub fn len(self) -> (r: usize)
        ensures r == self.n
    { self.n }
    pub fn idx(self, i: usize) -> (r: HPtr)
        requires
            i < self.n, // [C14]
            self.p.off + self.n <= self.p.cap,
        ensures r.blk == self.p.blk, r.off == self.p.off + i, r.cap == self.p.cap
    { HPtr { blk: self.p.blk, off: self.p.off + i, cap: self.p.cap } }
}
/// An element pointer that may point into the array or into scratch memory.
#[derive(Clone, Copy)]
pub enum EPtr { M(MPtr), H(HPtr) }
pub open spec fn hread_ok<E>(h: Map<usize, Seq<Option<E>>>, p: HPtr) -> bool {
    h.contains_key(p.blk) && p.off < h[p.blk].len() && h[p.blk][p.off as int] is Some
}
pub open spec fn e_ok<T>(m: Seq<T>, h: Map<usize, Seq<Option<T>>>, p: EPtr) -> bool {
    match p { EPtr::M(p) => p.addr < m.len(), EPtr::H(p) => hread_ok(h, p) }
}
pub open spec fn e_val<T>(m: Seq<T>, h: Map<usize, Seq<Option<T>>>, p: EPtr) -> T {
    match p { EPtr::M(p) => m[p.addr as int], EPtr::H(p) => h[p.blk][p.off as int]->Some_0 }
}
pub fn get_e<T: Copy>(hp: &Mem<T>, bp: &Heap<T>, p: EPtr) -> (r: T)
    requires
        e_ok(hp@, bp@, p), // [C15]
    ensures r == e_val(hp@, bp@, p)
{ match p { EPtr::M(p) => hp.get(p), EPtr::H(p) => bp.read(p) } }
/// copy_nonoverlapping(s, d, 1) into the array
pub fn copy_e<T: Copy>(hp: &mut Mem<T>, bp: &Heap<T>, s: EPtr, d: MPtr)
    requires
        e_ok(old(hp)@, bp@, s), // [C15]
        d.addr < old(hp)@.len(), // [C15]
        s is M ==> s->M_0.addr != d.addr, // [C15]
    ensures final(hp)@ == old(hp)@.update(d.addr as int, e_val(old(hp)@, bp@, s))
{ let x = get_e(&*hp, bp, s); hp.put(x, d); }

// ---- result slots: the storage of a Vec<&mut T> -------------------------------------------------
/// Each slot holds a reference to an element, or nothing yet.
pub struct Slots { pub m: Ghost<Seq<Option<MPtr>>> }
impl View for Slots {
    type V = Seq<Option<MPtr>>;
    open spec fn view(&self) -> Seq<Option<MPtr>> { self.m@ }
}
impl Slots {
    #[verifier::external_body]
    pub fn write(&mut self, p: SPtr, x: MPtr)
        requires
            p.at < old(self)@.len(), // [C15]
        ensures final(self)@ == old(self)@.update(p.at as int, Some(x))
    { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct SPtr { pub at: usize }
/// `&mut [MaybeUninit<&mut T>]`
#[derive(Clone, Copy)]
pub struct SVw { pub base: usize, pub len: usize }
impl SVw {
    #[verifier::when_used_as_spec(slen)]
    pub fn len(self) -> (r: usize)
        ensures r == self.len
    { self.len }
    pub open spec fn slen(self) -> usize { self.len }
    pub fn idx(self, i: usize) -> (r: SPtr)
        requires
            i < self.len, // [C14, C12]
            self.base + self.len <= usize::MAX,
        ensures r.at == self.base + i
    { SPtr { at: self.base + i } }
    pub fn slice(self, a: usize, b: usize) -> (r: SVw)
        requires
            a <= b <= self.len, // [C14, C12]
            self.base + self.len <= usize::MAX,
        ensures r.base == self.base + a, r.len == b - a
    { SVw { base: self.base + a, len: b - a } }
    pub fn split_at(self, k: usize) -> (r: (SVw, SVw))
        requires
            k <= self.len, // [C14, C12]
            self.base + self.len <= usize::MAX,
        ensures r.0.base == self.base, r.0.len == k, r.1.base == self.base + k, r.1.len == self.len - k
    { (SVw { base: self.base, len: k }, SVw { base: self.base + k, len: self.len - k }) }
}
/// Vec<&mut T> whose storage is the slots: the first `len` of them are its elements.
pub struct RVec { pub len: usize }
impl RVec {
    pub open spec fn wf(self, sp: Seq<Option<MPtr>>) -> bool {
        self.len <= sp.len() <= isize::MAX && forall|i: int| 0 <= i < self.len ==> (#[trigger] sp[i]) is Some
    }
    #[verifier::when_used_as_spec(slen)]
    pub fn len(&self) -> (r: usize)
        ensures r == self.len
    { self.len }
    pub open spec fn slen(&self) -> usize { self.len }
    /// grows the storage (running out of memory is outside the model)
    #[verifier::external_body]
    pub fn reserve(&mut self, sp: &mut Slots, n: usize)
        ensures
            final(self).len == old(self).len,
            final(sp)@.len() >= old(self).len + n, final(sp)@.len() <= isize::MAX,
            forall|i: int| 0 <= i < old(self).len ==> #[trigger] final(sp)@[i] == old(sp)@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn spare(&self, sp: &Slots) -> (r: SVw)
        requires self.len <= sp@.len() <= isize::MAX
        ensures r.base == self.len, r.len == sp@.len() - self.len
    { unimplemented!() }
    /// unsafe: the elements up to n must be initialised
    pub fn set_len(&mut self, sp: &Slots, n: usize)
        requires
            n <= sp@.len(), // [C12]
            forall|i: int| 0 <= i < n ==> (#[trigger] sp@[i]) is Some, // [C12]
        ensures final(self).len == n
    { self.len = n; }
}

// ---- the (key, index) vector of the cached-key sorts --------------------------------------------
pub trait Idx: Sized + Copy { spec fn v(self) -> int; }
impl Idx for u8 { open spec fn v(self) -> int { self as int } }
impl Idx for u16 { open spec fn v(self) -> int { self as int } }
impl Idx for u32 { open spec fn v(self) -> int { self as int } }
impl Idx for u64 { open spec fn v(self) -> int { self as int } }
impl Idx for usize { open spec fn v(self) -> int { self as int } }
/// z holds the items of a, z[i] being a[q[i]].
pub open spec fn arranged<X>(a: Seq<X>, z: Seq<X>, q: Seq<int>) -> bool {
    &&& a.len() == z.len() && q.len() == a.len()
    &&& forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> 0 <= q[i] < a.len() && z[i] == a[q[i]]
    &&& forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() ==> q[i] != q[j]
}
/// Vec<(K, I)>; the storage of a Vec is a trusted part of std, running out of memory outside the model
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(I)]
pub struct PVec<K, I> { pub m: Ghost<Seq<(K, I)>> }
impl<K: KOrd, I: Idx> View for PVec<K, I> {
    type V = Seq<(K, I)>;
    open spec fn view(&self) -> Seq<(K, I)> { self.m@ }
}
impl<K: KOrd, I: Idx> PVec<K, I> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<(K, I)>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: (K, I))
        ensures final(self)@ == old(self)@.push(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get0(&self, i: usize) -> (r: K)
        requires
            i < self@.len(), // [C14]
        ensures r == self@[i as int].0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get1(&self, i: usize) -> (r: I)
        requires
            i < self@.len(), // [C14]
        ensures r == self@[i as int].1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set1(&mut self, i: usize, x: I)
        requires
            i < old(self)@.len(), // [C14]
        ensures final(self)@ == old(self)@.update(i as int, (old(self)@[i as int].0, x))
    { unimplemented!() }
    /// what a parallel iterator collects: the same items in any order
    #[verifier::external_body]
    pub fn shuffle(&mut self)
        ensures exists|q: Seq<int>| arranged(old(self)@, final(self)@, q)
    { unimplemented!() }
    /// std's and rayon's sorts: the same items, in lexicographic order if that is a total order; for
    /// any other order they may panic
    #[verifier::external_body]
    pub fn sort(&mut self) -> (r: Result<(), Unwind>)
        ensures
            exists|q: Seq<int>| arranged(old(self)@, final(self)@, q),
            r is Err ==> !(K::kg().nopanic && K::kg().ok),
            r is Ok && K::kg().ok ==> forall|i: int, j: int| #![trigger final(self)@[i], final(self)@[j]] 0 <= i < j < final(self)@.len() ==>
                (K::kg().key)(final(self)@[i].0) < (K::kg().key)(final(self)@[j].0) || ((K::kg().key)(final(self)@[i].0) == (K::kg().key)(final(self)@[j].0) && final(self)@[i].1.v() <= final(self)@[j].1.v()),
    { unimplemented!() }
}
/// the size of a type that contains a key
#[verifier::external_body]
pub fn size_of_any() -> usize { unimplemented!() }

// ---- scratch memory that lives in a Vec, and views made of it ------------------------------------
impl<E: Copy> Heap<E> {
    /// Vec::with_capacity: panics if the size exceeds isize::MAX bytes. The Vec stays empty, only its
    /// storage is used
    #[verifier::external_body]
    pub fn vec_raw(&mut self, n: usize) -> (r: HPtr)
        requires
            n * esize::<E>() <= isize::MAX, // [C14]
        ensures
            !old(self)@.contains_key(r.blk),
            r.off == 0, r.cap >= n,
            final(self)@ == old(self)@.insert(r.blk, Seq::new(r.cap as nat, |i: int| None)),
    { unimplemented!() }
    /// dropping that Vec
    #[verifier::external_body]
    pub fn free_vec(&mut self, p: HPtr)
        requires
            old(self)@.contains_key(p.blk), // [C15]
        ensures final(self)@ == old(self)@.remove(p.blk)
    { unimplemented!() }
}
/// ArrayViewMut1::from_shape_ptr over scratch memory: while the view lives the memory is only used
/// through it, so it is appended to the array's storage (its contents are arbitrary)
#[verifier::external_body]
pub fn adopt<T: Copy>(hp: &mut Mem<T>, bp: &mut Heap<T>, p: HPtr, n: usize) -> (r: Vw)
    requires
        hok(old(bp)@, p), // [C15]
        p.off + n <= p.cap, // [C15]
    ensures
        r.base == old(hp)@.len(), r.len == n,
        final(hp)@.len() == old(hp)@.len() + n,
        final(hp)@.take(old(hp)@.len() as int) == old(hp)@,
        final(bp)@ == old(bp)@.remove(p.blk),
{ unimplemented!() }
/// the end of that view
#[verifier::external_body]
pub fn unadopt<T: Copy>(hp: &mut Mem<T>, bp: &mut Heap<T>, r: Vw, p: HPtr)
    requires
        r.base + r.len == old(hp)@.len(),
    ensures
        final(hp)@ == old(hp)@.take(r.base as int),
        exists|c: Seq<Option<T>>| c.len() == p.cap && final(bp)@ == #[trigger] old(bp)@.insert(p.blk, c),
{ unimplemented!() }

// ---- local collections of plain data -------------------------------------------------------------
/// Vec<X> (part of std; running out of memory is outside the model): its elements, and the cells of
/// its spare capacity
pub struct LVec<X> { pub m: Ghost<Seq<X>>, pub s: Ghost<Seq<Option<X>>> }
impl<X> View for LVec<X> {
    type V = Seq<X>;
    open spec fn view(&self) -> Seq<X> { self.m@ }
}
impl<X: Copy> LVec<X> {
    pub open spec fn cells(&self) -> Seq<Option<X>> { self.s@ }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<X>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Seq::<X>::empty(), r.cells().len() >= n, forall|i: int| 0 <= i < r.cells().len() ==> #[trigger] r.cells()[i] == None::<X>
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: X)
        ensures final(self)@ == old(self)@.push(x)
    { unimplemented!() }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(slen)]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    pub open spec fn slen(&self) -> usize { self@.len() as usize }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: X)
        requires
            i < self@.len(), // [C14]
        ensures r == self@[i as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: usize, x: X)
        requires
            i < old(self)@.len(), // [C14]
        ensures final(self)@ == old(self)@.update(i as int, x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: X)
        requires
            i < old(self)@.len(), // [C14]
        ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[X])
        ensures r@ == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn spare_len(&self) -> (r: usize)
        ensures r == self.cells().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn spare_write(&mut self, i: usize, x: X)
        requires
            i < old(self).cells().len(), // [C14]
        ensures final(self)@ == old(self)@, final(self).cells() == old(self).cells().update(i as int, Some(x))
    { unimplemented!() }
    /// unsafe: from the current length on the cells up to n must be initialised
    #[verifier::external_body]
    pub fn set_len(&mut self, n: usize)
        requires
            old(self)@.len() <= n <= old(self)@.len() + old(self).cells().len(), // [C15]
            forall|i: int| 0 <= i < n - old(self)@.len() ==> (#[trigger] old(self).cells()[i]) is Some, // [C15]
        ensures final(self)@ == old(self)@ + Seq::new((n - old(self)@.len()) as nat, |i: int| old(self).cells()[i]->Some_0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: LIter<X>)
        ensures r.m@ == self@, r.pos@ == 0
    { unimplemented!() }
}
pub struct LIter<X> { pub m: Ghost<Seq<X>>, pub pos: Ghost<int> }
impl<X: Copy> LIter<X> {
    pub open spec fn wf(&self) -> bool { 0 <= self.pos@ <= self.m@.len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<X>)
        requires old(self).wf()
        ensures
            final(self).m == old(self).m,
            old(self).pos@ < old(self).m@.len() ==> r == Some(old(self).m@[old(self).pos@]) && final(self).pos@ == old(self).pos@ + 1,
            old(self).pos@ >= old(self).m@.len() ==> r is None && final(self).pos == old(self).pos,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<X>)
        requires old(self).wf()
        ensures
            *final(self) == *old(self),
            old(self).pos@ < old(self).m@.len() ==> r == Some(old(self).m@[old(self).pos@]),
            old(self).pos@ >= old(self).m@.len() ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        requires self.wf()
        ensures r == self.m@.len() - self.pos@
    { unimplemented!() }
}
pub fn slice_at<X: Copy>(s: &[X], i: usize) -> (r: X)
    requires
        i < s@.len(), // [C14]
    ensures r == s@[i as int]
{ s[i] }
pub fn slice_split_at<X>(s: &[X], k: usize) -> (r: (&[X], &[X]))
    requires
        k <= s@.len(), // [C14]
    ensures r.0@ == s@.subrange(0, k as int), r.1@ == s@.subrange(k as int, s@.len() as int)
{ (vstd::slice::slice_subrange(s, 0, k), vstd::slice::slice_subrange(s, k, s.len())) }
/// axis_chunks_iter_mut: panics for a chunk size of 0
#[derive(Clone, Copy)]
pub struct Chunks { pub v: Vw, pub size: usize }
impl Chunks {
    pub fn new(v: Vw, size: usize) -> (r: Chunks)
        requires
            size > 0, // [C14]
        ensures r.v == v, r.size == size
    { Chunks { v, size } }
    pub fn len(self) -> (r: usize)
        requires self.size > 0
        ensures
            r * self.size >= self.v.len,
            r > 0 ==> (r - 1) * self.size < self.v.len,
    {
        let q = self.v.len / self.size;
        let m = self.v.len % self.size;
        proof {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.v.len as int, self.size as int);
            assert(q * self.size + m == self.v.len) by (nonlinear_arith) requires self.v.len as int == self.size as int * q + m;
            assert((q + 1) * self.size == q * self.size + self.size) by (nonlinear_arith);
            assert((q - 1) * self.size == q * self.size - self.size) by (nonlinear_arith);
            assert(q < usize::MAX || m == 0) by (nonlinear_arith) requires q * self.size + m == self.v.len, self.v.len <= usize::MAX, self.size > 0, q >= 0, m >= 0;
        }
        if m == 0 { q } else { q + 1 }
    }
    pub fn get(self, i: usize) -> (r: Vw)
        requires
            i * self.size < self.v.len, // [C14]
            self.size > 0,
            self.v.base + self.v.len <= usize::MAX,
        ensures
            r.base == self.v.base + i * self.size,
            r.len == if self.v.len - i * self.size < self.size { self.v.len - i * self.size } else { self.size as int },
    {
        let o = i * self.size;
        Vw { base: self.v.base + o, len: min_usize(self.size, self.v.len - o) }
    }
}
