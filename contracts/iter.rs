/// `v.iter().enumerate().@W@_by(..)` followed by `unwrap`: std folds from the left, comparing the
/// element kept so far with the next one.
#[verifier::loop_isolation(false)]
pub fn iter_@W@_by__@Q@<T: Copy, F: Less<T>>(hp: &Mem<T>, v: Vw, is_less: &mut F) -> (res: Result<(usize, MPtr), Unwind>)
    requires
        v.len > 0, // [C14]
        v.base + v.len <= hp@.len(),
    ensures
        final(is_less).g() == old(is_less).g(),
        res is Ok ==> final(is_less).n() <= old(is_less).n() + 2 * v.len, //K
        final(is_less).pn() == old(is_less).pn(), //K
        old(is_less).g().nopanic ==> res is Ok,
        res is Ok ==> res->Ok_0.0 < v.len && res->Ok_0.1.addr == v.base + res->Ok_0.0,
        res is Ok && old(is_less).g().ok ==> forall|j: int| #![trigger hp@[j]] v.lo() <= j < v.hi() ==> !lt(old(is_less).g(), @A@, @B@),
{
    proof { axiom_mem_len(*hp); }
    let ghost g = is_less.g();
    let ghost n0 = is_less.n(); //K
    let mut k: usize = 0;
    let mut i: usize = 1;
    while i < v.len
        invariant
            is_less.n() <= n0 + 2 * i, is_less.pn() == old(is_less).pn(), //K
            1 <= i <= v.len, k < i, is_less.g() == g,
            g.ok ==> forall|j: int| #![trigger hp@[j]] v.lo() <= j < v.base + i ==> !lt(g, @A1@, @B1@),
        decreases v.len - i
    {
        let c = match @Q@(is_less, hp.get(v.uget(k)), hp.get(v.uget(i))) { Ok(x__) => x__, Err(e__) => { return Err(e__); } };
        match c {
            Ord3::Greater => { @G@ }
            _ => { @E@ }
        }
        i = i + 1;
    }
    Ok((k, v.uget(k)))
}
