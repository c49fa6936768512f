# generated once by hand-written template: left and right halves of the block partition argument
verus{ O
pub proof fn lemma_pleft_upd<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires
        pendc(c, so, eo, ix, n), so < eo, 0 <= b && b + n <= a.len(),
        z == a.update(b + c[so]->Some_0, z[b + c[so]->Some_0]),
        n <= 256,
        g.ok && pleft(g, a, b, c, so, eo, ix, n, p) ==> lt(g, z[b + c[so]->Some_0], p),
    ensures
        g.ok && pleft(g, a, b, c, so, eo, ix, n, p) ==> pleft(g, z, b, c, so + 1, eo, ix, n, p),
{
    reveal(pendc); reveal(pleft);
    if !(g.ok && pleft(g, a, b, c, so, eo, ix, n, p)) { return; }
    let e = c[so]->Some_0 as int;
    assert forall|i: int| #![trigger ix[i]] 0 <= i < n implies lt(g, z[b + i], p) || (so + 1 <= ix[i] < eo && c[ix[i]] == Some(i as u8)) by {
        assert(lt(g, a[b + i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8)));
        if i != e { assert(z[b + i] == a[b + i]); }
    }
    assert forall|k: int| #![trigger c[k]] so + 1 <= k < eo implies !lt(g, z[b + c[k]->Some_0], p) by {
        assert(c[so]->Some_0 < c[k]->Some_0);
        assert(z[b + c[k]->Some_0] == a[b + c[k]->Some_0]);
    }
}
pub proof fn lemma_pleft_frame<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires
        pendc(c, so, eo, ix, n), 0 <= b && b + n <= a.len(), a.len() == z.len(),
        forall|k: int| #![trigger z[k]] b <= k < b + n ==> z[k] == a[k],
    ensures
        g.ok && pleft(g, a, b, c, so, eo, ix, n, p) ==> pleft(g, z, b, c, so, eo, ix, n, p),
{
    reveal(pendc); reveal(pleft);
    if !(g.ok && pleft(g, a, b, c, so, eo, ix, n, p)) { return; }
    assert forall|i: int| #![trigger ix[i]] 0 <= i < n implies lt(g, z[b + i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8)) by {
        assert(z[b + i] == a[b + i]);
    }
    assert forall|k: int| #![trigger c[k]] so <= k < eo implies !lt(g, z[b + c[k]->Some_0], p) by {
        assert(z[b + c[k]->Some_0] == a[b + c[k]->Some_0]);
    }
}
pub proof fn lemma_pleft_empty<T>(g: CmpG<T>, s: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires so >= eo
    ensures g.ok && pleft(g, s, b, c, so, eo, ix, n, p) ==> forall|k: int| #![trigger s[k]] b <= k < b + n ==> lt(g, s[k], p)
{
    reveal(pendc); reveal(pleft);
    if !(g.ok && pleft(g, s, b, c, so, eo, ix, n, p)) { return; }
    assert forall|k: int| #![trigger s[k]] b <= k < b + n implies lt(g, s[k], p) by {
        let i = k - b;
        assert(lt(g, s[b + i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8)));
    }
}
/// The last listed offset swaps with the last position and both leave.
pub proof fn lemma_pleft_pop<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires
        pendc(c, so, eo + 1, ix, n), so <= eo, 0 <= b && b + n <= a.len(), a.len() == z.len(), 0 < n <= 256,
        c[eo]->Some_0 < n,
        z == a.update(b + c[eo]->Some_0, a[b + n - 1]).update(b + n - 1, a[b + c[eo]->Some_0]),
    ensures
        g.ok && pleft(g, a, b, c, so, eo + 1, ix, n, p) ==> pleft(g, z, b, c, so, eo, ix, n - 1, p) && !lt(g, z[b + n - 1], p),
{
    reveal(pendc); reveal(pleft);
    if !(g.ok && pleft(g, a, b, c, so, eo + 1, ix, n, p)) { return; }
    let e = c[eo]->Some_0 as int;
    assert(!lt(g, a[b + e], p));
    assert(lt(g, a[b + (n - 1)], p) || (so <= ix[n - 1] < eo + 1 && c[ix[n - 1]] == Some((n - 1) as u8)));
    if e < n - 1 {
        if so <= ix[n - 1] < eo { assert(c[ix[n - 1]]->Some_0 < c[eo]->Some_0); }
        assert(lt(g, a[b + (n - 1)], p));
    }
    assert forall|i: int| #![trigger ix[i]] 0 <= i < n - 1 implies lt(g, z[b + i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8)) by {
        assert(lt(g, a[b + i], p) || (so <= ix[i] < eo + 1 && c[ix[i]] == Some(i as u8)));
        if i != e { assert(z[b + i] == a[b + i]); }
    }
    assert forall|k: int| #![trigger c[k]] so <= k < eo implies !lt(g, z[b + c[k]->Some_0], p) by {
        assert(c[k]->Some_0 < c[eo]->Some_0);
        assert(!lt(g, a[b + c[k]->Some_0], p));
        assert(z[b + c[k]->Some_0] == a[b + c[k]->Some_0]);
    }
}

pub proof fn lemma_pright_upd<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires
        pendc(c, so, eo, ix, n), so < eo, 0 <= b - n && b <= a.len(),
        z == a.update(b - 1 - c[so]->Some_0, z[b - 1 - c[so]->Some_0]),
        n <= 256,
        g.ok && pright(g, a, b, c, so, eo, ix, n, p) ==> !lt(g, z[b - 1 - c[so]->Some_0], p),
    ensures
        g.ok && pright(g, a, b, c, so, eo, ix, n, p) ==> pright(g, z, b, c, so + 1, eo, ix, n, p),
{
    reveal(pendc); reveal(pright);
    if !(g.ok && pright(g, a, b, c, so, eo, ix, n, p)) { return; }
    let e = c[so]->Some_0 as int;
    assert forall|i: int| #![trigger ix[i]] 0 <= i < n implies !lt(g, z[b - 1 - i], p) || (so + 1 <= ix[i] < eo && c[ix[i]] == Some(i as u8)) by {
        assert(!lt(g, a[b - 1 - i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8)));
        if i != e { assert(z[b - 1 - i] == a[b - 1 - i]); }
    }
    assert forall|k: int| #![trigger c[k]] so + 1 <= k < eo implies lt(g, z[b - 1 - c[k]->Some_0], p) by {
        assert(c[so]->Some_0 < c[k]->Some_0);
        assert(z[b - 1 - c[k]->Some_0] == a[b - 1 - c[k]->Some_0]);
    }
}
pub proof fn lemma_pright_frame<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires
        pendc(c, so, eo, ix, n), 0 <= b - n && b <= a.len(), a.len() == z.len(),
        forall|k: int| #![trigger z[k]] b - n <= k < b ==> z[k] == a[k],
    ensures
        g.ok && pright(g, a, b, c, so, eo, ix, n, p) ==> pright(g, z, b, c, so, eo, ix, n, p),
{
    reveal(pendc); reveal(pright);
    if !(g.ok && pright(g, a, b, c, so, eo, ix, n, p)) { return; }
    assert forall|i: int| #![trigger ix[i]] 0 <= i < n implies !lt(g, z[b - 1 - i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8)) by {
        assert(z[b - 1 - i] == a[b - 1 - i]);
    }
    assert forall|k: int| #![trigger c[k]] so <= k < eo implies lt(g, z[b - 1 - c[k]->Some_0], p) by {
        assert(z[b - 1 - c[k]->Some_0] == a[b - 1 - c[k]->Some_0]);
    }
}
pub proof fn lemma_pright_empty<T>(g: CmpG<T>, s: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires so >= eo
    ensures g.ok && pright(g, s, b, c, so, eo, ix, n, p) ==> forall|k: int| #![trigger s[k]] b - n <= k < b ==> !lt(g, s[k], p)
{
    reveal(pendc); reveal(pright);
    if !(g.ok && pright(g, s, b, c, so, eo, ix, n, p)) { return; }
    assert forall|k: int| #![trigger s[k]] b - n <= k < b implies !lt(g, s[k], p) by {
        let i = b - 1 - k;
        assert(!lt(g, s[b - 1 - i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8)));
    }
}
/// The last listed offset swaps with the last position and both leave.
pub proof fn lemma_pright_pop<T>(g: CmpG<T>, a: Seq<T>, z: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires
        pendc(c, so, eo + 1, ix, n), so <= eo, 0 <= b - n && b <= a.len(), a.len() == z.len(), 0 < n <= 256,
        c[eo]->Some_0 < n,
        z == a.update(b - n, a[b - 1 - c[eo]->Some_0]).update(b - 1 - c[eo]->Some_0, a[b - n]),
    ensures
        g.ok && pright(g, a, b, c, so, eo + 1, ix, n, p) ==> pright(g, z, b, c, so, eo, ix, n - 1, p) && lt(g, z[b - n], p),
{
    reveal(pendc); reveal(pright);
    if !(g.ok && pright(g, a, b, c, so, eo + 1, ix, n, p)) { return; }
    let e = c[eo]->Some_0 as int;
    assert(lt(g, a[b - 1 - e], p));
    assert(!lt(g, a[b - 1 - (n - 1)], p) || (so <= ix[n - 1] < eo + 1 && c[ix[n - 1]] == Some((n - 1) as u8)));
    if e < n - 1 {
        if so <= ix[n - 1] < eo { assert(c[ix[n - 1]]->Some_0 < c[eo]->Some_0); }
        assert(!lt(g, a[b - 1 - (n - 1)], p));
    }
    assert forall|i: int| #![trigger ix[i]] 0 <= i < n - 1 implies !lt(g, z[b - 1 - i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8)) by {
        assert(!lt(g, a[b - 1 - i], p) || (so <= ix[i] < eo + 1 && c[ix[i]] == Some(i as u8)));
        if i != e { assert(z[b - 1 - i] == a[b - 1 - i]); }
    }
    assert forall|k: int| #![trigger c[k]] so <= k < eo implies lt(g, z[b - 1 - c[k]->Some_0], p) by {
        assert(c[k]->Some_0 < c[eo]->Some_0);
        assert(lt(g, a[b - 1 - c[k]->Some_0], p));
        assert(z[b - 1 - c[k]->Some_0] == a[b - 1 - c[k]->Some_0]);
    }
}
pub proof fn lemma_pleft_nil<T>(g: CmpG<T>, s: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, ix: Seq<int>, p: T)
    ensures pleft(g, s, b, c, so, so, ix, 0, p)
{ reveal(pleft); }
pub proof fn lemma_pleft_head<T>(g: CmpG<T>, s: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires so < eo
    ensures pleft(g, s, b, c, so, eo, ix, n, p) ==> !lt(g, s[b + c[so]->Some_0], p)
{ reveal(pleft); }
pub proof fn lemma_pright_nil<T>(g: CmpG<T>, s: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, ix: Seq<int>, p: T)
    ensures pright(g, s, b, c, so, so, ix, 0, p)
{ reveal(pright); }
pub proof fn lemma_pright_head<T>(g: CmpG<T>, s: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T)
    requires so < eo
    ensures pright(g, s, b, c, so, eo, ix, n, p) ==> lt(g, s[b - 1 - c[so]->Some_0], p)
{ reveal(pright); }
}verus
