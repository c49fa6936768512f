# partition.rs and par/partition.rs
fn partition::partition_in_blocks::ptr_width::u8, par::partition::partition_in_blocks::ptr_width::u8
requires l.blk == r.blk, l.off <= r.off
ensures res == r.off - l.off

fn partition::partition_in_blocks::width, par::partition::partition_in_blocks::width
requires l <= r
ensures res == r - l

fn partition::partition_in_blocks, par::partition::partition_in_blocks
attr #[verifier::rlimit(60)]
attr #[verifier::spinoff_prover]
conserve v
ensures ok: r <= v.len
ensures[O] ok: g.ok ==> parted(g, hp1, v.lo(), v.base + r, v.hi(), pivot)
at loop 1 before: let ghost mut il: Seq<int> = Seq::empty(); let ghost mut ir: Seq<int> = Seq::empty()
at assign start_l 1: il = Seq::empty();
at assign start_r 1: ir = Seq::empty();
at assign elem 1: il = il.push(end_l_o as int);
at before is_less 1: let ghost end_l_o = end_l.off
at before is_less 2: let ghost end_r_o = end_r.off
at assign end_r 2: ir = ir.push(end_r_o as int);
# loop 1
inv 1 l <= r <= v.len
inv 1 v == v_in, BLOCK == 128
inv 1[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1 hok(om@, offsets_l) && hok(om@, offsets_r) && offsets_l.blk != offsets_r.blk && offsets_l.off == 0 && offsets_r.off == 0 && offsets_l.cap == 128 && offsets_r.cap == 128
inv 1 start_l.blk == end_l.blk && start_r.blk == end_r.blk && start_l.off <= end_l.off && start_r.off <= end_r.off
invx 1 block_l == 128 && block_r == 128
invx 1 start_l.off == end_l.off || start_r.off == end_r.off
invx 1 start_l.off < end_l.off ==> l + block_l <= r && pend(om@, offsets_l, start_l, end_l, il, block_l as int)
invx 1 start_r.off < end_r.off ==> l + block_r <= r && pend(om@, offsets_r, start_r, end_r, ir, block_r as int)
inv 1[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.lo() <= k < v.base + l ==> lt(g, hp@[k], pivot)
inv 1[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.base + r <= k < v.hi() ==> !lt(g, hp@[k], pivot)
inv 1[O] g.ok && start_l.off < end_l.off ==> pleft(g, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, block_l as int, pivot)
inv 1[O] g.ok && start_r.off < end_r.off ==> pright(g, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int, pivot)
lens 1 start_l.off < end_l.off ==> l + block_l == r && start_r.off == end_r.off && pend(om@, offsets_l, start_l, end_l, il, block_l as int)
lens 1 start_r.off < end_r.off ==> l + block_r == r && start_l.off == end_l.off && pend(om@, offsets_r, start_r, end_r, ir, block_r as int)
lens 1 start_l.off == end_l.off && start_r.off == end_r.off ==> l == r
dec 1 r - l
iso 1
iso 2
inv 4 block_l <= 128, block_r <= 128
inv 5 block_l <= 128
inv 6 block_r <= 128
lens 1 block_l <= 128 && block_r <= 128
iso 3
iso 4
iso 5
iso 6
inv? 2 i__start == 0, i__end == block_l
inv 2 i <= block_l, offsets_l.cap == 128, v == v_in, BLOCK == 128, l <= r, r <= v.len, offsets_l.blk != offsets_r.blk
inv? 3 i__start == 0, i__end == block_r
inv 3 i <= block_r, offsets_r.cap == 128, v == v_in, BLOCK == 128, l <= r, r <= v.len, offsets_l.blk != offsets_r.blk
inv 4 it__4__end == count, v == v_in, l <= r, r <= v.len, offsets_l.blk != offsets_r.blk, offsets_l.cap <= 128, offsets_r.cap <= 128
inv 5 v == v_in
inv 6 v == v_in
inv 2 start_l.blk == end_l.blk && start_r.blk == end_r.blk && start_l.off <= end_l.off && start_r.off <= end_r.off
inv 4 hok(om@, offsets_l) && hok(om@, offsets_r)
at before copy 1: let ghost hp_c1 = hp@

at[O] after copy 1: lemma_pleft_upd(g, hp_c1, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, block_l as int, pivot); lemma_pright_frame(g, hp_c1, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int, pivot)
at before copy 2: let ghost hp_c2 = hp@
at[O] after copy 2: lemma_pright_upd(g, hp_c2, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int, pivot); lemma_pleft_frame(g, hp_c2, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, block_l as int, pivot)
at before copy 3: let ghost hp_c3 = hp@
at[O] after copy 3: lemma_pleft_upd(g, hp_c3, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, block_l as int, pivot); lemma_pright_frame(g, hp_c3, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int, pivot)
at before copy 4: let ghost hp_c4 = hp@
at before copy 4: lemma_pend_head(om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, block_l as int); lemma_pend_head(om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int)
at after ptr_width 2: if start_l.off < end_l.off && start_r.off < end_r.off { lemma_pend_head(om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, block_l as int); lemma_pend_head(om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int); }
at[O] after ptr_width 2: if start_l.off < end_l.off && start_r.off < end_r.off { lemma_pleft_head(g, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, block_l as int, pivot); lemma_pright_head(g, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int, pivot); }
at assign end_l 1: lemma_pend_nil(om@[offsets_l.blk], 0, il)
at assign end_r 1: lemma_pend_nil(om@[offsets_r.blk], 0, ir)
at[O] assign end_l 1: lemma_pleft_nil(g, hp@, v.base + l, om@[offsets_l.blk], 0, il, pivot)
at[O] assign end_r 1: lemma_pright_nil(g, hp@, v.base + r, om@[offsets_r.blk], 0, ir, pivot)
at loop 2 begin: reveal(pendc)
at loop 3 begin: reveal(pendc)
at loop 4 begin: reveal(pendc)
at loop 5 begin: reveal(pendc); if start_l.off < end_l.off { assert(om@[offsets_l.blk][end_l.off - 1] is Some); }
at loop 6 begin: reveal(pendc); if start_r.off < end_r.off { assert(om@[offsets_r.blk][end_r.off - 1] is Some); }
at[O] loop 2 begin: reveal(pleft)
at[O] loop 3 begin: reveal(pright)
at[O] loop 4 begin: reveal(pleft); reveal(pright)
at[O] after copy 4: lemma_pright_upd(g, hp_c4, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int, pivot); lemma_pleft_frame(g, hp_c4, hp@, v.base + l, om@[offsets_l.blk], start_l.off + 1, end_l.off as int, il, block_l as int, pivot)
at[O] assign l 1: lemma_pleft_empty(g, hp@, v.base + l - block_l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, block_l as int, pivot)
at[O] assign r 1: lemma_pright_empty(g, hp@, v.base + r + block_r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int, pivot)
at loop 5 begin: let ghost r_l5 = r
at before swap 1: let ghost hp_s1 = hp@
at[O] after swap 1: lemma_pleft_pop(g, hp_s1, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, r_l5 - l, pivot)
at[O] loop 5 after: lemma_pleft_empty(g, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, r - l, pivot)
at loop 6 begin: let ghost l_l6 = l
at before swap 2: let ghost hp_s2 = hp@
at[O] after swap 2: lemma_pright_pop(g, hp_s2, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, r - l_l6, pivot)
at[O] loop 6 after: lemma_pright_empty(g, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, r - l, pivot)
# loop 2: scan the left block
inv 2 l + block_l <= r, block_l <= 128, elem == l + i, il.len() == i, end_l.off <= i, start_l.off == 0
inv 2 hok(om@, offsets_l) && hok(om@, offsets_r)
inv 2 pend(om@, offsets_l, start_l, end_l, il, i as int)
inv 2 start_r.off < end_r.off ==> pend(om@, offsets_r, start_r, end_r, ir, block_r as int)
inv 2[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 2[C03,C04] perm(hp0, hp@)
inv 2[O] g.ok ==> pleft(g, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, i as int, pivot)
inv 2[O] g.ok && start_r.off < end_r.off ==> pright(g, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int, pivot)
# loop 3: scan the right block
inv 3 l + block_l <= r - block_r, block_r <= 128, elem == r - i, ir.len() == i, end_r.off <= i, start_r.off == 0
inv 3 hok(om@, offsets_l) && hok(om@, offsets_r)
inv 3 pend(om@, offsets_r, start_r, end_r, ir, i as int)
inv 3 pend(om@, offsets_l, start_l, end_l, il, block_l as int)
inv 3[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 3[C03,C04] perm(hp0, hp@)
inv 3[O] g.ok ==> pright(g, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, i as int, pivot)
inv 3[O] g.ok ==> pleft(g, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, block_l as int, pivot)
# loop 4: the cyclic permutation; the hole is at the right element under start_r
inv 4 l + block_l <= r - block_r
at before copy 1: let ghost (sl0, sr0) = (start_l.off, start_r.off)
inv 4 start_l.off == sl0 + it__4 - 1, start_r.off == sr0 + it__4 - 1, sl0 + count <= end_l.off, sr0 + count <= end_r.off
inv 4 pend(om@, offsets_r, start_r, end_r, ir, block_r as int)
inv 4 pend(om@, offsets_l, start_l, end_l, il, block_l as int)
inv 4[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 4[C03,C04] perm(hp0, hp@.update(v.base + r - 1 - om@[offsets_r.blk][start_r.off as int]->Some_0, tmp))
inv 4[O] g.ok ==> pright(g, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, block_r as int, pivot)
inv 4[O] g.ok ==> pleft(g, hp@, v.base + l, om@[offsets_l.blk], start_l.off + 1, end_l.off as int, il, block_l as int, pivot)
inv 4[O] g.ok ==> !lt(g, tmp, pivot)
inv 4[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.lo() <= k < v.base + l ==> lt(g, hp@[k], pivot)
inv 4[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.base + r <= k < v.hi() ==> !lt(g, hp@[k], pivot)
# loop 5: drain the left block
inv 5 start_l.off <= end_l.off, l <= r, hok(om@, offsets_l), l + block_l <= v.len, r <= l + block_l, r <= v.len
inv 5 pend(om@, offsets_l, start_l, end_l, il, r - l)
inv 5[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 5[C03,C04] perm(hp0, hp@)
inv 5[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.lo() <= k < v.base + l ==> lt(g, hp@[k], pivot)
inv 5[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.base + r <= k < v.hi() ==> !lt(g, hp@[k], pivot)
inv 5[O] g.ok ==> pleft(g, hp@, v.base + l, om@[offsets_l.blk], start_l.off as int, end_l.off as int, il, r - l, pivot)
dec 5 end_l.off
# loop 6: drain the right block
inv 6 start_r.off <= end_r.off, l <= r, hok(om@, offsets_r), r - block_r <= l, 0 <= r - block_r, r <= v.len
inv 6 pend(om@, offsets_r, start_r, end_r, ir, r - l)
inv 6[C13] frame(hp0, hp@, v.lo(), v.hi())
inv 6[C03,C04] perm(hp0, hp@)
inv 6[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.lo() <= k < v.base + l ==> lt(g, hp@[k], pivot)
inv 6[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.base + r <= k < v.hi() ==> !lt(g, hp@[k], pivot)
inv 6[O] g.ok ==> pright(g, hp@, v.base + r, om@[offsets_r.blk], start_r.off as int, end_r.off as int, ir, r - l, pivot)
dec 6 end_r.off
verus{
/// Cells [so,eo) are distinct ascending offsets below n; `ix` inverts them.
#[verifier::opaque]
pub open spec fn pendc(c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int) -> bool {
    &&& ix.len() >= n
    &&& forall|k: int| #![trigger c[k]] so <= k < eo ==> c[k] is Some && (c[k]->Some_0) < n && ix[c[k]->Some_0 as int] == k
    &&& forall|k: int, m: int| #![trigger c[k], c[m]] so <= k < m < eo ==> (c[k]->Some_0) < (c[m]->Some_0)
}
pub open spec fn pend(h: Map<usize, Seq<Option<u8>>>, o: HPtr, s: HPtr, e: HPtr, ix: Seq<int>, n: int) -> bool {
    &&& s.blk == o.blk && e.blk == o.blk && s.cap == o.cap && e.cap == o.cap && s.off <= e.off <= o.cap
    &&& pendc(h[o.blk], s.off as int, e.off as int, ix, n)
}
pub proof fn lemma_pend_nil(c: Seq<Option<u8>>, so: int, ix: Seq<int>)
    ensures pendc(c, so, so, ix, 0)
{ reveal(pendc); }
pub proof fn lemma_pend_head(c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int)
    requires pendc(c, so, eo, ix, n), so < eo
    ensures c[so] is Some, c[so]->Some_0 < n, pendc(c, so + 1, eo, ix, n)
{ reveal(pendc); }
}verus
verus{ O
pub open spec fn parted<T>(g: CmpG<T>, s: Seq<T>, lo: int, m: int, hi: int, p: T) -> bool {
    &&& forall|k: int| #![trigger s[k]] lo <= k < m ==> lt(g, s[k], p)
    &&& forall|k: int| #![trigger s[k]] m <= k < hi ==> !lt(g, s[k], p)
}
/// In the n positions from b, whatever is not below the pivot is at an offset listed in cells [so,eo).
#[verifier::opaque]
pub open spec fn pleft<T>(g: CmpG<T>, s: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T) -> bool {
    &&& forall|i: int| #![trigger ix[i]] 0 <= i < n ==> lt(g, s[b + i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8))
    &&& forall|k: int| #![trigger c[k]] so <= k < eo ==> !lt(g, s[b + c[k]->Some_0], p)
}
/// The same for the n positions that end before b, counted downwards, and what is below the pivot.
#[verifier::opaque]
pub open spec fn pright<T>(g: CmpG<T>, s: Seq<T>, b: int, c: Seq<Option<u8>>, so: int, eo: int, ix: Seq<int>, n: int, p: T) -> bool {
    &&& forall|i: int| #![trigger ix[i]] 0 <= i < n ==> !lt(g, s[b - 1 - i], p) || (so <= ix[i] < eo && c[ix[i]] == Some(i as u8))
    &&& forall|k: int| #![trigger c[k]] so <= k < eo ==> lt(g, s[b - 1 - c[k]->Some_0], p)
}
}verus

fn partition::partition, par::partition::partition
requires pivot < v.len
conserve v
ensures ok: r.0 < v.len
ensures[O] ok: g.ok ==> hp1[v.base + r.0] == hp0[v.base + pivot] && parted1(g, hp1, v.lo(), v.base + r.0, v.hi())
inv 1 l <= r <= v.len, tmp == hp@[v_in.base as int], pivot == tmp, _pivot_guard.src == tmp, _pivot_guard.dest.addr == v_in.base, v.base == v_in.base + 1, v.len == v_in.len - 1
at loop 1 before: let ghost hp_b1 = hp@
inv 1 hp@ == hp_b1
inv 1[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.lo() <= k < v.base + l ==> lt(g, hp@[k], pivot)
dec 1 r - l
inv 2 l <= r <= v.len, tmp == hp@[v_in.base as int], pivot == tmp, _pivot_guard.src == tmp, _pivot_guard.dest.addr == v_in.base, v.base == v_in.base + 1, v.len == v_in.len - 1
at loop 2 before: let ghost hp_b2 = hp@
inv 2 hp@ == hp_b2
inv 2[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.base + r <= k < v.hi() ==> !lt(g, hp@[k], pivot)
dec 2 r - l
at[O] before swap 2: assert(g.ok ==> hp@[v_in.base as int] == hp0[v_in.base + pivot]); assert(g.ok ==> parted(g, hp@, v_in.base + 1, v_in.base + 1 + mid, v_in.hi(), hp@[v_in.base as int]))

fn partition::partition_equal, par::partition::partition_equal
requires pivot < v.len
conserve v
ensures ok: r <= v.len && (v.len >= 2 ==> r >= 1)
ensures[O] ok: g.ok && v.len >= 2 ==> forall|k: int| #![trigger hp1[k]] v.lo() <= k < v.base + r ==> !lt(g, hp0[v.base + pivot], hp1[k])
ensures[O] ok: g.ok && v.len >= 2 ==> forall|k: int| #![trigger hp1[k]] v.base + r <= k < v.hi() ==> lt(g, hp0[v.base + pivot], hp1[k])
inv 1 l <= r <= v.len
inv 1 1 <= r
inv 1 tmp == hp@[v_in.base as int]
inv 1 pivot == tmp, _pivot_guard.src == tmp, _pivot_guard.dest.addr == v_in.base, v.base == v_in.base + 1, v.len == v_in.len - 1, v.len == len
inv 1[C13] frame(hp0, hp@, v_in.lo(), v_in.hi())
inv 1[C03,C04] perm(hp0, hp@)
inv 1[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.lo() <= k < v.base + l ==> !lt(g, pivot, hp@[k])
invx 1[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.base + r <= k < v.hi() ==> lt(g, pivot, hp@[k])
lens 1[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.base + l <= k < v.hi() ==> lt(g, pivot, hp@[k])
dec 1 r - l
at loop 1 begin: let ghost l_b = l
inv 2 l_b <= l <= r <= v.len
at loop 2 before: let ghost hp_b2 = hp@
inv 2 hp@ == hp_b2
inv 2[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.lo() <= k < v.base + l ==> !lt(g, pivot, hp@[k])
lens 2[O] g.ok && l < r ==> lt(g, pivot, hp@[v.base + l])
dec 2 r - l
at loop 2 after: let ghost r_b = r
at loop 3 before: let ghost r_c = r
inv 3 r <= r_c <= r_b <= v.len, l <= r + 1
invx 3 r_c == r_b ==> 1 <= r && l <= r
at loop 3 before: let ghost hp_b3 = hp@
inv 3 hp@ == hp_b3
invx 3[O] g.ok && l < r ==> lt(g, pivot, hp@[v.base + l])
invx 3[O] r_c == r_b && g.ok ==> forall|k: int| #![trigger hp@[k]] v.base + r <= k < v.hi() ==> lt(g, pivot, hp@[k])
inv 3[O] g.ok ==> forall|k: int| #![trigger hp@[k]] v.base + r < k < v.hi() ==> lt(g, pivot, hp@[k])
lens 3 r < r_b
lens 3[O] g.ok && l >= r ==> forall|k: int| #![trigger hp@[k]] v.base + l <= k < v.hi() ==> lt(g, pivot, hp@[k])
lens 3[O] g.ok && l < r ==> !lt(g, pivot, hp@[v.base + r]) && lt(g, pivot, hp@[v.base + l]) && forall|k: int| #![trigger hp@[k]] v.base + r < k < v.hi() ==> lt(g, pivot, hp@[k])
dec 3 r

fn partition::InsertionHole::drop, par::partition::InsertionHole::drop
requires self_.dest.addr < hp0.len()
ensures hp0[self_.dest.addr as int] == self_.src ==> hp1 == hp0

verus{ O
/// Partitioned around the element at position m.
pub open spec fn parted1<T>(g: CmpG<T>, s: Seq<T>, lo: int, m: int, hi: int) -> bool {
    &&& forall|k: int| #![trigger s[k]] lo <= k < m ==> lt(g, s[k], s[m])
    &&& forall|k: int| #![trigger s[k]] m < k < hi ==> !lt(g, s[k], s[m])
}
}verus
