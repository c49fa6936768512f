# How often a search calls what it was given (aspect K): bits(n) + 1 times at most.

fn ArrayBase::binary_search_by
ensures[K] n1 <= n0 + bits(self_.len as int) + 1
ensures[K] final(f).pn() == old(f).pn()
at[K] start: let ghost len_k = self_.len as int
at[K] start: lemma_bits_mono(0, len_k)
inv 1[K] f.n() + bits(right - left) <= n0 + bits(len_k)
at[K] loop 1 begin: let ghost (l_k, r_k) = (left as int, right as int)
at[K] loop 1 begin: lemma_bits_mono(0, r_k - l_k)
at[K] loop 1 end: if right - left <= (r_k - l_k) / 2 { lemma_bits_mono(right - left, (r_k - l_k) / 2); }

fn ArrayBase::partition_point
ensures[K] n1 <= n0 + bits(self_.len as int) + 1

fn ArrayBase::binary_search_by_key
ensures[K] final(f).log().len() <= old(f).log().len() + bits(self_.len as int) + 1
