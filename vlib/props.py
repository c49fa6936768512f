"""Which contracts decide which property."""

def A(*names):
    return ["ArrayBase::" + n for n in names]


def by(n):
    return [n, n + "_by", n + "_by_key"]


# The roots are the methods of `impl Slice1Ext for ArrayBase` themselves.
SORTS = A(*by("sort_unstable"))
STABLE = A(*by("sort"))
SELECT1 = A(*by("select_nth_unstable"))
SELECTN = A(*by("select_many_nth_unstable"))
SELECTS = SELECT1 + SELECTN
SEARCH = A("binary_search", "binary_search_by", "binary_search_by_key", "partition_point")
DEDUP = A(*by("partition_dedup"))
SCAN = A(*by("is_sorted")) + A("reverse", "contains")
PARU = A(*by("par_sort_unstable"))
PARN = A(*by("par_select_many_nth_unstable"))
CACHED = A("sort_by_cached_key")
PARC = A("par_sort_by_cached_key")
PARS = A(*by("par_sort"))
STABLE = STABLE + CACHED
ALLSEQ = SORTS + STABLE + SELECTS

# property -> roots (public methods whose contracts state it), aspects, the contract clauses that
# state it, and what of the property is left to the bounded stand-in.
PROPS = {
    "C01": dict(roots=SORTS, asp="SO",
                says="sort_unstable* ensure sorted(GL, ..) of the array, GL being the order the caller's Ord, comparison or key function defines"),
    "C02": dict(roots=STABLE, asp="SO",
                says="sort* ensure sorted(GL, ..) by (key, rank) for every rank that starts non-decreasing: equal keys keep their order"),
    "C03": dict(roots=ALLSEQ, asp="S", says="`conserve`: res is Ok ==> perm(hp0, hp1), any comparator"),
    "C04": dict(roots=ALLSEQ + DEDUP + PARU + PARC + PARS, asp="S", says="`conserve`: res is Err ==> perm(hp0, hp1), unwinding at every call of the caller's code"),
    "C05": dict(roots=SELECT1, asp="SO", says="select_nth_unstable*: views split at index; selected(GL, ..): all left <= element <= all right"),
    "C06": dict(roots=SELECTN, asp="SO", says="select_many_nth_unstable*: collection extended by the (index, slot) pairs in order; selected(GL, ..) at every requested index"),
    "C07": dict(roots=SELECTS, asp="S", says="panics exactly when the index condition fails; perm on unwinding"),
    "C08": dict(roots=SEARCH, asp="S", says="binary_search*, partition_point: range for any probe, exact position for a partitioned array"),
    "C09": dict(roots=DEDUP, asp="S", says="dedup()/kept()/calls log postconditions of partition_dedup*"),
    "C10": dict(roots=SCAN, asp="S", says="reverse, is_sorted*, contains against their definitions"),
    "C11": dict(roots=PARU + PARC + PARS, asp="SO", says="par_sort_unstable*, par_sort_by_cached_key, par_sort*: conserve and sorted(GL, ..), the par_sort family by (key, rank) for every rank that starts non-decreasing; rayon::join and for_each as calls on disjoint views, one after the other"),
    "C12": dict(roots=PARN, asp="SO", says="par_select_many_nth_unstable*: the vector is extended by one initialised slot per index pointing at that array slot, old elements kept, selected(GL, ..) at every index, panic exactly on index misuse; rayon::join as two calls on disjoint views"),
    "C13": dict(roots=ALLSEQ + DEDUP + A("reverse") + PARU + PARN + PARC + PARS, asp="S", says="frame(hp0, hp1, view): slots outside the view are unchanged, Ok or Err"),
    "C14": dict(roots=ALLSEQ + SEARCH + DEDUP + SCAN, asp="S", says="decreases on every loop and recursion, no overflow, every assertion and index proved"),
    "C15": dict(roots=ALLSEQ + SEARCH + DEDUP + SCAN, asp="S", says="preconditions of every raw read, write, copy, allocation and release"),
    "C16": dict(roots=CACHED + PARC, asp="SO",
                says="log() of the key function: each element once, in array order (sequential), none below two elements; sorted(GL, ..) by (key, rank) at every index width"),
    "C17": dict(roots=SORTS, asp="SOK", says="n1 <= n0 + n*(185*bits(n) + 65): ghost counters of the comparator's calls, bounded by a potential over (length, remaining bad pivots, balance, predecessor)"),
    "C18": dict(roots=SELECTS, asp="SOK", says="n1 <= n0 + 13382*n (one index), n1 <= n0 + 13382*n*bits(m) (m indices): ghost counters of the comparator's calls, bounded by a potential over (length, limit, balance, predecessor) and by counting what every median of ninthers discards"),
    "C19": dict(roots=A("sort", "sort_by", "sort_by_key"), asp="SOK", says="n1 <= n0 + n*(8*bits(n) + 40): ghost counters of the comparator's calls, bounded by what the pending runs owe (three times length times height), a debt the next merge settles, and the height the run-length invariant allows"),
    "C20": dict(roots=A("binary_search_by", "binary_search_by_key", "partition_point"), asp="SOK", says="n1 <= n0 + bits(n) + 1 (by key: the same for the length of log()), Ok or Err, whatever the probe answers: every round halves right - left"),
}

# properties a non-terminating run breaks
HANG = {"C05", "C06", "C08", "C10", "C11", "C12", "C14", "C16"}

TRUSTED = [
    "Verus, its Z3 and rustc front end",
    "/verif/extractor: the mechanical translation of Rust bodies to Verus (see DESIGN.md for what it drops)",
    "contracts/prelude.rs: array memory, views, raw pointers, MaybeUninit scratch and comparator model; external_body primitives with assumed contracts",
    "axiom_mem_len: an array has at most isize::MAX elements; axiom_zst: size_of::<T>() is a constant",
    "std and rayon sort a Vec of (key, index) pairs lexicographically; collect keeps the iterator's items, in order without par_bridge",
    "std/ndarray: ArrayViewMut indexing/split/swap behave as documented; Vec/extend/Iterator::max_by,min_by as documented",
    "rayon: join runs both tasks to the end also when one panics; for_each over par_bridge runs its body on every item when none panics; tasks that own disjoint elements behave as if run one after the other",
    "contracts/prelude.rs adopt/unadopt: a view made of a Vec's spare storage is exactly that storage while it lives; array and scratch together have at most isize::MAX elements",
    "unwinding runs exactly the Drop impls of live locals, in reverse order of declaration",
]
ASSUMPTIONS = [
    "usize is 64 bits",
    "element values are modelled as opaque copies: mutation through interior mutability inside a comparator is outside the model",
]

NOT_APPLICABLE = {}
