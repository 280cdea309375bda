// Helpers that stand for std iterator chains.  Each is itself verified; what is trusted is only
// that the std adapter named in the comment behaves like the helper.

spec fn vx_sum_of(s: Seq<usize>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { vx_sum_of(s.drop_last()) + s.last() as nat }
}

proof fn lemma_vx_sum_prefix(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(),
    ensures vx_sum_of(s.take(k)) <= vx_sum_of(s),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_vx_sum_prefix(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
    } else {
        assert(s.take(k) =~= s);
    }
}

proof fn lemma_vx_sum_step(s: Seq<usize>, k: int)
    requires 0 <= k < s.len(),
    ensures vx_sum_of(s.take(k + 1)) == vx_sum_of(s.take(k)) + s[k],
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}

proof fn lemma_vx_sum_push(s: Seq<usize>, x: usize)
    ensures vx_sum_of(s.push(x)) == vx_sum_of(s) + x,
{
    assert(s.push(x).drop_last() =~= s);
}

proof fn lemma_vx_sum_const(s: Seq<usize>, x: usize)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == x,
    ensures vx_sum_of(s) == s.len() * x,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_vx_sum_const(s.drop_last(), x);
        assert(s.len() * x == (s.len() - 1) * x + x) by (nonlinear_arith);
    }
}

// slice.iter().sum::<usize>(): the sum of the elements, provided it fits
fn vx_sum(v: &[usize]) -> (r: usize)
    requires vx_sum_of(v@) <= usize::MAX,
    ensures r == vx_sum_of(v@),
{
    let mut acc: usize = 0;
    for x in it: v.iter()
        invariant acc == vx_sum_of(v@.take(it.index@)), vx_sum_of(v@) <= usize::MAX,
    {
        proof { lemma_vx_sum_step(v@, it.index@); lemma_vx_sum_prefix(v@, it.index@ + 1); }
        acc = acc + *x;
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    acc
}

// (a..b).map(|_| e).collect::<Vec<_>>(): b - a copies of e (none if b <= a)
fn vx_repeat(a: usize, b: usize, e: usize) -> (r: Vec<usize>)
    ensures r@.len() == (if b <= a { 0 } else { b - a }), forall|i: int| 0 <= i < r@.len() ==> r@[i] == e,
{
    let mut r: Vec<usize> = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= i, i <= b || i == a, r@.len() == i - a, forall|j: int| 0 <= j < r@.len() ==> r@[j] == e,
        decreases b - i,
    {
        r.push(e);
        i = i + 1;
    }
    r
}

spec fn vx_filtered<T>(v: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else {
        let r = vx_filtered(v.drop_last(), keep);
        if keep[v.len() - 1] { r.push(v.last()) } else { r }
    }
}

proof fn lemma_vx_filtered_ext<T>(v: Seq<T>, k1: Seq<bool>, k2: Seq<bool>)
    requires k1.len() >= v.len(), k2.len() >= v.len(), forall|i: int| 0 <= i < v.len() ==> k1[i] == k2[i],
    ensures vx_filtered(v, k1) == vx_filtered(v, k2),
    decreases v.len(),
{
    if v.len() > 0 { lemma_vx_filtered_ext(v.drop_last(), k1, k2); }
}

// v.into_iter().filter(p).collect::<Vec<_>>()
fn vx_filter<T, P: Fn(&T) -> bool>(v: Vec<T>, p: P) -> (r: Vec<T>)
    requires forall|i: int| #![auto] 0 <= i < v@.len() ==> call_requires(p, (&v@[i],)),
    ensures exists|keep: Seq<bool>| #![auto] keep.len() == v@.len()
        && (forall|i: int| 0 <= i < v@.len() ==> call_ensures(p, (&v@[i],), #[trigger] keep[i])) && r@ == vx_filtered(v@, keep),
{
    let mut out = Vec::new();
    let ghost mut keep: Seq<bool> = Seq::empty();
    let ghost v0 = v@;
    for x in it: v
        invariant
            keep.len() == it.index@, v0 == v@,
            forall|i: int| #![auto] 0 <= i < v0.len() ==> call_requires(p, (&v0[i],)),
            forall|i: int| 0 <= i < keep.len() ==> call_ensures(p, (&v0[i],), #[trigger] keep[i]),
            out@ == vx_filtered(v0.take(it.index@), keep),
    {
        let k = p(&x);
        proof {
            let k0 = keep;
            keep = keep.push(k);
            let w = v0.take(it.index@ + 1);
            assert(w.drop_last() =~= v0.take(it.index@));
            lemma_vx_filtered_ext(w.drop_last(), k0, keep);
        }
        if k { out.push(x); }
    }
    proof { assert(v0.take(v0.len() as int) =~= v0); }
    out
}

// (a..b).map(f).collect::<Vec<_>>()
fn vx_map_range<U, F: Fn(usize) -> U>(a: usize, b: usize, f: F) -> (r: Vec<U>)
    requires forall|i: usize| a <= i < b ==> call_requires(f, (i,)),
    ensures
        r@.len() == (if b <= a { 0 } else { b - a }),
        forall|j: int| 0 <= j < r@.len() ==> call_ensures(f, ((a + j) as usize,), #[trigger] r@[j]),
{
    let mut r: Vec<U> = Vec::new();
    let mut i = a;
    while i < b
        invariant
            a <= i, i <= b || i == a, r@.len() == i - a,
            forall|i: usize| a <= i < b ==> call_requires(f, (i,)),
            forall|j: int| 0 <= j < r@.len() ==> call_ensures(f, ((a + j) as usize,), #[trigger] r@[j]),
        decreases b - i,
    {
        r.push(f(i));
        i = i + 1;
    }
    r
}

// (a..b).filter(p).collect::<Vec<i32>>(): the members of the range that satisfy p, ascending
fn vx_filter_range<P: Fn(&i32) -> bool>(a: i32, b: i32, p: P) -> (r: Vec<i32>)
    requires forall|i: i32| a <= i < b ==> call_requires(p, (&i,)),
    ensures
        forall|j: int| 0 <= j < r@.len() ==> a <= #[trigger] r@[j] < b && call_ensures(p, (&r@[j],), true),
        forall|i: i32| a <= i < b ==> #[trigger] r@.contains(i) || call_ensures(p, (&i,), false),
        forall|j: int, k: int| 0 <= j < k < r@.len() ==> r@[j] < r@[k],
{
    let mut r: Vec<i32> = Vec::new();
    let mut i = a;
    while i < b
        invariant
            a <= i, i <= b || i == a,
            forall|i: i32| a <= i < b ==> call_requires(p, (&i,)),
            forall|j: int| 0 <= j < r@.len() ==> a <= #[trigger] r@[j] < i && call_ensures(p, (&r@[j],), true),
            forall|k: i32| a <= k < i ==> #[trigger] r@.contains(k) || call_ensures(p, (&k,), false),
            forall|j: int, k: int| 0 <= j < k < r@.len() ==> r@[j] < r@[k],
        decreases b - i,
    {
        let ghost r0 = r@;
        if p(&i) {
            r.push(i);
            proof {
                assert(r@[r0.len() as int] == i);
                assert forall|k: i32| a <= k <= i implies #[trigger] r@.contains(k) || call_ensures(p, (&k,), false) by {
                    let _ = r0.contains(k);
                    if k < i && r0.contains(k) { let j = choose|j: int| 0 <= j < r0.len() && r0[j] == k; assert(r@[j] == k); }
                }
            }
        }
        i = i + 1;
    }
    r
}

// (a..b).collect::<Vec<i32>>()
fn vx_range(a: i32, b: i32) -> (r: Vec<i32>)
    ensures r@.len() == (if b <= a { 0 } else { b - a }), forall|j: int| 0 <= j < r@.len() ==> #[trigger] r@[j] == a + j,
{
    let mut r: Vec<i32> = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= i, i <= b || i == a, r@.len() == i - a, forall|j: int| 0 <= j < r@.len() ==> #[trigger] r@[j] == a + j,
        decreases b - i,
    {
        r.push(i);
        i = i + 1;
    }
    r
}
