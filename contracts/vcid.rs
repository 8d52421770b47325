// Derived client IDs (C12): the codewords and the facts about them that the property states.
use vstd::prelude::*;
use crate::vident::*;
use crate::vspec::*;
verus! {
/// the k-th character of the base-62 alphabet: digits, capital letters, small letters
pub open spec fn lu(k: int) -> u8 {
    if k < 10 { (48 + k) as u8 } else if k < 36 { (55 + k) as u8 } else { (61 + k) as u8 }
}
/// the codeword for index i: one "z" for each 61 in i+1, then one more character
pub open spec fn cw(i: int) -> Seq<u8> {
    Seq::new((1 + (i + 1) / 61) as nat, |j: int| if j < (i + 1) / 61 { 122u8 } else { lu((i + 1) % 61) })
}
pub open spec fn local_text(i: int) -> Seq<u8> { seq![48u8] + cw(i) }
pub open spec fn job_text(i: int) -> Seq<u8> { cw(i) }
pub open spec fn child_text(i: int, j: int) -> Seq<u8> { cw(i) + cw(j) }

/// a is a prefix of b
pub open spec fn is_pre(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && forall|k: int| 0 <= k < a.len() ==> a[k] == b[k] }

pub proof fn lemma_lu(k: int)
    requires 0 <= k < 62,
    ensures is_alnum_b(lu(k)), (lu(k) == 122) == (k == 61), (lu(k) == 48) == (k == 0),
        forall|l: int| 0 <= l < 62 && lu(l) == lu(k) ==> l == k,
{ }
pub proof fn lemma_cw(i: int)
    requires 0 <= i,
    ensures cw(i).len() == 1 + (i + 1) / 61, all_of(cw(i)), cw(i)[0] != 48,
        forall|j: int| 0 <= j < (i + 1) / 61 ==> cw(i)[j] == 122, cw(i)[(i + 1) / 61] == lu((i + 1) % 61), cw(i)[(i + 1) / 61] != 122,
{
    lemma_lu((i + 1) % 61);
    assert((i + 1) / 61 == 0 ==> (i + 1) % 61 == i + 1);
}
/// only alphanumeric bytes
pub open spec fn all_of(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> is_alnum_b(#[trigger] s[k]) }

/// C12: a codeword is a prefix of something that starts with another codeword only if they are the same
pub proof fn lemma_cw_prefix_free(a: int, b: int, t: Seq<u8>)
    requires 0 <= a, 0 <= b, is_pre(cw(a), cw(b) + t) || is_pre(cw(b) + t, cw(a)),
    ensures a == b,
{
    lemma_cw(a); lemma_cw(b);
    let q = (a + 1) / 61; let p = (b + 1) / 61;
    let u = cw(b) + t;
    assert(forall|k: int| 0 <= k < cw(b).len() ==> u[k] == cw(b)[k]);
    if is_pre(cw(a), u) {
        assert(cw(a)[q] == u[q]);
        if p < q { assert(cw(a)[p] == 122 && u[p] == cw(b)[p]); }
        if p > q { assert(u[q] == 122); }
    } else {
        if p < q { assert(cw(a)[p] == 122 && u[p] == cw(b)[p]); }
        if p > q { assert(u[q] == 122); assert(u[q] == cw(a)[q]); }
        assert(u[p] == cw(a)[p]);
    }
    assert(p == q);
    lemma_lu((a + 1) % 61);
    assert((a + 1) % 61 == (b + 1) % 61);
}
/// C12: no local or job is a prefix of another one
pub proof fn lemma_local_job_prefix_free(i: int, j: int)
    requires 0 <= i, 0 <= j,
    ensures
        is_pre(local_text(i), local_text(j)) ==> i == j,
        is_pre(job_text(i), job_text(j)) ==> i == j,
        !is_pre(local_text(i), job_text(j)),
        !is_pre(job_text(i), local_text(j)),
{
    lemma_cw(i); lemma_cw(j);
    if is_pre(local_text(i), local_text(j)) {
        assert forall|k: int| 0 <= k < cw(i).len() implies cw(i)[k] == (cw(j) + seq![])[k] by { assert(local_text(i)[k + 1] == local_text(j)[k + 1]); }
        lemma_cw_prefix_free(i, j, seq![]);
    }
    if is_pre(job_text(i), job_text(j)) {
        assert(cw(j) + Seq::<u8>::empty() =~= cw(j));
        lemma_cw_prefix_free(i, j, Seq::empty());
    }
    if is_pre(local_text(i), job_text(j)) { assert(local_text(i)[0] == job_text(j)[0]); }
    if is_pre(job_text(i), local_text(j)) { assert(job_text(i)[0] == local_text(j)[0]); }
}
/// C12: a child is below its job and below no other job, nor any local
pub proof fn lemma_child_below(i: int, j: int, k: int)
    requires 0 <= i, 0 <= j, 0 <= k,
    ensures is_pre(job_text(i), child_text(i, j)), is_pre(job_text(k), child_text(i, j)) ==> k == i, !is_pre(local_text(k), child_text(i, j)),
        !is_pre(child_text(i, j), job_text(k)), !is_pre(child_text(i, j), local_text(k)),
{
    lemma_cw(i); lemma_cw(j); lemma_cw(k);
    if is_pre(job_text(k), child_text(i, j)) { lemma_cw_prefix_free(k, i, cw(j)); }
    if is_pre(local_text(k), child_text(i, j)) { assert(local_text(k)[0] == child_text(i, j)[0]); }
    if is_pre(child_text(i, j), job_text(k)) { lemma_cw_prefix_free(k, i, cw(j)); }
    if is_pre(child_text(i, j), local_text(k)) { assert(local_text(k)[0] == child_text(i, j)[0]); }
}
pub proof fn lemma_child_inj(i: int, j: int, k: int, l: int)
    requires 0 <= i, 0 <= j, 0 <= k, 0 <= l, child_text(i, j) == child_text(k, l),
    ensures i == k, j == l,
{
    lemma_child_below(i, j, k); lemma_child_below(k, l, k);
    assert(cw(j) =~= child_text(i, j).skip(cw(i).len() as int));
    assert(cw(l) =~= child_text(k, l).skip(cw(k).len() as int));
    assert(cw(l) + Seq::<u8>::empty() =~= cw(l));
    lemma_cw_prefix_free(j, l, Seq::empty());
}
} // verus!
