//@ include prelude.rs
//@ include http.rs
//@ include hdrspec.rs
verus! {
use header::*;
pub mod http { pub use super::HeaderMap; pub mod header { pub use super::super::header::*; pub use super::super::{HeaderValue, HeaderName, ValueIter}; } }
} // verus!
//@ include hdrfns.rs
verus! {
/// not vacuous: the specification reads plain numbers and nothing else
pub proof fn witness_num()
    ensures
        num(seq![0x30u8, 0x37, 0x32]) == Some(72u64), num(Seq::empty()) is None, num(seq![0x2bu8, 0x31]) is None, num(seq![0x31u8, 0x20]) is None,
{
    reveal_with_fuel(dval, 4);
    let v = seq![0x30u8, 0x37, 0x32];
    assert(v.drop_last().drop_last() =~= seq![0x30u8]);
    assert(v.drop_last() =~= seq![0x30u8, 0x37]);
    assert(v.drop_last().drop_last().drop_last() =~= Seq::<u8>::empty());
    assert(digits(v));
    assert(!dig(seq![0x2bu8, 0x31][0]));
    assert(!dig(seq![0x31u8, 0x20][1]));
}
pub proof fn witness_members()
    ensures members(seq![0x61u8, 0x2c, 0x62]) == seq![seq![0x61u8], seq![0x62u8]],
        ends_chunked(t_chunked()) , !ends_chunked(seq![0x67u8])
{
    reveal_with_fuel(members, 9);
    let v = seq![0x61u8, 0x2c, 0x62];
    assert(v.drop_last() =~= seq![0x61u8, 0x2c]);
    assert(v.drop_last().drop_last() =~= seq![0x61u8]);
    assert(v.drop_last().drop_last().drop_last() =~= Seq::<u8>::empty());
    assert(members(seq![0x61u8]) =~= seq![seq![0x61u8]]) by { assert(Seq::<u8>::empty().push(0x61u8) =~= seq![0x61u8]); assert(seq![Seq::<u8>::empty()].drop_last() =~= Seq::<Seq<u8>>::empty()); }
    assert(members(seq![0x61u8, 0x2c]) =~= seq![seq![0x61u8], Seq::<u8>::empty()]);
    assert(Seq::<u8>::empty().push(0x62u8) =~= seq![0x62u8]);
    assert(members(v) =~= seq![seq![0x61u8], seq![0x62u8]]);
    reveal_strlit("chunked");
    let c = t_chunked();
    lemma_nocomma(c);
    assert(allvis(c));
    reveal_with_fuel(trim_l, 2); reveal_with_fuel(trim_r, 2);
    assert(trim(c) =~= c);
    let g = seq![0x67u8];
    lemma_nocomma(g);
    assert(trim(g) =~= g);
    assert(lws(g).len() != lws(c).len());
}
pub proof fn lemma_nocomma(v: Seq<u8>)
    requires forall|i: int| 0 <= i < v.len() ==> v[i] != 0x2c
    ensures members(v) == seq![v]
    decreases v.len()
{
    if v.len() > 0 {
        lemma_nocomma(v.drop_last());
        assert(v.drop_last().push(v.last()) =~= v);
        assert(seq![v.drop_last()].drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(members(v) =~= seq![v]);
    } else { assert(v =~= Seq::<u8>::empty()); }
}
} // verus!
fn main() {}
