verus! {
/// std::collections::VecDeque: a sequence with two ends
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { v: Vec<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>)
        ensures r is Some == (self@.len() > 0), r is Some ==> *r->0 == self@[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn front_mut(&mut self) -> (r: Option<&mut T>)
        ensures r is Some == (old(self)@.len() > 0), match r { Some(x) => *x == old(self)@[0] && final(self)@ == old(self)@.update(0, *final(x)), None => final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
}
/// `&mut d[i]`
#[verifier::external_body]
pub fn vx_at_mut<T>(d: &mut VecDeque<T>, i: usize) -> (r: &mut T)
    requires i < old(d)@.len()
    ensures *r == old(d)@[i as int], final(d)@ == old(d)@.update(i as int, *final(r)) { unimplemented!() }
/// `for x in &d`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DqIter<'a, T> { p: &'a T }
impl<'a, T> DqIter<'a, T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).all() == old(self).all(), match r {
            None => old(self).pos() >= old(self).all().len() && final(self).pos() == old(self).pos(),
            Some(b) => old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1 && *b == old(self).all()[old(self).pos() as int],
        } { unimplemented!() }
}
#[verifier::external_body]
pub fn dq_iter<'a, T>(d: &'a VecDeque<T>) -> (r: DqIter<'a, T>) ensures r.all() == d@, r.pos() == 0 { unimplemented!() }

/// the octets of a list of buffers
pub open spec fn bcat<T: Buf>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { bcat(s.drop_last()) + s.last().bytes() } }
pub proof fn lemma_bcat_add<T: Buf>(a: Seq<T>, b: Seq<T>)
    ensures bcat(a + b) == bcat(a) + bcat(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(bcat(a) + bcat(b) =~= bcat(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_bcat_add(a, b.drop_last()); assert(bcat(a + b) =~= bcat(a) + bcat(b)); }
}
pub proof fn lemma_bcat_one<T: Buf>(x: T) ensures bcat(seq![x]) == x.bytes() {
    assert(seq![x].drop_last() =~= Seq::<T>::empty()); assert(bcat(Seq::<T>::empty()) =~= Seq::<u8>::empty()); assert(bcat(seq![x]) =~= x.bytes());
}
pub proof fn lemma_bcat_first<T: Buf>(s: Seq<T>)
    requires s.len() > 0
    ensures bcat(s) == s[0].bytes() + bcat(s.skip(1))
{ assert(s =~= seq![s[0]] + s.skip(1)); lemma_bcat_add(seq![s[0]], s.skip(1)); lemma_bcat_one(s[0]); }
pub proof fn lemma_bcat_push<T: Buf>(s: Seq<T>, x: T) ensures bcat(s.push(x)) == bcat(s) + x.bytes() { assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_bcat_take<T: Buf>(s: Seq<T>, k: int)
    requires 0 <= k < s.len()
    ensures bcat(s.take(k + 1)) == bcat(s.take(k)) + s[k].bytes(), bcat(s) == bcat(s.take(k + 1)) + bcat(s.skip(k + 1))
{ assert(s.take(k + 1) =~= s.take(k).push(s[k])); lemma_bcat_push(s.take(k), s[k]); assert(s =~= s.take(k + 1) + s.skip(k + 1)); lemma_bcat_add(s.take(k + 1), s.skip(k + 1)); }
/// `d.iter().map(|b| b.remaining()).sum()`
pub fn vx_sum_remaining<T: Buf>(d: &VecDeque<T>) -> (r: usize)
    requires bcat(d@).len() <= usize::MAX, forall|i: int| 0 <= i < d@.len() ==> (#[trigger] d@[i]).bok()
    ensures r == bcat(d@).len()
{
    let mut i = 0; let mut n = 0usize;
    proof { assert(d@.take(0) =~= Seq::<T>::empty()); }
    while i < d.len()
        invariant i <= d@.len(), n == bcat(d@.take(i as int)).len(), bcat(d@).len() <= usize::MAX, forall|i: int| 0 <= i < d@.len() ==> (#[trigger] d@[i]).bok()
        decreases d@.len() - i
    {
        proof { lemma_bcat_take(d@, i as int); }
        n = n + d.vx_at(i).remaining();
        i = i + 1;
    }
    proof { assert(d@.take(i as int) =~= d@); }
    n
}
/// `d.front().map(Buf::chunk).unwrap_or_default()`
pub fn vx_front_chunk<T: Buf>(d: &VecDeque<T>) -> (r: &[u8])
    requires d@.len() > 0 ==> d@[0].bok()
    ensures d@.len() == 0 ==> r@.len() == 0, r@.len() > 0 || d@.len() == 0 || d@[0].bytes().len() == 0,
        d@.len() > 0 ==> r@.len() <= d@[0].bytes().len() && r@ == d@[0].bytes().take(r@.len() as int)
{
    match d.front() { Some(b) => b.chunk(), None => vx_slice(&[]) }
}
//@ source src/common/buf.rs
//@ gsubst `$s.iter().map(|$v| $v.len()).sum()` => `vx_sum_len($s)`
//@ gsubst `$s.iter().map(|$v| $v.remaining()).sum()` => `vx_sum_remaining(&$s)`
//@ gsubst `$s.front().map(Buf::chunk).unwrap_or_default()` => `vx_front_chunk(&$s)`
//@ gsubst `&mut self.bufs[$i]` => `vx_at_mut(&mut self.bufs, $i)`
//@ gsubst `&mut dst[$a..]` => `vx_tail_mut(dst, $a)`
//@ gsubst `&dst[$a..$b]` => `vx_sub(dst, $a, $b)`
//@ fn slices_len
    requires iocat(slices@).len() <= usize::MAX
    ensures r == iocat(slices@).len()
//@ item struct BufList attr="reject_recursive_types(T)"
impl<T: Buf> BufList<T> {
    pub open spec fn cat(&self) -> Seq<u8> { bcat(self.bufs@) }
    pub open spec fn elems_ok(&self) -> bool { forall|i: int| 0 <= i < self.bufs@.len() ==> (#[trigger] self.bufs@[i]).bok() && self.bufs@[i].vok() && self.bufs@[i].bytes().len() > 0 }
}
//@ fn BufList::new
    ensures r.bufs@.len() == 0, r.bok(), r.bytes().len() == 0
//@ fn BufList::push
    requires old(self).bok(), buf.bok(), buf.vok(), buf.bytes().len() > 0, old(self).bytes().len() + buf.bytes().len() <= usize::MAX
    ensures final(self).bok(), final(self).bytes() == old(self).bytes() + buf.bytes(), final(self).bufs@ == old(self).bufs@.push(buf)
//@ ghost start
proof { lemma_bcat_push(self.bufs@, buf); }
//@ fn BufList::bufs_cnt
    ensures r == self.bufs@.len()
//@ impl <Buf for BufList> `impl<T: Buf> Buf for BufList<T>`
    open spec fn bytes(&self) -> Seq<u8> { self.cat() }
    open spec fn bok(&self) -> bool { self.elems_ok() && self.cat().len() <= usize::MAX }
    open spec fn vok(&self) -> bool { true }
    open spec fn contig(&self) -> bool { false }
    open spec fn whole(&self) -> bool { forall|i: int| 0 <= i < self.bufs@.len() ==> (#[trigger] self.bufs@[i]).whole() }
//@ fn remaining
//@ fn chunk
//@ ghost start
proof { if self.bufs@.len() > 0 { lemma_bcat_first(self.bufs@);
    assert forall|k: int| 0 <= k <= self.bufs@[0].bytes().len() implies #[trigger] self.bufs@[0].bytes().take(k) == self.bytes().take(k) by { assert(self.bufs@[0].bytes().take(k) =~= self.bytes().take(k)); } } }
//@ fn advance attr="loop_isolation(false)"
    ensures final(self).bufs@.len() <= old(self).bufs@.len()
//@ loop 0
    invariant
        self.bok(), cnt <= self.bytes().len(), self.bytes().skip(cnt as int) == old(self).bytes().skip(old_cnt as int), old(self).whole() ==> self.whole(),
        self.bufs@.len() <= old(self).bufs@.len(),
    decreases self.bufs@.len()
//@ ghost start
let ghost old_cnt = cnt;
//@ ghost loop 0 start
let ghost o = *self;
let ghost oc = cnt;
proof { lemma_bcat_first(self.bufs@); }
//@ ghost loop 0 end
proof { assert(self.bufs@ =~= o.bufs@.skip(1)); assert(self.bytes().skip(cnt as int) =~= o.bytes().skip(oc as int));
   assert forall|i: int| 0 <= i < self.bufs@.len() implies (#[trigger] self.bufs@[i]).bok() && self.bufs@[i].vok() && self.bufs@[i].bytes().len() > 0 by { assert(self.bufs@[i] == o.bufs@[i + 1]); }
   assert(old(self).whole() ==> self.whole()) by { assert forall|i: int| 0 <= i < self.bufs@.len() && o.whole() implies (#[trigger] self.bufs@[i]).whole() by { assert(self.bufs@[i] == o.bufs@[i + 1]); } }
}
//@ ghost end
proof { assert(self.bytes().skip(0) =~= self.bytes()); }
//@ ghost before `return`
proof { lemma_bcat_first(self.bufs@); assert(self.bufs@.skip(1) =~= o.bufs@.skip(1)); assert(self.bytes() =~= o.bytes().skip(oc as int)); }
//@ fn chunks_vectored for0=fn:dq_iter attr="exec_allows_no_decreases_clause;loop_isolation(false);allow_complex_invariants"
//@ loop 0
    invariant_except_break
        iocat(dst@.take(vecs as int)) == bcat(self.bufs@.take(vx_it0.pos() as int)),
        vecs < dst@.len(),
        vx_it0.pos() > 0 ==> vecs > 0,
    invariant
        self.bok(), dst@.len() == old(dst)@.len(), vx_it0.all() == self.bufs@, vx_it0.pos() <= self.bufs@.len(), vecs <= dst@.len(),
        listed(self.bytes(), dst@, vecs as int), vx_it0.pos() == 0 ==> vecs == 0,
        vx_it0.pos() > 0 ==> iocat(dst@.take(vecs as int)).len() > 0,
    ensures
        self.bufs@.len() > 0 ==> vx_it0.pos() > 0,
        self.whole() && vecs < dst@.len() ==> iocat(dst@.take(vecs as int)) == self.bytes(),
//@ ghost start
proof { assert(dst@.take(0) =~= Seq::<IoSlice>::empty()); assert(self.bufs@.take(0) =~= Seq::<T>::empty()); assert(self.bytes().take(0) =~= Seq::<u8>::empty()); 
   assert(self.bufs@.take(self.bufs@.len() as int) =~= self.bufs@);
   if self.bufs@.len() > 0 { lemma_bcat_first(self.bufs@); assert(self.bufs@[0].bytes().len() > 0); }
   assert(self.bytes().take(self.bytes().len() as int) =~= self.bytes());
}
//@ ghost loop 0 start
let ghost d0 = dst@;
let ghost v0 = vecs as int;
let ghost p0 = vx_it0.pos() - 1;
proof { lemma_bcat_take(self.bufs@, p0); assert(self.bufs@[p0].bytes().len() > 0); }
//@ ghost before `let listed`
proof { assert(dst@.subrange(vecs as int, vecs + n) =~= dst@.skip(v0).take(n as int)); }
//@ ghost after `vecs += n;`
proof {
    assert(bcat(self.bufs@.take(p0)).take(bcat(self.bufs@.take(p0)).len() as int) =~= bcat(self.bufs@.take(p0)));
    assert(dst@.take(v0) =~= d0.take(v0));
    lemma_chain_listed(bcat(self.bufs@.take(p0)), self.bufs@[p0].bytes(), d0, dst@, v0, n as int);
    lemma_part_listed(bcat(self.bufs@.take(p0 + 1)), bcat(self.bufs@.skip(p0 + 1)), dst@, vecs as int);
    assert(dst@.take(vecs as int) =~= d0.take(v0) + dst@.skip(v0).take(n as int));
    lemma_iocat_add(d0.take(v0), dst@.skip(v0).take(n as int));
    assert(self.bufs@[p0].bytes().take(self.bufs@[p0].bytes().len() as int) =~= self.bufs@[p0].bytes());
}
//@ endimpl
//@ end
} // verus!
