verus! {
// ---- &str, as a sequence of chars; every operation here is only specified for
// ---- the visible-ASCII strings HeaderValue::to_str yields (assumed contracts)
pub open spec fn vis(b: u8) -> bool { b == 0x09 || 0x20 <= b <= 0x7e }
pub open spec fn allvis(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> vis(#[trigger] v[i]) }
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
/// a str whose chars are visible ASCII octets
pub open spec fn sv(s: &str) -> bool { s.is_ascii() && allvis(bytes_of(s@)) }
pub open spec fn lw(b: u8) -> u8 { if 0x41 <= b <= 0x5a { (b + 0x20) as u8 } else { b } }
pub open spec fn lws(v: Seq<u8>) -> Seq<u8> { Seq::new(v.len(), |i: int| lw(v[i])) }
pub open spec fn ows(b: u8) -> bool { b == 0x20 || b == 0x09 }
pub open spec fn trim_l(v: Seq<u8>) -> Seq<u8> decreases v.len() { if v.len() > 0 && ows(v[0]) { trim_l(v.skip(1)) } else { v } }
pub open spec fn trim_r(v: Seq<u8>) -> Seq<u8> decreases v.len() { if v.len() > 0 && ows(v.last()) { trim_r(v.drop_last()) } else { v } }
pub open spec fn trim(v: Seq<u8>) -> Seq<u8> { trim_r(trim_l(v)) }
/// comma-separated members (always at least one)
pub open spec fn members(v: Seq<u8>) -> Seq<Seq<u8>> decreases v.len() {
    if v.len() == 0 { seq![Seq::<u8>::empty()] }
    else if v.last() == 0x2c { members(v.drop_last()).push(Seq::<u8>::empty()) }
    else { let m = members(v.drop_last()); m.drop_last().push(m.last().push(v.last())) }
}
pub proof fn lemma_members_len(v: Seq<u8>)
    ensures members(v).len() >= 1
    decreases v.len()
{ if v.len() > 0 { lemma_members_len(v.drop_last()); } }
pub open spec fn lit(s: Seq<char>) -> Seq<u8> { bytes_of(s) }

pub trait StrX {
    fn vx_trim(&self) -> (r: &str);
    fn vx_eqic(&self, o: &str) -> (r: bool);
    fn vx_split<'a>(&'a self, c: char) -> (r: SplitIter<'a>);
    fn vx_rsplit<'a>(&'a self, c: char) -> (r: RSplitIter<'a>);
}
impl StrX for str {
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) ensures sv(self) ==> sv(r) && bytes_of(r@) == trim(bytes_of(self@)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_eqic(&self, o: &str) -> (r: bool) ensures sv(self) ==> r == (lws(bytes_of(self@)) == lws(bytes_of(o@))) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split<'a>(&'a self, c: char) -> (r: SplitIter<'a>)
        ensures c == ',' && sv(self) ==> r.parts() == members(bytes_of(self@)) && r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn vx_rsplit<'a>(&'a self, c: char) -> (r: RSplitIter<'a>)
        ensures c == ',' && sv(self) ==> r.parts() == members(bytes_of(self@)) && r.pos() == 0 { unimplemented!() }
}
#[verifier::external_body]
pub struct SplitIter<'a> { p: &'a u8 }
impl<'a> SplitIter<'a> {
    pub uninterp spec fn parts(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).parts() == old(self).parts(), match r {
            None => old(self).pos() >= old(self).parts().len() && final(self).pos() == old(self).pos(),
            Some(s) => old(self).pos() < old(self).parts().len() && final(self).pos() == old(self).pos() + 1
                && sv(s) && bytes_of(s@) == old(self).parts()[old(self).pos() as int],
        } { unimplemented!() }
}
#[verifier::external_body]
pub struct RSplitIter<'a> { p: &'a u8 }
impl<'a> RSplitIter<'a> {
    pub uninterp spec fn parts(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).parts() == old(self).parts(), match r {
            None => old(self).pos() >= old(self).parts().len() && final(self).pos() == old(self).pos(),
            Some(s) => old(self).pos() < old(self).parts().len() && final(self).pos() == old(self).pos() + 1
                && sv(s) && bytes_of(s@) == old(self).parts()[old(self).parts().len() - 1 - old(self).pos()],
        } { unimplemented!() }
}
pub struct ToStrError { pub u: u8 }
impl HeaderValue {
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Result<&str, ToStrError>)
        ensures r is Ok == allvis(self@), match r { Ok(s) => sv(s) && bytes_of(s@) == self@, Err(_) => true } { unimplemented!() }
}
// ---- all values of one field name, in order ---------------------------------
pub open spec fn hm_vals(m: Seq<Ent>, n: HeaderName) -> Seq<HeaderValue> decreases m.len() {
    if m.len() == 0 { Seq::empty() } else if m.last().name == n { m.last().vals } else { hm_vals(m.drop_last(), n) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ValueIter<'a, T> { p: &'a T }
impl<'a> ValueIter<'a, HeaderValue> {
    pub uninterp spec fn all(&self) -> Seq<HeaderValue>;
    pub uninterp spec fn lo(&self) -> nat;
    pub uninterp spec fn hi(&self) -> nat;
    pub open spec fn fresh(&self, s: Seq<HeaderValue>) -> bool { self.all() == s && self.lo() == 0 && self.hi() == s.len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a HeaderValue>)
        ensures final(self).all() == old(self).all(), final(self).hi() == old(self).hi(), match r {
            None => old(self).lo() >= old(self).hi() && final(self).lo() == old(self).lo(),
            Some(v) => old(self).lo() < old(self).hi() && final(self).lo() == old(self).lo() + 1 && *v == old(self).all()[old(self).lo() as int],
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a HeaderValue>)
        ensures final(self).all() == old(self).all(), final(self).lo() == old(self).lo(), match r {
            None => old(self).lo() >= old(self).hi() && final(self).hi() == old(self).hi(),
            Some(v) => old(self).lo() < old(self).hi() && final(self).hi() == old(self).hi() - 1 && *v == old(self).all()[old(self).hi() - 1],
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(&HeaderValue) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|v: &HeaderValue| #[trigger] f.requires((v,))
        ensures
            r ==> exists|i: int| old(self).lo() <= i < old(self).hi() && f.ensures((&(#[trigger] old(self).all()[i]),), true),
            !r ==> forall|i: int| old(self).lo() <= i < old(self).hi() ==> f.ensures((&(#[trigger] old(self).all()[i]),), false),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct GetAll<'a, T> { p: &'a T }
impl<'a> GetAll<'a, HeaderValue> {
    pub uninterp spec fn vals(&self) -> Seq<HeaderValue>;
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: ValueIter<'a, HeaderValue>) ensures r.fresh(self.vals()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: ValueIter<'a, HeaderValue>) ensures r.fresh(self.vals()) { unimplemented!() }
}
pub trait HName { spec fn hname(&self) -> HeaderName; }
impl HName for HeaderName { open spec fn hname(&self) -> HeaderName { *self } }
impl HName for &HeaderName { open spec fn hname(&self) -> HeaderName { **self } }
impl HeaderMap {
    #[verifier::external_body]
    pub fn get_all<'a, N: HName>(&'a self, n: N) -> (r: GetAll<'a, HeaderValue>) ensures r.vals() == hm_vals(self@, n.hname()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a, N: HName>(&'a self, n: N) -> (r: Option<&'a HeaderValue>)
        ensures match r { Some(v) => hm_vals(self@, n.hname()).len() > 0 && *v == hm_vals(self@, n.hname())[0], None => hm_vals(self@, n.hname()).len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<N: HName>(&self, n: N) -> (r: bool) ensures r == (hm_vals(self@, n.hname()).len() > 0) { unimplemented!() }
}
// ---- loops over foreign iterators -------------------------------------------
pub trait VxIter: Sized { type It; fn vx_iter(self) -> (r: Self::It); }
impl<'a> VxIter for ValueIter<'a, HeaderValue> { type It = Self; fn vx_iter(self) -> (r: Self) ensures r == self { self } }
impl<'a> VxIter for SplitIter<'a> { type It = Self; fn vx_iter(self) -> (r: Self) ensures r == self { self } }
impl<'a> VxIter for RSplitIter<'a> { type It = Self; fn vx_iter(self) -> (r: Self) ensures r == self { self } }
#[verifier::external_body]
pub struct SliceIter<'a> { p: &'a u8 }
impl<'a> SliceIter<'a> {
    pub uninterp spec fn all(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a u8>)
        ensures final(self).all() == old(self).all(), match r {
            None => old(self).pos() >= old(self).all().len() && final(self).pos() == old(self).pos(),
            Some(b) => old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1 && *b == old(self).all()[old(self).pos() as int],
        } { unimplemented!() }
}
impl<'a> VxIter for &'a [u8] { type It = SliceIter<'a>;
    #[verifier::external_body]
    fn vx_iter(self) -> (r: SliceIter<'a>) ensures r.all() == self@, r.pos() == 0 { unimplemented!() } }

// ---- changing a HeaderMap, and its entries (assumed contracts) -----------------
pub open spec fn only(m: Seq<Ent>, w: Seq<Ent>, n: HeaderName, vs: Seq<HeaderValue>) -> bool {
    forall|x: HeaderName| #[trigger] hm_vals(w, x) == (if x == n { vs } else { hm_vals(m, x) })
}
/// the forms of key a header is removed by
pub trait HKey { spec fn keys(&self, n: HeaderName) -> bool; }
impl HKey for HeaderName { open spec fn keys(&self, n: HeaderName) -> bool { n == *self } }
impl HKey for &HeaderName { open spec fn keys(&self, n: HeaderName) -> bool { n == **self } }
pub struct OccupiedEntry<'a, T> { pub map: &'a mut HeaderMap, pub key: HeaderName, pub t: core::marker::PhantomData<T> }
pub struct VacantEntry<'a> { pub map: &'a mut HeaderMap, pub key: HeaderName }
pub enum Entry<'a> { Occupied(OccupiedEntry<'a, HeaderValue>), Vacant(VacantEntry<'a>) }
impl HeaderMap {
    /// other names keep their values (their position among the others may change)
    #[verifier::external_body]
    pub fn remove<K: HKey>(&mut self, k: K) -> (r: Option<HeaderValue>)
        ensures
            forall|n: HeaderName| #[trigger] hm_vals(final(self)@, n) == (if k.keys(n) { Seq::<HeaderValue>::empty() } else { hm_vals(old(self)@, n) }),
            forall|n: HeaderName| k.keys(n) && r is None ==> #[trigger] hm_vals(old(self)@, n).len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<N: HName>(&mut self, k: N, v: HeaderValue) -> (r: Option<HeaderValue>)
        ensures only(old(self)@, final(self)@, k.hname(), seq![v]), r is None <==> hm_vals(old(self)@, k.hname()).len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a, N: HName>(&'a mut self, k: N) -> (r: Entry<'a>)
        ensures match r {
            Entry::Occupied(e) => *e.map == *old(self) && *final(e.map) == *final(self) && e.key == k.hname() && hm_vals(old(self)@, k.hname()).len() > 0,
            Entry::Vacant(e) => *e.map == *old(self) && *final(e.map) == *final(self) && e.key == k.hname() && hm_vals(old(self)@, k.hname()).len() == 0,
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'t, N: HName>(&'t mut self, k: N) -> (r: Option<&'t mut HeaderValue>)
        ensures ({
            let vs = hm_vals(old(self)@, k.hname());
            match r {
                None => vs.len() == 0 && final(self)@ == old(self)@,
                Some(v) => vs.len() > 0 && *v == vs[0] && only(old(self)@, final(self)@, k.hname(), vs.update(0, *final(v))),
            } }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == hm_lines(self@).len(), r < 0x10000 { unimplemented!() }
    #[verifier::external_body]
    pub fn keys_len(&self) -> (r: usize) ensures r == self@.len(), r < 0x10000 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), r == (hm_lines(self@).len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<Ent>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: KeyIter<'a>) ensures r.ents() == self@, r.pos() == 0, hm_wf(self@) { unimplemented!() }
}
impl<'a> Entry<'a> {
    #[verifier::external_body]
    pub fn or_insert(self, v: HeaderValue) -> (r: &'a mut HeaderValue)
        ensures match self {
            Entry::Occupied(e) => *r == hm_vals((*e.map)@, e.key)[0] && only((*e.map)@, (*final(e.map))@, e.key, hm_vals((*e.map)@, e.key).update(0, *final(r))),
            Entry::Vacant(e) => *r == v && only((*e.map)@, (*final(e.map))@, e.key, seq![*final(r)]),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> HeaderValue>(self, f: F) -> (r: &'a mut HeaderValue)
        requires f.requires(())
        ensures match self {
            Entry::Occupied(e) => *r == hm_vals((*e.map)@, e.key)[0] && only((*e.map)@, (*final(e.map))@, e.key, hm_vals((*e.map)@, e.key).update(0, *final(r))),
            Entry::Vacant(e) => f.ensures((), *r) && only((*e.map)@, (*final(e.map))@, e.key, seq![*final(r)]),
        } { unimplemented!() }
}
impl<'a> OccupiedEntry<'a, HeaderValue> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: ValueIter<'_, HeaderValue>) ensures r.fresh(hm_vals(old(self.map)@, self.key)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: &HeaderValue) ensures hm_vals(old(self.map)@, self.key).len() > 0, *r == hm_vals(old(self.map)@, self.key)[0] { unimplemented!() }
    /// replaces every value
    #[verifier::external_body]
    pub fn insert(&mut self, v: HeaderValue) -> (r: HeaderValue)
        ensures final(self).key == old(self).key, only(old(self).map@, final(self).map@, old(self).key, seq![v]), *final(final(self).map) == *final(old(self).map) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, v: HeaderValue)
        ensures final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map),
            only(old(self).map@, final(self).map@, old(self).key, hm_vals(old(self).map@, old(self).key).push(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: HeaderValue)
        ensures only(old(self.map)@, final(self.map)@, self.key, Seq::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'t>(&'t mut self) -> (r: &'t mut HeaderValue)
        ensures final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map), ({
            let vs = hm_vals(old(self).map@, old(self).key);
            vs.len() > 0 && *r == vs[0] && only(old(self).map@, final(self).map@, old(self).key, vs.update(0, *final(r))) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut HeaderValue)
        ensures ({
            let vs = hm_vals(old(self.map)@, self.key);
            vs.len() > 0 && *r == vs[0] && only(old(self.map)@, final(self.map)@, self.key, vs.update(0, *final(r))) }) { unimplemented!() }
    /// `.iter_mut().next_back()`
    #[verifier::external_body]
    pub fn vx_last_mut<'t>(&'t mut self) -> (r: Option<&'t mut HeaderValue>)
        ensures final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map), ({
            let vs = hm_vals(old(self).map@, old(self).key);
            match r {
                None => vs.len() == 0 && final(self).map@ == old(self).map@,
                Some(v) => vs.len() > 0 && *v == vs.last() && only(old(self).map@, final(self).map@, old(self).key, vs.drop_last().push(*final(v))),
            } }) { unimplemented!() }
}
impl<'a> VacantEntry<'a> {
    #[verifier::external_body]
    pub fn insert(self, v: HeaderValue) -> (r: &'a mut HeaderValue) ensures *r == v, only(old(self.map)@, final(self.map)@, self.key, seq![*final(r)]) { unimplemented!() }
}
#[verifier::external_body]
pub struct KeyIter<'a> { p: &'a u8 }
impl<'a> KeyIter<'a> {
    pub uninterp spec fn ents(&self) -> Seq<Ent>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a HeaderName>)
        ensures final(self).ents() == old(self).ents(), match r {
            None => old(self).pos() >= old(self).ents().len() && final(self).pos() == old(self).pos(),
            Some(n) => old(self).pos() < old(self).ents().len() && final(self).pos() == old(self).pos() + 1 && *n == old(self).ents()[old(self).pos() as int].name,
        } { unimplemented!() }
}
impl<'a> VxIter for KeyIter<'a> { type It = Self; fn vx_iter(self) -> (r: Self) ensures r == self { self } }
// ---- values compared with text ---------------------------------------------------
impl HeaderValue {
    #[verifier::external_body]
    pub fn from_static(s: &'static str) -> (r: HeaderValue) ensures r@ == lit(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: HeaderValue) ensures r@ == self@ { unimplemented!() }
}
pub uninterp spec fn hv_is(v: HeaderValue, s: Seq<char>) -> bool;
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for HeaderValue {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { if o.is_ascii() { self@ == lit(o@) } else { hv_is(*self, o@) } }
}
impl PartialEq<str> for HeaderValue {
    #[verifier::external_body]
    fn eq(&self, o: &str) -> (r: bool) { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a str> for HeaderValue {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a str) -> bool { if o.is_ascii() { self@ == lit(o@) } else { hv_is(*self, o@) } }
}
impl<'a> PartialEq<&'a str> for HeaderValue {
    #[verifier::external_body]
    fn eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<HeaderValue> for HeaderValue {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &HeaderValue) -> bool { self@ == o@ }
}
impl PartialEq<HeaderValue> for HeaderValue {
    #[verifier::external_body]
    fn eq(&self, o: &HeaderValue) -> (r: bool) { unimplemented!() }
}
// ---- what header values mean --------------------------------------------------
pub open spec fn dig(b: u8) -> bool { 0x30 <= b <= 0x39 }
pub open spec fn digits(v: Seq<u8>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> dig(#[trigger] v[i]) }
pub open spec fn dval(v: Seq<u8>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { 10 * dval(v.drop_last()) + (v.last() - 0x30) as nat } }
/// a number: one or more digits, at most 64 bits
pub open spec fn num(v: Seq<u8>) -> Option<u64> { if digits(v) && dval(v) <= u64::MAX { Some(dval(v) as u64) } else { None } }
/// one field line: each comma-separated member, trimmed
pub open spec fn line_nums(v: Seq<u8>, k: nat) -> Seq<Option<u64>> { Seq::new(k, |i: int| num(trim(members(v)[i]))) }
/// every line is text and every member of it is n
pub open spec fn line_is(v: Seq<u8>, n: u64) -> bool { allvis(v) && forall|i: int| 0 <= i < members(v).len() ==> num(trim(#[trigger] members(v)[i])) == Some(n) }
pub open spec fn all_are(vs: Seq<HeaderValue>, n: u64) -> bool { vs.len() > 0 && forall|i: int| 0 <= i < vs.len() ==> line_is(#[trigger] vs[i]@, n) }
pub open spec fn lowtok(v: Seq<u8>, t: Seq<u8>) -> bool { lws(trim(v)) == lws(t) }
pub open spec fn has_tok(v: Seq<u8>, t: Seq<u8>) -> bool { allvis(v) && exists|i: int| 0 <= i < members(v).len() && lowtok(#[trigger] members(v)[i], t) }
pub open spec fn any_tok(vs: Seq<HeaderValue>, t: Seq<u8>) -> bool { exists|i: int| 0 <= i < vs.len() && has_tok(#[trigger] vs[i]@, t) }
pub open spec fn t_close() -> Seq<u8> { lit("close"@) }
pub open spec fn t_keep() -> Seq<u8> { lit("keep-alive"@) }
pub open spec fn t_chunked() -> Seq<u8> { lit("chunked"@) }
pub open spec fn t_trailers() -> Seq<u8> { lit("trailers"@) }
/// the final transfer coding of a line is chunked
pub open spec fn ends_chunked(v: Seq<u8>) -> bool { allvis(v) && lowtok(members(v).last(), t_chunked()) }
} // verus!
