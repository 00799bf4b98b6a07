//@ include prelude.rs
//@ include http.rs
//@ include hdrspec.rs
//@ include headwrite.rs
//@ include httpcore.rs
//@ include outhead.rs
verus! {
pub struct Client {}
pub mod headers { pub use super::{content_length_parse_all, content_length_parse_all_values, is_chunked, is_chunked_, add_chunked}; }
pub open spec fn rest(m: Seq<Ent>, w: Seq<Ent>, n: HeaderName) -> bool { forall|x: HeaderName| x != n ==> #[trigger] hm_vals(w, x) == hm_vals(m, x) }
/// a value is text a header may hold
pub open spec fn hvok(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == 0x09 || 0x20 <= v[i] && v[i] != 0x7f }
#[verifier::external_body]
pub proof fn axiom_hvok(v: HeaderValue) ensures hvok(v@) {}
impl HeaderValue {
    /// `HeaderValue::from(u64)`
    #[verifier::external_body]
    pub fn from(n: u64) -> (r: HeaderValue) ensures decimal(r@, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_maybe_shared(b: Bytes) -> (r: Result<HeaderValue, ()>) ensures r is Ok == hvok(b@), r matches Ok(v) ==> v@ == b@ { unimplemented!() }
}
/// a HeaderMap holds each name once, with at least one value
#[verifier::external_body]
pub proof fn axiom_hm_wf(h: HeaderMap) ensures hm_wf(h@) {}
impl<'a> VxIter for GetAll<'a, HeaderValue> { type It = ValueIter<'a, HeaderValue>; fn vx_iter(self) -> (r: Self::It) ensures r.fresh(self.vals()) { self.into_iter() } }
pub fn vx_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures s.is_ascii() ==> r@ == bytes_of(s@) { let r = s.as_bytes(); assert(s.is_ascii() ==> r@ =~= bytes_of(s@)); r }
/// whether debug assertions are compiled in: either
#[verifier::external_body]
pub fn vx_debug() -> bool { unimplemented!() }
/// the field names the Trailer values list
#[verifier::external_body]
pub fn vx_trailer_names(h: &HeaderMap) -> Vec<HeaderName> { unimplemented!() }
// ---- what is to be sent ---------------------------------------------------------------------
pub open spec fn te(m: Seq<Ent>) -> Seq<HeaderValue> { hm_vals(m, TRANSFER_ENCODING) }
pub open spec fn cl(m: Seq<Ent>) -> Seq<HeaderValue> { hm_vals(m, CONTENT_LENGTH) }
/// the length the caller gave, if it is one
pub open spec fn given(m: Seq<Ent>) -> bool { exists|n: u64| all_are(cl(m), n) }
/// what the head says of the end of the body is what the encoder does
pub open spec fn agree(v10: bool, t: Seq<Seq<u8>>, c: Seq<Seq<u8>>, k: Kind) -> bool {
    if t.len() > 0 { !v10 && c.len() == 0 && k is Chunked && fin_chunked(t.last()) }
    else if c.len() > 0 { k is Length && lens_are(c, k->Length_0) }
    else { k == Kind::Length(0) }
}
/// methods that rarely have a body
pub open spec fn bodiless(m: Method) -> bool { m == Method::GET || m == Method::HEAD || m == Method::CONNECT }
/// which delimiter is used for which body
pub open spec fn meant(v10: bool, m: Method, b: Option<BodyLength>, h0: Seq<Ent>, k: Kind) -> bool {
    match b {
        None => k == Kind::Length(0),
        Some(b) =>
            if !v10 && te(h0).len() > 0 { k is Chunked }
            else if given(h0) { k is Length && all_are(cl(h0), k->Length_0) }
            else { match b {
                BodyLength::Known(n) => k == Kind::Length(n),
                BodyLength::Unknown => if v10 || bodiless(m) { k == Kind::Length(0) } else { k is Chunked },
            } },
    }
}
/// fields that do not delimit the body go out as given
pub open spec fn others(h0: Seq<Ent>, h: Seq<Ent>) -> bool {
    forall|n: HeaderName| n != TRANSFER_ENCODING && n != CONTENT_LENGTH ==> #[trigger] hm_vals(h, n) == hm_vals(h0, n)
}
pub proof fn lemma_octs(vs: Seq<HeaderValue>, n: u64)
    ensures lens_are(octs(vs), n) == all_are(vs, n), vs.len() > 0 ==> octs(vs).last() == vs.last()@
{ assert(octs(vs).len() == vs.len());
  if all_are(vs, n) { assert forall|i: int| 0 <= i < vs.len() implies line_is(#[trigger] octs(vs)[i], n) by { assert(line_is(vs[i]@, n)); } }
  if lens_are(octs(vs), n) { assert forall|i: int| 0 <= i < vs.len() implies line_is(#[trigger] vs[i]@, n) by { assert(line_is(octs(vs)[i], n)); } } }
pub proof fn lemma_all_are_one(vs: Seq<HeaderValue>, a: u64, b: u64)
    requires all_are(vs, a), all_are(vs, b) ensures a == b
{ assert(line_is(vs[0]@, a) && line_is(vs[0]@, b)); lemma_members_len(vs[0]@); assert(num(trim(members(vs[0]@)[0])) == Some(a)); }
pub proof fn lemma_given(m: Seq<Ent>)
    ensures forall|n: u64| #[trigger] all_are(cl(m), n) ==> given(m), cl(m).len() == 0 ==> !given(m),
        forall|a: u64, b: u64| #[trigger] all_are(cl(m), a) && #[trigger] all_are(cl(m), b) ==> a == b
{ assert forall|a: u64, b: u64| #[trigger] all_are(cl(m), a) && #[trigger] all_are(cl(m), b) implies a == b by { lemma_all_are_one(cl(m), a, b); } }
pub proof fn lemma_texts()
    ensures
        forall|v: HeaderValue, n: u64| #[trigger] decimal(v@, n) ==> all_are(seq![v], n),
        forall|vs: Seq<HeaderValue>, n: u64| #[trigger] all_are(vs, n) ==> lens_are(octs(vs), n),
        forall|vs: Seq<HeaderValue>| (#[trigger] octs(vs)).len() == vs.len() && (vs.len() > 0 ==> octs(vs).last() == vs.last()@),
        fin_chunked(t_chunked()), forall|v: Seq<u8>| #[trigger] ends_chunked(v) ==> fin_chunked(v),
{
    lemma_chunked_text();
    assert forall|v: HeaderValue, n: u64| #[trigger] decimal(v@, n) implies all_are(seq![v], n) by { lemma_one(v, n); }
    assert forall|vs: Seq<HeaderValue>, n: u64| #[trigger] all_are(vs, n) implies lens_are(octs(vs), n) by { lemma_octs(vs, n); }
    assert forall|vs: Seq<HeaderValue>| (#[trigger] octs(vs)).len() == vs.len() && (vs.len() > 0 ==> octs(vs).last() == vs.last()@) by { }
}
pub proof fn lemma_one(v: HeaderValue, n: u64)
    requires decimal(v@, n) ensures all_are(seq![v], n)
{ lemma_decimal(v@, n); assert(seq![v][0] == v); }
/// the head as octets: request line, fields, blank line
pub open spec fn rline(m: Method, u: Uri, v10: bool) -> Seq<u8> {
    meth_str(m) + seq![0x20u8] + uri_str(u) + seq![0x20u8] + (if v10 { seq![0x48u8, 0x54, 0x54, 0x50, 0x2f, 0x31, 0x2e, 0x30] } else { seq![0x48u8, 0x54, 0x54, 0x50, 0x2f, 0x31, 0x2e, 0x31] }) + crlf()
}
/// the octets appended: a head that says of its body what the encoder does
pub open spec fn sent(d0: Seq<u8>, d: Seq<u8>, m: Method, u: Uri, v10: bool, h0: Seq<Ent>, k: Kind) -> bool {
    exists|f: Seq<u8>, ls: WLines| #[trigger] wired(f, ls) && d == d0 + rline(m, u, v10) + f + crlf()
        && agree(v10, wvals(ls, TRANSFER_ENCODING), wvals(ls, CONTENT_LENGTH), k)
        && others_sent(h0, ls)
}
/// fields that do not delimit the body: the same values, in the same order
pub open spec fn others_sent(h0: Seq<Ent>, ls: WLines) -> bool {
    forall|n: HeaderName| n != TRANSFER_ENCODING && n != CONTENT_LENGTH ==> #[trigger] wvals(ls, n) == octs(hm_vals(h0, n))
}
/// these lines were appended
pub open spec fn grown(d0: Seq<u8>, d: Seq<u8>, ls: WLines) -> bool {
    d0.len() <= d.len() && d.take(d0.len() as int) == d0 && wired(d.skip(d0.len() as int), ls)
}
pub proof fn lemma_grown_0(d0: Seq<u8>) ensures grown(d0, d0, Seq::empty()) { assert(d0.take(d0.len() as int) =~= d0); }
pub proof fn lemma_grown(d0: Seq<u8>, d: Seq<u8>, ls: WLines, l: Seq<u8>, x: (HeaderName, Seq<u8>))
    requires grown(d0, d, ls), is_line(l, x)
    ensures grown(d0, d + l, ls.push(x))
{
    let k = d0.len() as int;
    lemma_wired_push(d.skip(k), ls, l, x);
    assert((d + l).skip(k) =~= d.skip(k) + l);
    assert((d + l).take(k) =~= d0);
}
pub proof fn lemma_skip(d0: Seq<u8>) ensures forall|x: Seq<u8>| (#[trigger] (d0 + x)).skip(d0.len() as int) == x
{ assert forall|x: Seq<u8>| (#[trigger] (d0 + x)).skip(d0.len() as int) == x by { assert((d0 + x).skip(d0.len() as int) =~= x); } }
/// the lines of the first p names and the first j values of the next
pub open spec fn upto(m: Seq<Ent>, p: int, j: int) -> WLines { olines(hm_lines(m.take(p))) + olines(ent_lines(m[p]).take(j)) }
pub proof fn lemma_upto(m: Seq<Ent>, p: int)
    requires 0 <= p < m.len()
    ensures
        upto(m, p, 0) == olines(hm_lines(m.take(p))),
        upto(m, p, m[p].vals.len() as int) == olines(hm_lines(m.take(p + 1))),
        forall|j: int| 0 <= j < m[p].vals.len() ==> upto(m, p, j + 1) == (#[trigger] upto(m, p, j)).push((m[p].name, m[p].vals[j]@)),
{
    assert(upto(m, p, 0) =~= olines(hm_lines(m.take(p))));
    assert(m.take(p + 1).drop_last() =~= m.take(p));
    assert(ent_lines(m[p]).take(m[p].vals.len() as int) =~= ent_lines(m[p]));
    assert(upto(m, p, m[p].vals.len() as int) =~= olines(hm_lines(m.take(p + 1))));
    assert forall|j: int| 0 <= j < m[p].vals.len() implies upto(m, p, j + 1) == (#[trigger] upto(m, p, j)).push((m[p].name, m[p].vals[j]@)) by {
        assert(upto(m, p, j + 1) =~= upto(m, p, j).push((m[p].name, m[p].vals[j]@)));
    }
}
/// in a map of distinct names, the values of a name are those of its entry
pub proof fn lemma_vals_at(m: Seq<Ent>, p: int)
    requires hm_wf(m), 0 <= p < m.len()
    ensures hm_vals(m, m[p].name) == m[p].vals
    decreases m.len()
{
    if p < m.len() - 1 {
        let d = m.drop_last();
        assert forall|i: int, j: int| #![auto] 0 <= i < j < d.len() implies d[i].name != d[j].name by { assert(m[i] == d[i] && m[j] == d[j]); }
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).vals.len() > 0 by { assert(m[i] == d[i]); }
        lemma_vals_at(d, p);
        assert(m[p].name != m[m.len() - 1].name);
    }
}
} // verus!
//@ include hdrfns.rs
verus! {
//@ source src/headers.rs
//@ gsubst `entry.iter_mut().next_back()` => `entry.vx_last_mut()`
//@ gsubst `const $n: &str =` => `const $n: &'static str =`
//@ gsubst `CHUNKED.as_bytes()` => `vx_bytes(CHUNKED)`
//@ gsubst `CHUNKED.len()` => `vx_bytes(CHUNKED).len()`
//@ fn add_chunked
    requires entry.key == TRANSFER_ENCODING, te(old(entry.map)@).len() > 0
    ensures te(final(entry.map)@).len() == te(old(entry.map)@).len(), fin_chunked(te(final(entry.map)@).last()@), rest(old(entry.map)@, final(entry.map)@, TRANSFER_ENCODING)
//@ ghost start
let ghost m0 = entry.map@;
//@ ghost before `let new_cap`
let ghost l0 = line@;
proof { lemma_chunked_text(); axiom_hvok(*line); reveal_strlit("chunked"); }
//@ ghost before `*line =`
proof {
    assert(seq![0x2cu8, 0x20] =~= (&[44u8, 32])@);
    assert(buf@ =~= l0 + seq![0x2cu8, 0x20] + t_chunked());
    lemma_add_chunked(l0);
}
//@ ghost before `return;`
proof { assert(fin_chunked(line@)); }
//@ source src/proto/h1/role.rs
//@ desugar returns
//@ gsubst `cfg!(debug_assertions)` => `vx_debug()`
//@ gsubst `headers.get_all(header::TRAILER).iter().filter_map($a).flat_map($b).filter_map($c).collect()` => `vx_trailer_names(headers)`
//@ gsubst `write!(FastWrite(dst), "{} ", msg.head.subject.1)` => `vx_write_uri(dst, &msg.head.subject.1)`
//@ fn set_content_length
    requires !given(old(headers)@)
    ensures r.kind == Kind::Length(len), !r.is_last, all_are(cl(final(headers)@), len), rest(old(headers)@, final(headers)@, CONTENT_LENGTH)
//@ ghost start
proof { lemma_texts(); lemma_given(headers@); assert(cl(headers@) == hm_vals(headers@, CONTENT_LENGTH)); }
//@ fn Client::set_length combin="map=opt_map"
    ensures
        final(head).version == old(head).version, final(head).subject == old(head).subject, final(head).extensions == old(head).extensions,
        agree(old(head).version == Version::HTTP_10, octs(te(final(head).headers@)), octs(cl(final(head).headers@)), r.kind),
        meant(old(head).version == Version::HTTP_10, old(head).subject.0, body, old(head).headers@, r.kind),
        others(old(head).headers@, final(head).headers@),
        !r.is_last,
//@ ghost start
let ghost h0 = head.headers@;
proof { lemma_given(h0); lemma_texts(); }
//@ fn write_headers_original_case attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    ensures grown(old(dst)@, final(dst)@, olines(hm_lines(headers@)))
//@ ghost start
hide(is_line); hide(wired);
let ghost m = headers@;
proof { lemma_grown_0(dst@); assert(olines(hm_lines(m.take(0))) =~= Seq::empty()); assert(m.take(m.len() as int) =~= m); }
//@ loop 0
    invariant
        vx_it0.ents() == m, vx_it0.pos() <= m.len(), hm_wf(m),
        grown(old(dst)@, dst@, olines(hm_lines(m.take(vx_it0.pos() as int)))),
//@ ghost loop 0 start
proof { lemma_upto(m, vx_it0.pos() - 1); lemma_vals_at(m, vx_it0.pos() - 1); }
//@ loop 1
    invariant
        vx_it1.all() == m[vx_it0.pos() - 1].vals, vx_it1.hi() == vx_it1.all().len(), vx_it1.lo() <= vx_it1.hi(), names.of() == *name,
        grown(old(dst)@, dst@, upto(m, vx_it0.pos() - 1, vx_it1.lo() as int)),
//@ ghost loop 1 start
let ghost d0 = dst@;
proof { lemma_skip(d0); lemma_nm(*name, true); lemma_nm(*name, false); }
//@ ghost before `if value.is_empty()`
let ghost s = dst@.skip(d0.len() as int);
proof { assert(dst@ =~= d0 + s); lemma_is_line(s, *name, value@); }
//@ ghost loop 1 end
proof {
    let l = if value@.len() == 0 { s + seq![0x3au8] + crlf() } else { hline(s, value@) };
    assert(dst@ =~= d0 + l);
    lemma_grown(old(dst)@, d0, upto(m, vx_it0.pos() - 1, vx_it1.lo() - 1), l, (*name, value@));
}
//@ gsubst `Self::Outgoing` => `RequestLine`
//@ gsubst `crate::Result<$t>` => `HyperResult<$t>`
//@ item const AVERAGE_HEADER_SIZE
//@ fn <Http1Transaction for Client>::encode impl="impl Client" panics=runtime
    ensures
        r matches Ok(e) && !e.is_last
            && sent(old(dst)@, final(dst)@, old(msg.head).subject.0, old(msg.head).subject.1, old(msg.head).version == Version::HTTP_10, old(msg.head).headers@, e.kind)
            && meant(old(msg.head).version == Version::HTTP_10, old(msg.head).subject.0, msg.body, old(msg.head).headers@, e.kind),
        final(msg.head).headers@ == Seq::<Ent>::empty(),
        *final(msg.req_method) == Some(old(msg.head).subject.0),
//@ ghost start
let ghost (d0, h0, mm, uu, v10) = (dst@, msg.head.headers@, msg.head.subject.0, msg.head.subject.1, msg.head.version == Version::HTTP_10);
//@ ghost before `if let Some(orig_headers)`
let ghost d1 = dst@;
let ghost h1 = msg.head.headers@;
proof {
    assert(d1 =~= d0 + rline(mm, uu, v10));
    lemma_skip(d1);
    lemma_render_wired(hm_lines(h1), true); lemma_render_wired(hm_lines(h1), false);
}
//@ ghost before last `extend(dst, b"\r\n")`
let ghost f = dst@.skip(d1.len() as int);
let ghost ls = olines(hm_lines(h1));
proof { assert(dst@ =~= d1 + f); assert(wired(f, ls)); axiom_hm_wf(msg.head.headers); assert forall|n: HeaderName| #[trigger] wvals(ls, n) == octs(hm_vals(h1, n)) by { lemma_hm_wvals(h1, n); } }
//@ end
} // verus!
fn main() {}
