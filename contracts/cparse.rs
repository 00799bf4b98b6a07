//@ include prelude.rs
//@ include http.rs
//@ include hdrspec.rs
//@ include hdrfns.rs
//@ include httpcore.rs
//@ include heads.rs
verus! {
pub struct Client {}
/// what a response head says of the body
pub ghost enum Frame { Skip, Bad, As(DecodedLength, bool) }
pub open spec fn cframe(code: u16, v10: bool, m: Option<Method>, te: Seq<HeaderValue>, cl: Seq<HeaderValue>) -> Frame {
    if code == 101 { Frame::As(DecodedLength::ZERO, true) }
    else if 100 <= code <= 199 { Frame::Skip }
    else if code == 204 || code == 304 || m == Some(Method::HEAD) { Frame::As(DecodedLength::ZERO, false) }
    else if m == Some(Method::CONNECT) && 200 <= code <= 299 { Frame::As(DecodedLength::ZERO, true) }
    else if te.len() > 0 {
        if v10 { Frame::Bad } else if ends_chunked(te.last()@) { Frame::As(DecodedLength::CHUNKED, false) } else { Frame::As(DecodedLength::CLOSE_DELIMITED, false) }
    } else if exists|n: u64| all_are(cl, n) {
        let n = choose|n: u64| all_are(cl, n);
        if n <= max_len() { Frame::As(DecodedLength(n), false) } else { Frame::Bad }
    } else if cl.len() > 0 { Frame::Bad }
    else { Frame::As(DecodedLength::CLOSE_DELIMITED, false) }
}
pub proof fn lemma_same(cl: Seq<HeaderValue>, a: u64, b: u64)
    requires all_are(cl, a), all_are(cl, b) ensures a == b
{ lemma_members_len(cl[0]@); assert(line_is(cl[0]@, a) && line_is(cl[0]@, b)); assert(num(trim(members(cl[0]@)[0])) == Some(a)); }
/// a field value with its line folds replaced (only where the user allows folds)
pub uninterp spec fn unfolded(v: Seq<u8>) -> Seq<u8>;
pub open spec fn rline(f: bool, b: Seq<u8>, p: HPos) -> (HeaderName, HeaderValue) { (canon(b.subrange(p.n0, p.n1))->0, hv_of(if f { unfolded(b.subrange(p.v0, p.v1)) } else { b.subrange(p.v0, p.v1) })) }
pub open spec fn rlines(f: bool, b: Seq<u8>, h: Seq<HPos>) -> Lines { Seq::new(h.len(), |i: int| rline(f, b, h[i])) }
/// the table names the lines
pub open spec fn row(t: Option<HeaderIndices>, s: Seq<u8>, x: (HeaderName, HeaderValue)) -> bool {
    &&& t is Some && t->0.name.0 <= t->0.name.1 <= s.len() && t->0.value.0 <= t->0.value.1 <= s.len()
    &&& canon(s.subrange(t->0.name.0 as int, t->0.name.1 as int)) == Some(x.0) && hv_of(s.subrange(t->0.value.0 as int, t->0.value.1 as int)) == x.1
}
#[verifier::opaque]
pub open spec fn table(t: Seq<Option<HeaderIndices>>, s: Seq<u8>, l: Lines) -> bool { inited(t, l.len() as int) && forall|i: int| 0 <= i < l.len() ==> row(#[trigger] t[i], s, l[i]) }
/// the header map handed on
#[verifier::opaque]
pub open spec fn carried(m: Seq<Ent>, l: Lines) -> bool { forall|n: HeaderName| #[trigger] hm_vals(m, n) == vals_of(l, n) }
pub ghost enum Resp { Head { rest: Seq<u8>, code: u16, version: Version, l: Lines, frame: DecodedLength, up: bool }, More(Seq<u8>), Bad }
pub open spec fn head_of(rest: Seq<u8>, code: u16, version: Version, l: Lines, m: Option<Method>) -> Resp {
    match cframe(code, version == Version::HTTP_10, m, te_of(l), cl_of(l)) {
        Frame::As(d, up) => Resp::Head { rest, code, version, l, frame: d, up },
        _ => Resp::Bad,
    }
}
/// what the octets received say, interim responses skipped
pub open spec fn resp(c: ParserConfig, h09: bool, cap: nat, m: Option<Method>, b: Seq<u8>) -> Resp decreases b.len() {
    match raw_resp(c, b, cap) {
        RawOut::Part => Resp::More(b),
        RawOut::Bad(e) => if h09 && e == HpError::Version { head_of(b, 200, Version::HTTP_09, Seq::empty(), m) } else { Resp::Bad },
        RawOut::Done(h) => if !(100 <= h.code <= 999) || !names_ok(h) || !(0 < h.len <= b.len()) { Resp::Bad } else {
            let l = rlines(c.folds(), b, h.hdrs);
            let v = if h.v11 { Version::HTTP_11 } else { Version::HTTP_10 };
            let rest = b.skip(h.len);
            if cframe(h.code, !h.v11, m, te_of(l), cl_of(l)) is Skip {
                if rest.len() == 0 { Resp::More(rest) } else { resp(c, h09, cap, m, rest) }
            } else { head_of(rest, h.code, v, l, m) }
        },
    }
}
pub proof fn lemma_200(v10: bool, m: Option<Method>, te: Seq<HeaderValue>, cl: Seq<HeaderValue>)
    ensures !(cframe(200, v10, m, te, cl) is Skip)
{}
pub proof fn lemma_table(o: RawOut, b: Seq<u8>, cap: nat, t: Seq<Option<HeaderIndices>>)
    requires raw_ok(o, b, cap), o is Done, names_ok(o->Done_0), at(t, o->Done_0.hdrs)
    ensures table(t, b.take(o->Done_0.len), rlines(false, b, o->Done_0.hdrs))
{
    lemma_raw(o, b, cap); reveal(table); lemma_at(t, o->Done_0.hdrs);
    assert forall|i: int| 0 <= i < o->Done_0.hdrs.len() implies row(#[trigger] t[i], b.take(o->Done_0.len), rlines(false, b, o->Done_0.hdrs)[i]) by { lemma_hdr(o, b, cap, t, i); }
}
pub proof fn lemma_carry(m: Seq<Ent>, l: Lines, k: int)
    requires 0 < k <= l.len(), carried(m, l.take(k - 1))
    ensures carried(hm_append(m, l[k - 1].0, l[k - 1].1), l.take(k)),
        vals_of(l.take(k), CONNECTION) == (if l[k - 1].0 == CONNECTION { vals_of(l.take(k - 1), CONNECTION).push(l[k - 1].1) } else { vals_of(l.take(k - 1), CONNECTION) }),
        any_tok(vals_of(l.take(k - 1), CONNECTION).push(l[k - 1].1), t_close()) == (any_tok(vals_of(l.take(k - 1), CONNECTION), t_close()) || has_tok(l[k - 1].1@, t_close())),
        any_tok(vals_of(l.take(k - 1), CONNECTION).push(l[k - 1].1), t_keep()) == (any_tok(vals_of(l.take(k - 1), CONNECTION), t_keep()) || has_tok(l[k - 1].1@, t_keep())),
{
    reveal(carried);
    let (n, v) = l[k - 1];
    assert(l.take(k).drop_last() =~= l.take(k - 1) && l.take(k).last() == (n, v));
    assert forall|x: HeaderName| #[trigger] hm_vals(hm_append(m, n, v), x) == vals_of(l.take(k), x) by { lemma_hm_append(m, n, v, x); assert(hm_vals(m, x) == hm_vals(m, x)); }
    lemma_any_push(vals_of(l.take(k - 1), CONNECTION), v, t_close());
    lemma_any_push(vals_of(l.take(k - 1), CONNECTION), v, t_keep());
}
pub proof fn lemma_carry0(l: Lines)
    ensures carried(Seq::empty(), l.take(0)), !any_tok(vals_of(l.take(0), CONNECTION), t_close()), !any_tok(vals_of(l.take(0), CONNECTION), t_keep()), l.take(l.len() as int) == l
{ reveal(carried); assert(l.take(l.len() as int) =~= l); }
pub proof fn lemma_row(t: Seq<Option<HeaderIndices>>, s: Seq<u8>, l: Lines, k: int)
    requires table(t, s, l), 0 <= k < l.len()
    ensures row(t[k], s, l[k])
{ reveal(table); }
pub proof fn lemma_table_in(t: Seq<Option<HeaderIndices>>, s: Seq<u8>, l: Lines)
    requires table(t, s, l)
    ensures inited(t, l.len() as int)
{ reveal(table); }
pub proof fn lemma_table_0(t: Seq<Option<HeaderIndices>>, s: Seq<u8>)
    ensures table(t, s, Seq::empty())
{ reveal(table); reveal(inited); }
pub proof fn lemma_carried(m: Seq<Ent>, l: Lines)
    requires carried(m, l)
    ensures hm_vals(m, TRANSFER_ENCODING) == te_of(l), hm_vals(m, CONTENT_LENGTH) == cl_of(l)
{ reveal(carried); }
/// the loop over `Client::obs_fold_line` (assumed: names stay, values are unfolded)
#[verifier::external_body]
pub fn vx_unfold_all(s: &mut BytesMut, t: &mut VxIdx, n: usize)
    requires inited(old(t)@, n as int)
    ensures
        forall|b: Seq<u8>, h: Seq<HPos>| h.len() == n && #[trigger] table(old(t)@, old(s)@, rlines(false, b, h)) ==> table(final(t)@, final(s)@, rlines(true, b, h)),
        final(t)@.len() == old(t)@.len(), final(s)@.len() == old(s)@.len(),
{ unimplemented!() }
/// `Some(reason) != status.canonical_reason()`, the phrase copied
#[verifier::external_body]
pub fn vx_reason(s: StatusCode, p: &VStr) -> (r: Option<Bytes>) { unimplemented!() }
pub struct ReasonPhrase { pub b: Bytes }
/// `callback.call(head.into_response(()))`
#[verifier::external_body]
pub fn vx_inform(c: &mut OnInformational, h: MessageHead<StatusCode>) { unimplemented!() }
//@ source src/proto/h1/role.rs
//@ gsubst `for header in &mut headers_indices[..headers_len] { $body }` => `vx_unfold_all(&mut slice, &mut headers_indices, headers_len);`
//@ gsubst `if Some(reason) != status.canonical_reason() { $a } else { None }` => `vx_reason(status, reason)`
//@ gsubst `crate::ext::ReasonPhrase::from_bytes_unchecked(reason)` => `ReasonPhrase { b: reason }`
//@ gsubst `callback.call(head.into_response(()))` => `vx_inform(callback, head)`
//@ fn Client::decoder
    ensures *final(method) == *old(method), match cframe(inc.subject.n, inc.version == Version::HTTP_10, *old(method), hm_vals(inc.headers@, TRANSFER_ENCODING), hm_vals(inc.headers@, CONTENT_LENGTH)) {
        Frame::Skip => r == Ok::<Option<(DecodedLength, bool)>, Parse>(None),
        Frame::Bad => r is Err,
        Frame::As(d, up) => r == Ok::<Option<(DecodedLength, bool)>, Parse>(Some((d, up))),
    } //#C05
//@ ghost start
proof { let cl = hm_vals(inc.headers@, CONTENT_LENGTH); assert forall|a: u64, b: u64| #[trigger] all_are(cl, a) && #[trigger] all_are(cl, b) implies a == b by { lemma_same(cl, a, b); } }
//@ fn <Http1Transaction for Client>::parse impl="impl Client" attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    requires old(buf)@.len() > 0, no_cached(*ctx.cached_headers)
    ensures
        match r {
            Ok(None) => cfinal(ctx, *old(ctx.req_method), old(buf)@) == Resp::More(final(buf)@),
            Ok(Some(m)) => cfinal(ctx, *old(ctx.req_method), old(buf)@) == (Resp::Head { rest: final(buf)@, code: m.head.subject.n, version: m.head.version, l: cfinal(ctx, *old(ctx.req_method), old(buf)@)->l, frame: m.decode, up: m.wants_upgrade })
                && carried(m.head.headers@, cfinal(ctx, *old(ctx.req_method), old(buf)@)->l) && !m.expect_continue,
            Err(_) => cfinal(ctx, *old(ctx.req_method), old(buf)@) is Bad,
        }, //#C05
        match r {
            Ok(Some(m)) => m.keep_alive == (persists(m.head.version == Version::HTTP_11, cfinal(ctx, *old(ctx.req_method), old(buf)@)->l) && !m.wants_upgrade),
            _ => true,
        }, //#C12
//@ ghost start
hide(vals_of); hide(any_tok); hide(has_tok); hide(ends_chunked); hide(num); hide(hm_vals); hide(hm_append); hide(lws); hide(cframe); hide(row); hide(all_are);
let ghost (c, h09, cap, m0, b00) = (ctx.h1_parser_config, ctx.h09_responses, hcap(ctx.h1_max_headers), *ctx.req_method, buf@);
//@ loop 0
    invariant
        buf@.len() > 0, no_cached(*ctx.cached_headers), *ctx.req_method == m0,
        resp(c, h09, cap, m0, buf@) == resp(c, h09, cap, m0, b00),
//@ ghost loop 0 start
let ghost b0 = buf@;
let ghost o = raw_resp(c, b0, cap);
//@ ghost before `record_header_indices(`
proof {
    lemma_raw(o, bytes@, cap);
    lemma_place(o, bytes, cap, res.headers@);
}
//@ ghost before `let mut slice = buf.split_to(len);`
let ghost h = if o is Done { o->Done_0.hdrs } else { Seq::empty() };
let ghost all = rlines(c.folds(), b0, h);
proof {
    if o is Done { lemma_raw(o, b0, cap); lemma_table(o, b0, cap, headers_indices@); }
    else { lemma_table_0(headers_indices@, b0.take(len as int)); assert(rlines(false, b0, h) =~= Seq::empty()); }
    lemma_table_in(headers_indices@, b0.take(len as int), rlines(false, b0, h));
}
//@ ghost after `vx_cached(ctx.cached_headers);`
proof { lemma_carry0(all); lemma_table_in(headers_indices@, slice@, all); }
//@ loop 1
    invariant
        vx_it1.t@ == headers_indices@, vx_it1.n == headers_len, vx_it1.i <= vx_it1.n, headers_len == all.len(),
        table(headers_indices@, slice@, all), inited(headers_indices@, headers_len as int),
        carried(headers@, all.take(vx_it1.i as int)), //#C05
        is_close == any_tok(vals_of(all.take(vx_it1.i as int), CONNECTION), t_close()), //#C12
        keep_alive == persists(version == Version::HTTP_11, all.take(vx_it1.i as int)), //#C12
//@ ghost loop 1 start
proof { lemma_row(headers_indices@, slice@, all, vx_it1.i - 1); lemma_carry(headers@, all, vx_it1.i as int); reveal(row); }
//@ ghost before `let mut extensions = http::Extensions`
proof { lemma_carried(headers@, all); lemma_200(version == Version::HTTP_10, m0, te_of(all), cl_of(all)); if o is Bad { assert(all =~= Seq::empty()); assert(buf@ =~= b0); } }
//@ end
pub open spec fn cfinal(ctx: ParseContext<'_>, m: Option<Method>, b: Seq<u8>) -> Resp { resp(ctx.h1_parser_config, ctx.h09_responses, hcap(ctx.h1_max_headers), m, b) }
} // verus!
fn main() {}
