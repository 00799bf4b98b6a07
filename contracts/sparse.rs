//@ include prelude.rs
//@ include http.rs
//@ include hdrspec.rs
//@ include hdrfns.rs
//@ include httpcore.rs
//@ include heads.rs
verus! {
pub struct Server {}
pub open spec fn t_continue() -> Seq<u8> { seq![0x31u8, 0x30, 0x30, 0x2d, 0x63, 0x6f, 0x6e, 0x74, 0x69, 0x6e, 0x75, 0x65] }
// ---- what a request head says ---------------------------------------------------------
/// a number that fits
pub open spec fn fits(v: HeaderValue) -> bool { num(v@) is Some && num(v@)->0 <= max_len() }
#[verifier::opaque]
pub open spec fn cl_good(c: Seq<HeaderValue>) -> bool { forall|i: int| 0 <= i < c.len() ==> fits(#[trigger] c[i]) && num(c[i]@) == num(c[0]@) }
pub open spec fn te_good(v11: bool, t: Seq<HeaderValue>) -> bool { t.len() > 0 ==> v11 && ends_chunked(t.last()@) }
/// the head delimits the body as a request may
pub open spec fn frame_good(v11: bool, l: Lines) -> bool { te_good(v11, te_of(l)) && (te_of(l).len() == 0 ==> cl_good(cl_of(l))) }
pub open spec fn frame_bad(v11: bool, l: Lines) -> bool { !te_good(v11, te_of(l)) || !cl_good(cl_of(l)) }
pub open spec fn frame_of(l: Lines) -> DecodedLength {
    if te_of(l).len() > 0 { DecodedLength::CHUNKED } else if cl_of(l).len() > 0 { DecodedLength(num(cl_of(l)[0]@)->0) } else { DecodedLength::ZERO }
}
pub open spec fn expects(l: Lines) -> bool { vals_of(l, EXPECT).len() > 0 && lws(vals_of(l, EXPECT).last()@) == lws(t_continue()) }
pub open spec fn upgrades(m: Method, v11: bool, l: Lines) -> bool { if vals_of(l, UPGRADE).len() > 0 { v11 } else { m == Method::CONNECT } }
pub open spec fn req_lines(h: RawHead, b: Seq<u8>) -> Lines { lines(b, h.hdrs) }
/// the header map handed on
#[verifier::opaque]
pub open spec fn handed(m: Seq<Ent>, l: Lines) -> bool {
    forall|n: HeaderName| #[trigger] hm_vals(m, n) == (if n != CONTENT_LENGTH { vals_of(l, n) } else if te_of(l).len() > 0 { Seq::empty() } else if cl_of(l).len() > 0 { seq![cl_of(l)[0]] } else { Seq::empty() })
}
pub open spec fn sout(ctx: ParseContext<'_>, b: Seq<u8>) -> RawOut { raw_req(ctx.h1_parser_config, b, hcap(ctx.h1_max_headers)) }
pub open spec fn subject_is(m: ParsedMessage<RequestLine>, h: RawHead, b: Seq<u8>) -> bool {
    &&& m.head.version == (if h.v11 { Version::HTTP_11 } else { Version::HTTP_10 })
    &&& m.head.subject.0 == meth_of(h.method)->0 && uri_of(b.subrange(h.p0, h.p1)) == Some(m.head.subject.1)
}
pub open spec fn framed(m: ParsedMessage<RequestLine>, h: RawHead, b: Seq<u8>) -> bool { frame_good(h.v11, req_lines(h, b)) && m.decode == frame_of(req_lines(h, b)) && handed(m.head.headers@, req_lines(h, b)) }
pub open spec fn refusable(o: RawOut, b: Seq<u8>) -> bool { o is Done && (!line_ok(o->Done_0, b) || frame_bad(o->Done_0.v11, req_lines(o->Done_0, b))) }
/// a head that names both framings is answered, but the connection is not kept
pub open spec fn kept(m: ParsedMessage<RequestLine>, h: RawHead, b: Seq<u8>) -> bool { m.keep_alive == (persists(h.v11, req_lines(h, b)) && !(te_of(req_lines(h, b)).len() > 0 && cl_of(req_lines(h, b)).len() > 0)) }
pub open spec fn line_ok(h: RawHead, b: Seq<u8>) -> bool { h.p1 - h.p0 <= 65534 && meth_of(h.method) is Some && names_ok(h) && uri_of(b.subrange(h.p0, h.p1)) is Some }

pub proof fn lemma_cl_push(c: Seq<HeaderValue>, v: HeaderValue)
    ensures cl_good(c.push(v)) == (cl_good(c) && fits(v) && (c.len() > 0 ==> num(v@) == num(c[0]@))), cl_good(Seq::<HeaderValue>::empty()), cl_good(c) && c.len() > 0 ==> fits(c[0]), c.push(v)[0] == (if c.len() > 0 { c[0] } else { v })
{
    reveal(cl_good);
    let w = c.push(v);
    if cl_good(w) { assert(fits(w[c.len() as int])); assert forall|i: int| 0 <= i < c.len() implies fits(#[trigger] c[i]) && num(c[i]@) == num(c[0]@) by { assert(w[i] == c[i] && w[0] == c[0]); } }
}
pub proof fn lemma_handed_cl(m: Seq<Ent>, l: Lines)
    requires handed(m, l)
    ensures te_of(l).len() > 0 || cl_of(l).len() == 0 ==> hm_vals(m, CONTENT_LENGTH) == Seq::<HeaderValue>::empty()
{ reveal(handed); assert(hm_vals(m, CONTENT_LENGTH) == hm_vals(m, CONTENT_LENGTH)); }
/// a line is handed on; a transfer coding displaces the length
pub proof fn lemma_handed(m0: Seq<Ent>, m1: Seq<Ent>, l: Lines, k: int)
    requires 0 < k <= l.len(), handed(m0, l.take(k - 1)),
        forall|x: HeaderName| #[trigger] hm_vals(m1, x) == (if l[k - 1].0 == TRANSFER_ENCODING && x == CONTENT_LENGTH { Seq::<HeaderValue>::empty() } else { hm_vals(m0, x) }),
        l[k - 1].0 == CONTENT_LENGTH ==> te_of(l.take(k - 1)).len() == 0 && cl_of(l.take(k - 1)).len() == 0,
    ensures handed(hm_append(m1, l[k - 1].0, l[k - 1].1), l.take(k))
{
    reveal(handed);
    let (n, v) = l[k - 1];
    assert(l.take(k).drop_last() =~= l.take(k - 1) && l.take(k).last() == (n, v));
    assert(seq![v] =~= Seq::<HeaderValue>::empty().push(v));
    assert forall|x: HeaderName| #[trigger] hm_vals(hm_append(m1, n, v), x) == (if x != CONTENT_LENGTH { vals_of(l.take(k), x) } else if te_of(l.take(k)).len() > 0 { Seq::empty() } else if cl_of(l.take(k)).len() > 0 { seq![cl_of(l.take(k))[0]] } else { Seq::empty() }) by {
        lemma_hm_append(m1, n, v, x);
        assert(hm_vals(m1, x) == hm_vals(m1, x) && hm_vals(m0, x) == hm_vals(m0, x));
        if n == CONTENT_LENGTH && x == CONTENT_LENGTH { assert(cl_of(l.take(k)) =~= seq![v]); }
    }
}
pub proof fn lemma_handed_skip(m: Seq<Ent>, l: Lines, k: int)
    requires 0 < k <= l.len(), handed(m, l.take(k - 1)), l[k - 1].0 == CONTENT_LENGTH, te_of(l.take(k - 1)).len() > 0 || cl_of(l.take(k - 1)).len() > 0
    ensures handed(m, l.take(k))
{
    reveal(handed);
    assert(l.take(k).drop_last() =~= l.take(k - 1) && l.take(k).last() == l[k - 1]);
}
pub proof fn lemma_handed_none(m: Seq<Ent>, l: Lines)
    requires m == Seq::<Ent>::empty(), l.len() == 0
    ensures handed(m, l)
{ reveal(handed); }
/// what is wrong with a part of the lines is wrong with all of them
pub proof fn lemma_prefix(all: Lines, k: int)
    requires 0 <= k <= all.len()
    ensures te_of(all.take(k)).len() > 0 ==> te_of(all).len() > 0, cl_good(cl_of(all)) ==> cl_good(cl_of(all.take(k)))
{
    lemma_vals_prefix(all, k, TRANSFER_ENCODING);
    lemma_vals_prefix(all, k, CONTENT_LENGTH);
    let (a, b) = (cl_of(all.take(k)), cl_of(all));
    reveal(cl_good);
    if cl_good(b) {
        assert forall|i: int| 0 <= i < a.len() implies fits(#[trigger] a[i]) && num(a[i]@) == num(a[0]@) by { assert(a[i] == b[i] && a[0] == b[0]); }
    }
}
pub open spec fn stepped(l0: Lines, l: Lines, n: HeaderName, v: HeaderValue, x: HeaderName) -> bool { vals_of(l, x) == (if n == x { vals_of(l0, x).push(v) } else { vals_of(l0, x) }) }
/// everything one more line changes
pub proof fn lemma_line(o: RawOut, b: Seq<u8>, cap: nat, t: Seq<Option<HeaderIndices>>, m0: Seq<Ent>, k: int)
    requires raw_ok(o, b, cap), o is Done, names_ok(o->Done_0), at(t, o->Done_0.hdrs), 0 < k <= o->Done_0.hdrs.len(), handed(m0, lines(b, o->Done_0.hdrs).take(k - 1))
    ensures ({
        let h = o->Done_0;
        let p = h.hdrs[k - 1];
        let all = lines(b, h.hdrs);
        let (l0, l) = (all.take(k - 1), all.take(k));
        let (n, v) = all[k - 1];
        let c0 = cl_of(l0);
        &&& t[k - 1] is Some && t[k - 1]->0.name.0 == p.n0 && t[k - 1]->0.name.1 == p.n1 && t[k - 1]->0.value.0 == p.v0 && t[k - 1]->0.value.1 == p.v1
        &&& 0 <= p.n0 <= p.n1 <= h.len && 0 <= p.v0 <= p.v1 <= h.len && canon(b.subrange(p.n0, p.n1)) is Some
        &&& b.take(h.len).subrange(p.n0, p.n1) == b.subrange(p.n0, p.n1) && b.take(h.len).subrange(p.v0, p.v1) == b.subrange(p.v0, p.v1)
        &&& (n, v) == line_at(b, p)
        &&& stepped(l0, l, n, v, TRANSFER_ENCODING) && stepped(l0, l, n, v, CONTENT_LENGTH) && stepped(l0, l, n, v, CONNECTION) && stepped(l0, l, n, v, EXPECT) && stepped(l0, l, n, v, UPGRADE)
        &&& te_of(l).len() > 0 ==> te_of(all).len() > 0
        &&& cl_good(cl_of(all)) ==> cl_good(cl_of(l))
        &&& any_tok(vals_of(l0, CONNECTION).push(v), t_close()) == (any_tok(vals_of(l0, CONNECTION), t_close()) || has_tok(v@, t_close()))
        &&& any_tok(vals_of(l0, CONNECTION).push(v), t_keep()) == (any_tok(vals_of(l0, CONNECTION), t_keep()) || has_tok(v@, t_keep()))
        &&& cl_good(c0.push(v)) == (cl_good(c0) && fits(v) && (c0.len() > 0 ==> num(v@) == num(c0[0]@)))
        &&& cl_good(c0) && c0.len() > 0 ==> fits(c0[0])
        &&& c0.push(v).len() == c0.len() + 1 && c0.push(v)[0] == (if c0.len() > 0 { c0[0] } else { v })
        &&& te_of(l0).push(v).len() == te_of(l0).len() + 1 && te_of(l0).push(v).last() == v
        &&& vals_of(l0, EXPECT).push(v).len() == vals_of(l0, EXPECT).len() + 1 && vals_of(l0, EXPECT).push(v).last() == v
        &&& vals_of(l0, UPGRADE).push(v).len() == vals_of(l0, UPGRADE).len() + 1
        &&& te_of(l0).len() > 0 || c0.len() == 0 ==> hm_vals(m0, CONTENT_LENGTH) == Seq::<HeaderValue>::empty()
        &&& n == CONTENT_LENGTH && (te_of(l0).len() > 0 || c0.len() > 0) ==> handed(m0, l)
    })
{
    let all = lines(b, o->Done_0.hdrs);
    let (l0, l, n, v) = (all.take(k - 1), all.take(k), all[k - 1].0, all[k - 1].1);
    assert(l.drop_last() =~= l0 && l.last() == (n, v));
    lemma_hdr(o, b, cap, t, k - 1);
    lemma_prefix(all, k);
    lemma_any_push(vals_of(l0, CONNECTION), v, t_close());
    lemma_any_push(vals_of(l0, CONNECTION), v, t_keep());
    lemma_cl_push(cl_of(l0), v);
    lemma_handed_cl(m0, l0);
    if n == CONTENT_LENGTH && (te_of(l0).len() > 0 || cl_of(l0).len() > 0) { lemma_handed_skip(m0, all, k); }
}
pub proof fn lemma_no_lines(b: Seq<u8>, h: Seq<HPos>)
    ensures ({ let all = lines(b, h); let l = all.take(0);
        &&& all.len() == h.len()
        &&& te_of(l).len() == 0 && cl_of(l).len() == 0 && vals_of(l, EXPECT).len() == 0 && vals_of(l, UPGRADE).len() == 0
        &&& cl_good(cl_of(l)) && !any_tok(vals_of(l, CONNECTION), t_close()) && !any_tok(vals_of(l, CONNECTION), t_keep())
        &&& handed(Seq::empty(), l) && all.take(all.len() as int) == all })
{ let all = lines(b, h); lemma_handed_none(Seq::empty(), all.take(0)); lemma_cl_push(Seq::empty(), arbitrary()); assert(all.take(all.len() as int) =~= all); assert(cl_of(all.take(0)) =~= Seq::empty()); }
//@ source src/proto/h1/role.rs
//@ fn Server::record_path_range
    requires saddr(bytes) <= taddr(req_path), taddr(req_path) - saddr(bytes) + req_path@.len() <= bytes.len()
    ensures r.start == taddr(req_path) - saddr(bytes), r.end == r.start + req_path@.len()
//@ fn <Http1Transaction for Server>::parse impl="impl Server" attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    requires old(buf)@.len() > 0, no_cached(*ctx.cached_headers)
    ensures
        match r {
            Ok(None) => sout(ctx, old(buf)@) is Part && final(buf)@ == old(buf)@,
            Ok(Some(m)) => sout(ctx, old(buf)@) is Done && line_ok(sout(ctx, old(buf)@)->Done_0, old(buf)@) && final(buf)@ == old(buf)@.skip(sout(ctx, old(buf)@)->Done_0.len)
                && subject_is(m, sout(ctx, old(buf)@)->Done_0, old(buf)@) && *final(ctx.req_method) == Some(m.head.subject.0),
            Err(_) => true,
        },
        match r {
            Ok(None) => true,
            Ok(Some(m)) => framed(m, sout(ctx, old(buf)@)->Done_0, old(buf)@), //#C04
            Err(_) => sout(ctx, old(buf)@) is Bad || refusable(sout(ctx, old(buf)@), old(buf)@), //#C04
        },
        match r { Ok(Some(m)) => kept(m, sout(ctx, old(buf)@)->Done_0, old(buf)@), _ => true }, //#C12
        match r { Ok(Some(m)) => m.expect_continue == expects(req_lines(sout(ctx, old(buf)@)->Done_0, old(buf)@)), _ => true }, //#C22
        match r { Ok(Some(m)) => m.wants_upgrade == upgrades(m.head.subject.0, m.head.version == Version::HTTP_11, req_lines(sout(ctx, old(buf)@)->Done_0, old(buf)@)), _ => true }, //#C14
//@ ghost start
hide(vals_of); hide(any_tok); hide(has_tok); hide(ends_chunked); hide(num); hide(hm_vals); hide(hm_append); hide(lws); hide(lines);
//@ ghost before `record_header_indices(`
proof {
    let o = raw_req(ctx.h1_parser_config, bytes@, hcap(ctx.h1_max_headers));
    lemma_raw(o, bytes@, hcap(ctx.h1_max_headers));
    lemma_place(o, bytes, hcap(ctx.h1_max_headers), req.headers@);
}
//@ ghost before `if uri.len() > MAX_URI_LEN`
proof { lemma_raw(raw_req(ctx.h1_parser_config, bytes@, hcap(ctx.h1_max_headers)), bytes@, hcap(ctx.h1_max_headers)); }
//@ ghost after `.freeze();`
let ghost b0 = old(buf)@;
let ghost ro = raw_req(ctx.h1_parser_config, b0, hcap(ctx.h1_max_headers));
let ghost rh = ro->Done_0;
let ghost all = lines(b0, rh.hdrs);
proof {
    lemma_at(headers_indices@, rh.hdrs);
    assert(slice@ == b0.take(rh.len));
    assert(slice@.subrange(rh.p0, rh.p1) =~= b0.subrange(rh.p0, rh.p1));
}
//@ ghost after `vx_cached(ctx.cached_headers);`
proof { lemma_no_lines(b0, rh.hdrs); }
//@ loop 0
    invariant
        vx_it0.t@ == headers_indices@, vx_it0.n == headers_len, vx_it0.i <= vx_it0.n,
        is_te == (te_of(all.take(vx_it0.i as int)).len() > 0), //#C04
        is_cl == (cl_of(all.take(vx_it0.i as int)).len() > 0),
        is_te ==> is_http_11 && con_len is None, //#C04
        is_te_chunked == (is_te && ends_chunked(te_of(all.take(vx_it0.i as int)).last()@)), //#C04
        !is_te ==> cl_good(cl_of(all.take(vx_it0.i as int))) && con_len == (if cl_of(all.take(vx_it0.i as int)).len() > 0 { num(cl_of(all.take(vx_it0.i as int))[0]@) } else { None }), //#C04
        !is_te ==> decoder == frame_of(all.take(vx_it0.i as int)), //#C04
        is_te_chunked ==> decoder == DecodedLength::CHUNKED, //#C04
        handed(headers@, all.take(vx_it0.i as int)), //#C04
        is_close == any_tok(vals_of(all.take(vx_it0.i as int), CONNECTION), t_close()), //#C12
        keep_alive == persists(is_http_11, all.take(vx_it0.i as int)), //#C12
        expect_continue == expects(all.take(vx_it0.i as int)), //#C22
        wants_upgrade == upgrades(subject.0, is_http_11, all.take(vx_it0.i as int)), //#C14
//@ ghost loop 0 start
let ghost m0 = headers@;
proof { lemma_line(ro, b0, hcap(ctx.h1_max_headers), headers_indices@, m0, vx_it0.i as int); }
//@ ghost before `headers.append(&name, value)`
proof { lemma_handed(m0, headers@, all, vx_it0.i as int); }
//@ end
} // verus!
fn main() {}
