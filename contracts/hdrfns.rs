verus! {
//@ mrename trim=vx_trim eq_ignore_ascii_case=vx_eqic split=vx_split rsplit=vx_rsplit
//@ fordefault fn:VxIter::vx_iter
//@ source src/headers.rs
//@ fn from_digits attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    ensures r == num(bytes@)
//@ loop 0
    invariant
        vx_it0.all() == bytes@, vx_it0.pos() <= bytes@.len(), result == dval(bytes@.take(vx_it0.pos() as int)),
        forall|i: int| 0 <= i < vx_it0.pos() ==> dig(#[trigger] bytes@[i]), bytes@.len() > 0, RADIX == 10,
//@ ghost loop 0 start
proof {
    let k = vx_it0.pos() as int;
    assert(bytes@.take(k).drop_last() =~= bytes@.take(k - 1));
    lemma_dval_grows(bytes@, k);
}
//@ ghost before-tail
proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
//@ ghost before `let mut result`
proof { assert(bytes@.take(0) =~= Seq::<u8>::empty()); }
//@ end
/// the value of a digit string is at least the value of any prefix
pub proof fn lemma_dval_grows(v: Seq<u8>, k: int)
    requires 0 <= k <= v.len()
    ensures digits(v) ==> dval(v.take(k)) <= dval(v)
    decreases v.len() - k
{
    if k < v.len() && digits(v) {
        lemma_dval_grows(v, k + 1);
        assert(v.take(k + 1).drop_last() =~= v.take(k));
        assert(v.take(k + 1).last() == v[k]);
        assert(dig(v[k]));
        assert(dval(v.take(k + 1)) == 10 * dval(v.take(k)) + (v[k] - 0x30) as nat);
    } else { assert(v.take(k) =~= v || k < v.len()); }
}
//@ fn content_length_parse
    ensures r == num(value@)
//@ fn content_length_parse_all
    ensures r is Some <==> exists|n: u64| all_are(hm_vals(headers@, CONTENT_LENGTH), n),
        r is Some ==> all_are(hm_vals(headers@, CONTENT_LENGTH), r->0)
//@ fn content_length_parse_all_values attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    requires values.fresh(values.all())
    ensures r is Some <==> exists|n: u64| all_are(values.all(), n),
        r is Some ==> all_are(values.all(), r->0)
//@ loop 0
    invariant
        vx_it0.all() == values.all(), vx_it0.hi() == values.all().len(), vx_it0.lo() <= vx_it0.hi(),
        content_length is None <==> vx_it0.lo() == 0,
        content_length is Some ==> forall|i: int| 0 <= i < vx_it0.lo() ==> line_is(#[trigger] values.all()[i]@, content_length->0),
//@ ghost loop 0 start
let ghost cl0 = content_length;
proof { lemma_members_len(h@); }
//@ loop 1
    invariant
        vx_it1.parts() == members(h@), vx_it1.pos() <= members(h@).len(),
        vx_it1.pos() == 0 ==> content_length == cl0,
        vx_it1.pos() > 0 ==> content_length is Some,
        cl0 is Some ==> content_length == cl0,
        forall|i: int| 0 <= i < vx_it0.lo() - 1 ==> line_is(#[trigger] values.all()[i]@, cl0->0),
        cl0 is None <==> vx_it0.lo() == 1,
        forall|i: int| 0 <= i < vx_it1.pos() ==> num(trim(#[trigger] members(h@)[i])) == content_length,
//@ ghost loop 1 start
proof {
    let q = members(h@)[vx_it1.pos() - 1];
    assert forall|n: u64| all_are(values.all(), n) implies num(trim(q)) == Some(n) && (content_length is Some ==> content_length == Some(n)) by {
        assert(line_is(values.all()[vx_it0.lo() - 1]@, n));
        assert(num(trim(members(h@)[vx_it1.pos() - 1])) == Some(n));
        if content_length is Some {
            if vx_it1.pos() > 1 { assert(num(trim(members(h@)[0])) == content_length); }
            else { assert(line_is(values.all()[0]@, n)); assert(line_is(values.all()[0]@, content_length->0));
                lemma_members_len(values.all()[0]@); assert(num(trim(members(values.all()[0]@)[0])) == Some(n)); }
        }
    }
}
//@ ghost before-tail
proof { if content_length is Some { assert(all_are(values.all(), content_length->0)); } }
//@ fn connection_keep_alive
    ensures r == has_tok(value@, t_keep())
//@ fn connection_close
    ensures r == has_tok(value@, t_close())
//@ fn connection_any_close
    ensures r == any_tok(hm_vals(headers@, CONNECTION), t_close())
//@ fn connection_has attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    ensures r == has_tok(value@, bytes_of(needle@))
//@ loop 0
    invariant
        allvis(value@), vx_it0.parts() == members(value@), vx_it0.pos() <= members(value@).len(),
        forall|i: int| 0 <= i < vx_it0.pos() ==> !lowtok(#[trigger] members(value@)[i], bytes_of(needle@)),
//@ fn te_is_trailers
    ensures r == any_tok(hm_vals(headers@, TE), t_trailers())
//@ fn header_value_list_has attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    requires values.fresh(values.all())
    ensures r == any_tok(values.all(), bytes_of(needle@))
//@ loop 0
    invariant
        vx_it0.all() == values.all(), vx_it0.hi() == values.all().len(), vx_it0.lo() <= vx_it0.hi(),
        forall|i: int| 0 <= i < vx_it0.lo() ==> !has_tok(#[trigger] values.all()[i]@, bytes_of(needle@)),
//@ loop 1
    invariant
        allvis(value@), vx_it1.parts() == members(value@), vx_it1.pos() <= members(value@).len(),
        forall|i: int| 0 <= i < vx_it1.pos() ==> !lowtok(#[trigger] members(value@)[i], bytes_of(needle@)),
//@ fn transfer_encoding_is_chunked
    ensures r == (hm_vals(headers@, TRANSFER_ENCODING).len() > 0 && ends_chunked(hm_vals(headers@, TRANSFER_ENCODING).last()@))
//@ fn is_chunked
    requires encodings.fresh(encodings.all())
    ensures r == (encodings.all().len() > 0 && ends_chunked(encodings.all().last()@))
//@ fn is_chunked_
    ensures r == ends_chunked(value@)
//@ ghost start
proof { lemma_members_len(value@); }
//@ source src/body/length.rs
//@ item struct DecodedLength derive="PartialEq, Eq, Structural, Clone, Copy"
//@ item const MAX_LEN
//@ item implconst DecodedLength::CLOSE_DELIMITED,CHUNKED,ZERO
//@ end
pub open spec fn max_len() -> u64 { 0xffff_ffff_ffff_fffd }
pub open spec fn dl(o: Option<u64>) -> DecodedLength { match o { Some(n) => if n <= max_len() { DecodedLength(n) } else { DecodedLength::CHUNKED }, None => DecodedLength::CHUNKED } }
pub open spec fn known(d: DecodedLength) -> Option<u64> { if d.0 <= max_len() { Some(d.0) } else { None } }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Parse { Method, Version, VersionH2, Uri, UriTooLong, TooLarge, Status, Internal, Header(Header) }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Header { Token, ContentLengthInvalid, TransferEncodingInvalid, TransferEncodingUnexpected }
pub mod error { pub use super::{Parse, Header}; }
//@ source src/error.rs
//@ fn Parse::content_length_invalid
    ensures r == Parse::Header(Header::ContentLengthInvalid)
//@ fn Parse::transfer_encoding_invalid
    ensures r == Parse::Header(Header::TransferEncodingInvalid)
//@ fn Parse::transfer_encoding_unexpected
    ensures r == Parse::Header(Header::TransferEncodingUnexpected)
//@ source src/body/length.rs
//@ fn DecodedLength::checked_new
    ensures match r { Ok(d) => d.0 == len && len <= max_len(), Err(e) => len > max_len() && e == error::Parse::TooLarge }
//@ fn <From<Option<u64>> for DecodedLength>::from impl="impl DecodedLength" combin="and_then=opt_and_then"
    ensures r == dl(len)
//@ fn DecodedLength::danger_len
    requires self.0 <= max_len()
    ensures r == self.0
//@ fn DecodedLength::into_opt
    ensures r == known(self)
//@ fn DecodedLength::sub_if
    requires known(*old(self)) is Some ==> amt <= old(self).0
    ensures known(*old(self)) is Some ==> final(self).0 == old(self).0 - amt, known(*old(self)) is None ==> *final(self) == *old(self)
//@ fn DecodedLength::is_exact optional=1
    ensures r == (known(*self) is Some)
//@ end
} // verus!
