verus! {
// ---- writing header lines (role.rs) ---------------------------------------
pub open spec fn crlf() -> Seq<u8> { seq![0x0du8, 0x0a] }
pub open spec fn upper(b: u8) -> u8 { if 0x61 <= b <= 0x7a { (b - 0x20) as u8 } else { b } }
pub open spec fn lower(b: u8) -> u8 { if 0x41 <= b <= 0x5a { (b + 0x20) as u8 } else { b } }
pub open spec fn tcase(n: Seq<u8>) -> Seq<u8> { Seq::new(n.len(), |i: int| if i == 0 || n[i - 1] == 0x2d { upper(n[i]) } else { n[i] }) }
/// title case changes letter case only
pub proof fn lemma_tcase(n: Seq<u8>)
    ensures tcase(n).len() == n.len(), forall|i: int| 0 <= i < n.len() ==> lower(#[trigger] tcase(n)[i]) == lower(n[i]) {}
pub open spec fn hline(n: Seq<u8>, v: Seq<u8>) -> Seq<u8> { n + seq![0x3au8, 0x20] + v + crlf() }
pub open spec fn nm(n: HeaderName, title: bool) -> Seq<u8> { if title { tcase(name_str(n)) } else { name_str(n) } }
/// what a list of header lines looks like on the wire
pub open spec fn render(ls: Seq<(HeaderName, HeaderValue)>, title: bool) -> Seq<u8>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { render(ls.drop_last(), title) + hline(nm(ls.last().0, title), ls.last().1@) }
}
pub proof fn lemma_render_push(ls: Seq<(HeaderName, HeaderValue)>, title: bool, k: int)
    requires 0 <= k < ls.len()
    ensures render(ls.take(k + 1), title) == render(ls.take(k), title) + hline(nm(ls[k].0, title), ls[k].1@)
{
    assert(ls.take(k + 1).drop_last() =~= ls.take(k));
}
#[verifier::external_body]
pub struct ByteIter<'a> { p: &'a u8 }
impl<'a> ByteIter<'a> {
    pub uninterp spec fn all(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a u8>)
        ensures final(self).all() == old(self).all(), match r {
            None => old(self).pos() >= old(self).all().len() && final(self).pos() == old(self).pos(),
            Some(b) => old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1 && *b == old(self).all()[old(self).pos() as int],
        } { unimplemented!() }
}
#[verifier::external_body]
pub fn byte_iter<'a>(s: &'a [u8]) -> (r: ByteIter<'a>) ensures r.all() == s@, r.pos() == 0 { unimplemented!() }
pub assume_specification[ u8::make_ascii_uppercase ](b: &mut u8) ensures *final(b) == upper(*old(b));

//@ source src/proto/h1/role.rs
//@ fn extend
    ensures final(dst)@ == old(dst)@ + data@
//@ ghost end
proof { assert(dst@ =~= old(dst)@ + data@); }
//@ fn title_case for0=fn:byte_iter attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    ensures final(dst)@ == old(dst)@ + tcase(name@)
//@ loop 0
    invariant
        vx_it0.all() == name@, vx_it0.pos() <= name@.len(),
        dst@ == old(dst)@ + tcase(name@).take(vx_it0.pos() as int),
        vx_it0.pos() == 0 ==> prev == 0x2d,
        vx_it0.pos() > 0 ==> (prev == 0x2d <==> name@[vx_it0.pos() - 1] == 0x2d),
//@ ghost before `let mut prev`
proof { assert(dst@ + tcase(name@).take(0) =~= dst@); assert(tcase(name@).take(name@.len() as int) =~= tcase(name@)); }
//@ ghost loop 0 start
proof { let k = vx_it0.pos() as int; assert(tcase(name@).take(k) =~= tcase(name@).take(k - 1).push(tcase(name@)[k - 1])); }
//@ ghost loop 0 end
proof { assert(dst@ =~= old(dst)@ + tcase(name@).take(vx_it0.pos() as int)); }
//@ fn write_headers for0=iter attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    ensures final(dst)@ == old(dst)@ + render(hm_lines(headers@), false)
//@ loop 0
    invariant
        vx_it0.lines() == hm_lines(headers@), vx_it0.pos() <= vx_it0.lines().len(),
        dst@ == old(dst)@ + render(vx_it0.lines().take(vx_it0.pos() as int), false),
//@ ghost start
proof { let l = hm_lines(headers@); assert(dst@ + render(l.take(0), false) =~= dst@); assert(l.take(l.len() as int) =~= l); }
//@ ghost loop 0 start
let ghost d0 = dst@;
proof { lemma_render_push(vx_it0.lines(), false, vx_it0.pos() - 1); }
//@ ghost loop 0 end
proof {
    assert(dst@ =~= d0 + hline(nm(*name, false), value@));
    assert(dst@ =~= old(dst)@ + render(vx_it0.lines().take(vx_it0.pos() as int), false));
}
//@ fn write_headers_title_case for0=iter attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    ensures final(dst)@ == old(dst)@ + render(hm_lines(headers@), true)
//@ loop 0
    invariant
        vx_it0.lines() == hm_lines(headers@), vx_it0.pos() <= vx_it0.lines().len(),
        dst@ == old(dst)@ + render(vx_it0.lines().take(vx_it0.pos() as int), true),
//@ ghost start
proof { let l = hm_lines(headers@); assert(dst@ + render(l.take(0), true) =~= dst@); assert(l.take(l.len() as int) =~= l); }
//@ ghost loop 0 start
let ghost d0 = dst@;
proof { lemma_render_push(vx_it0.lines(), true, vx_it0.pos() - 1); }
//@ ghost loop 0 end
proof {
    assert(dst@ =~= d0 + hline(nm(*name, true), value@));
    assert(dst@ =~= old(dst)@ + render(vx_it0.lines().take(vx_it0.pos() as int), true));
}
//@ end
} // verus!
