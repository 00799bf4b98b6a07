pub open spec fn hexd(v: nat) -> u8 { if v < 10 { (0x30 + v) as u8 } else { (0x37 + v) as u8 } }
/// upper-case hexadecimal, no leading zeros
pub open spec fn hex(n: nat) -> Seq<u8> decreases n { if n < 16 { seq![hexd(n)] } else { hex(n / 16).push(hexd(n % 16)) } }
pub open spec fn last_chunk() -> Seq<u8> { seq![0x30u8, 0x0d, 0x0a, 0x0d, 0x0a] }
pub open spec fn chunk_of(m: Seq<u8>) -> Seq<u8> { hex(m.len()) + crlf() + m + crlf() }
