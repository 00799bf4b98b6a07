//! The size line of a chunk, for every length: upper-case hexadecimal digits
//! without leading zeros, then CRLF.
use hyper::verif::encode::chunk_size_line;
#[kani::proof]
#[kani::unwind(20)]
fn size_line() {
    let len: usize = kani::any();
    let (b, n) = chunk_size_line(len);
    assert!(n >= 3 && n <= 18, "between one and sixteen digits");
    assert!(b[n - 2] == b'\r' && b[n - 1] == b'\n', "the line ends");
    let k: usize = kani::any();
    kani::assume(k < n - 2);
    // digit k counts from the left
    let sh = 4 * (n - 3 - k);
    let d = ((len >> sh) & 15) as u8;
    assert!(b[k] == if d < 10 { b'0' + d } else { b'A' + d - 10 }, "each digit is that of the length");
    assert!(n == 18 || (len >> (4 * (n - 2))) == 0, "all digits are there");
    assert!(n == 3 || b[0] != b'0', "no leading zeros");
}
