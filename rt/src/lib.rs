//! Runtime of the generated checks: an independent bit-level model of Bondrewd's documented
//! encoding, and the property checks that compare the generated code with it.
//! Nothing in here uses Bondrewd: layouts arrive as tables of bit positions computed by
//! /verif/bdw/model.py from the declaration alone.
pub mod checks;
pub mod model;
pub mod run;

pub use model::*;
pub use run::main_with;

fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}
/// the text of a length error names both lengths, the expected one as expected
pub fn said_len(e: &dyn std::fmt::Display, provided: usize, expected: usize) -> (usize, usize) {
    let s = e.to_string();
    let n = numbers(&s);
    assert!(n.contains(&provided) && n.contains(&expected), "the error for {provided} of {expected} bytes reads: {s}");
    let low = s.to_lowercase();
    if let Some(i) = low.find("expected ") {
        let first = numbers(&low[i..]).first().copied();
        assert!(!low[i + 9..].starts_with(|c: char| c.is_ascii_digit()) || first == Some(expected), "the error for {provided} of {expected} bytes reads: {s}");
    }
    (provided, expected)
}
/// the text of a hex error has the character and its index
pub fn said_hex(e: &dyn std::fmt::Display, c: char, i: usize) {
    let s = e.to_string();
    assert!(s.contains(c) && numbers(&s).contains(&i), "the error for {c:?} at {i} reads: {s:?}");
}

/// low `n` bits of `v`, left aligned in N bytes (the first n bits of an inner encoding).
pub fn nb<const N: usize>(v: u128, n: usize) -> [u8; N] {
    let mut out = [0u8; N];
    for i in 0..n {
        // bit i of the stream is bit n-1-i of v
        if (v >> (n - 1 - i)) & 1 == 1 {
            out[i / 8] |= 0x80 >> (i % 8);
        }
    }
    out
}
/// first `n` bits of an inner encoding as a number.
pub fn bn(b: &[u8], n: usize) -> u128 {
    let mut v = 0u128;
    for i in 0..n {
        v = (v << 1) | ((b[i / 8] >> (7 - i % 8)) & 1) as u128;
    }
    v
}
/// nb for more than 128 bits: all but the last number hold 128 of them.
pub fn nbs<const N: usize>(v: &[u128], n: usize) -> [u8; N] {
    let mut out = [0u8; N];
    for i in 0..n {
        let k = (n - i / 128 * 128).min(128);
        if (v[i / 128] >> (k - 1 - i % 128)) & 1 == 1 {
            out[i / 8] |= 0x80 >> (i % 8);
        }
    }
    out
}
/// `n` bits of an inner encoding from bit `from` on as a number.
pub fn bns(b: &[u8], from: usize, n: usize) -> u128 {
    let mut v = 0u128;
    for i in from..from + n {
        v = (v << 1) | ((b[i / 8] >> (7 - i % 8)) & 1) as u128;
    }
    v
}
/// like bn but anything set outside of the first n bits is an error the caller wants to see.
pub fn ch(v: u128) -> char {
    char::from_u32(v as u32).unwrap_or('\u{FFFD}')
}
