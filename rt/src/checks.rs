//! The property checks. Each takes a declaration table and one generated case and says what is wrong.
use crate::model::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub acc: u16,
    pub vals: Vec<(u8, u128)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub var: u16,
    pub vals: Vec<(u8, u128)>,
    pub mode: u8,
    pub buf: Vec<u8>,
    pub ops: Vec<Op>,
    pub extra: Vec<u8>,
}

/// turns the choice (sel, v) into a value of the leaf's type. Without `wild` it fits the declared bits.
pub fn shape(l: &Leaf, (sel, v): (u8, u128), wild: bool) -> u128 {
    let n = if wild && !matches!(l.kind, NESTED | BENUM) {
        l.width as usize
    } else {
        l.pos.len()
    };
    let bits = match sel {
        0 => v,
        1 => u128::MAX,
        2 => 1u128 << (n - 1),
        3 => mask(n - 1),
        4 => 0,
        5 => 1u128 << (v as usize % n),
        6 => !(1u128 << (v as usize % n)),
        7 => v & 0xff,
        _ => v,
    } & mask(n);
    match l.kind {
        CHAR => {
            if bits <= 0x10FFFF && !(0xD800..=0xDFFF).contains(&bits) {
                bits
            } else if bits & 0x1FFFFF <= 0x10FFFF && !(0xD800..=0xDFFF).contains(&(bits & 0x1FFFFF)) {
                bits & 0x1FFFFF
            } else {
                bits & 0xFFFF & !0xD800
            }
        }
        NESTED | BENUM => {
            // a value whose bits survive being cut to the field's length
            let norm = l.norm.unwrap();
            let mut x = norm(bits);
            for _ in 0..3 {
                x = norm(x);
            }
            x
        }
        INT if !wild => interpret(l, bits),
        BOOL => bits & 1,
        _ => bits,
    }
}

impl Desc {
    pub fn buf(&self, c: &Case) -> Vec<u8> {
        let mut b = match c.mode {
            1 => vec![0u8; self.bytes],
            2 => vec![0xFFu8; self.bytes],
            _ => c.buf.clone(),
        };
        b.resize(self.bytes, 0xA5);
        // make ids land on declared variants often
        if let (Some(l), 3..=9) = (&self.id_leaf, c.mode) {
            let i = c.var as usize % self.vars.len();
            leaf_store(l, &mut b, self.vars[i].id);
        }
        b
    }
    pub fn value(&self, c: &Case, wild: bool) -> (usize, Vals) {
        let var = c.var as usize % self.vars.len();
        let v = &self.vars[var];
        let mut out: Vals = Vec::new();
        for (i, l) in v.leaves.iter().enumerate() {
            let mut x = shape(l, c.vals.get(i).copied().unwrap_or((0, 0)), wild);
            if i == 0 && v.capture && self.select(x & mask(l.pos.len())) != var {
                x = v.id;
            } else if i == 0 && v.capture {
                x &= mask(l.pos.len());
            }
            out.push(x);
        }
        (var, out)
    }
    fn show(&self, var: usize, vals: &[u128]) -> String {
        let v = &self.vars[var];
        let body: Vec<String> = v
            .leaves
            .iter()
            .zip(vals)
            .map(|(l, x)| format!("{}={:#x}", l.name, x))
            .collect();
        format!("{}{{{}}}", v.name, body.join(", "))
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join("")
}

type R = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// from_bytes(into_bytes(v)) == v for the fields both of them handle
pub fn roundtrip(d: &Desc, c: &Case) -> R {
    let (var, vals) = d.value(c, false);
    let b = (d.enc)(var, &vals);
    let (v2, got) = (d.dec)(&b);
    ensure!(v2 == var, "{} encoded as {} decoded as variant {}", d.show(var, &vals), hex(&b), d.vars[v2].name);
    for (i, l) in d.vars[var].leaves.iter().enumerate() {
        if l.enc && l.dec {
            ensure!(got[i] == vals[i], "round trip changed field {}: {} -> bytes {} -> {}", l.name, d.show(var, &vals), hex(&b), d.show(v2, &got));
        } else if !l.dec {
            ensure!(got[i] == 0, "reserve field {} decoded as {:#x} instead of Default", l.name, got[i]);
        }
    }
    Ok(())
}
fn enc_is(d: &Desc, c: &Case, wild: bool) -> R {
    let (var, vals) = d.value(c, wild);
    let want = d.m_enc(var, &vals);
    let got = (d.enc)(var, &vals);
    ensure!(got == want, "into_bytes of {} gave {}, layout says {}", d.show(var, &vals), hex(&got), hex(&want));
    Ok(())
}
/// into_bytes gives the documented layout
pub fn encode(d: &Desc, c: &Case) -> R {
    enc_is(d, c, false)
}
/// ... also for values which do not fit
pub fn encode_wild(d: &Desc, c: &Case) -> R {
    enc_is(d, c, true)
}
/// from_bytes decodes the documented layout, whatever the bytes
pub fn decode(d: &Desc, c: &Case) -> R {
    let b = d.buf(c);
    let (wv, want) = d.m_dec(&b);
    let (gv, got) = (d.dec)(&b);
    ensure!(gv == wv, "from_bytes({}) gave variant {}, id says {}", hex(&b), d.vars[gv].name, d.vars[wv].name);
    ensure!(got == want, "from_bytes({}) gave {}, layout says {}", hex(&b), d.show(gv, &got), d.show(wv, &want));
    Ok(())
}
/// read_* decode the documented layout, whatever the bytes
pub fn read(d: &Desc, c: &Case) -> R {
    let b = d.buf(c);
    for a in d.accs {
        let want: Vals = a.leaves.iter().map(|l| leaf_dec(l, &b)).collect();
        let got = (a.read)(&b);
        ensure!(got == want, "read_{}({}) gave {:x?}, layout says {:x?}", a.name, hex(&b), got, want);
    }
    Ok(())
}
/// read_* equal the fields of from_bytes; into_bytes equals write_* into zeroes (no layout involved)
pub fn agree(d: &Desc, c: &Case) -> R {
    let b = d.buf(c);
    let (var, vals) = (d.dec)(&b);
    for a in d.accs {
        if a.var != var {
            continue;
        }
        let got = (a.read)(&b);
        for (i, l) in a.leaves.iter().enumerate() {
            if l.dec {
                ensure!(got[i] == vals[a.lo + i], "read_{}({}) gave {:#x} for {} but from_bytes gave {:#x}", a.name, hex(&b), got[i], l.name, vals[a.lo + i]);
            }
        }
    }
    for wild in [false, true] {
        let (var, vals) = d.value(c, wild);
        let got = (d.enc)(var, &vals);
        let mut want = vec![0u8; d.bytes];
        for a in d.accs {
            if a.var == usize::MAX {
                (a.write)(&mut want, &[d.id_of(var, &vals)]);
            }
        }
        for a in d.accs {
            if a.var == var && a.leaves.iter().all(|l| l.enc) {
                (a.write)(&mut want, &vals[a.lo..a.lo + a.leaves.len()]);
            }
        }
        ensure!(got == want, "into_bytes of {} gave {} but the writers give {}", d.show(var, &vals), hex(&got), hex(&want));
    }
    Ok(())
}
fn ops_with(
    d: &Desc,
    c: &Case,
    wild: bool,
    write: &dyn Fn(&Acc, &mut [u8], &[u128]) -> Result<bool, String>,
    tail: &[u8],
) -> R {
    let mut b = d.buf(c);
    b.extend_from_slice(tail);
    let mut m = b.clone();
    let writable: Vec<&Acc> = d.accs.iter().collect();
    if writable.is_empty() {
        return Ok(());
    }
    for (k, op) in c.ops.iter().enumerate() {
        let a = writable[op.acc as usize % writable.len()];
        let vals: Vals = a
            .leaves
            .iter()
            .enumerate()
            .map(|(i, l)| shape(l, op.vals.get(i).copied().unwrap_or((0, 0)), wild))
            .collect();
        let before = b.clone();
        if !write(a, &mut b, &vals)? {
            continue;
        }
        for (l, v) in a.leaves.iter().zip(&vals) {
            leaf_store(l, &mut m, *v);
        }
        ensure!(b == m, "write {} of {} = {:x?} into {} gave {}, layout says {}", k, a.name, vals, hex(&before), hex(&b), hex(&m));
        let got = (a.read)(&b[..d.bytes]);
        let want: Vals = a.leaves.iter().zip(&vals).map(|(l, v)| stored(l, *v)).collect();
        let overlap = a.leaves.iter().enumerate().any(|(i, l)| {
            a.leaves.iter().take(i).any(|o| o.pos.iter().any(|p| l.pos.contains(p)))
        });
        if !overlap {
            ensure!(got == want, "after write_{}({:x?}) into {}, read_{} gives {:x?} instead of {:x?}", a.name, vals, hex(&before), a.name, got, want);
        }
    }
    Ok(())
}
/// every sequence of writes on any buffer changes exactly the written fields' bits
pub fn writes(d: &Desc, c: &Case) -> R {
    ops_with(d, c, false, &|a, b, v| { (a.write)(b, v); Ok(true) }, &[])?;
    ops_with(d, c, true, &|a, b, v| { (a.write)(b, v); Ok(true) }, &[])
}
/// write_x then the inverse: restoring the old values restores the buffer (no layout involved)
pub fn undo(d: &Desc, c: &Case) -> R {
    let b0 = d.buf(c);
    let mut b = b0.clone();
    for op in &c.ops {
        let a = &d.accs[op.acc as usize % d.accs.len()];
        if a.leaves.iter().any(|l| matches!(l.kind, NESTED | BENUM | CHAR | BOOL)) {
            continue;
        }
        let vals: Vals = a.leaves.iter().enumerate().map(|(i, l)| shape(l, op.vals.get(i).copied().unwrap_or((0, 0)), true)).collect();
        let old = (a.read)(&b);
        let others: Vec<(usize, Vals)> = d.accs.iter().enumerate()
            .filter(|(_, o)| disjoint(o, a)).map(|(i, o)| (i, (o.read)(&b))).collect();
        let before = b.clone();
        (a.write)(&mut b, &vals);
        for (i, o) in others {
            let now = (d.accs[i].read)(&b);
            ensure!(now == o, "write_{}({:x?}) into {} changed {} from {:x?} to {:x?}", a.name, vals, hex(&before), d.accs[i].name, o, now);
        }
        (a.write)(&mut b, &old);
        ensure!(b == before, "writing {:x?} then the old value {:x?} to {} turned {} into {}", vals, old, a.name, hex(&before), hex(&b));
    }
    Ok(())
}
fn disjoint(a: &Acc, b: &Acc) -> bool {
    !a.leaves.iter().any(|l| l.pos.iter().any(|p| b.leaves.iter().any(|m| m.pos.contains(p))))
}
/// decode(encode(wild)) is the truncated, sign extended value; also through write/read
pub fn wild(d: &Desc, c: &Case) -> R {
    let (var, vals) = d.value(c, true);
    let b = (d.enc)(var, &vals);
    let (v2, got) = (d.dec)(&b);
    ensure!(v2 == var, "{} decoded as variant {}", d.show(var, &vals), d.vars[v2].name);
    for (i, l) in d.vars[var].leaves.iter().enumerate() {
        if l.enc && l.dec {
            let want = stored(l, vals[i]);
            ensure!(got[i] == want, "field {} set to {:#x} came back as {:#x} instead of {:#x} (value {}, bytes {})", l.name, vals[i], got[i], want, d.show(var, &vals), hex(&b));
        }
    }
    Ok(())
}
/// BYTE_SIZE, BIT_SIZE and the length of the array
pub fn consts(d: &Desc, c: &Case) -> R {
    let (by, bi) = (d.consts)();
    ensure!(bi == d.bits, "BIT_SIZE is {}, declaration says {}", bi, d.bits);
    ensure!(by == d.bytes, "BYTE_SIZE is {}, declaration says {}", by, d.bytes);
    let (var, vals) = d.value(c, true);
    let b = (d.enc)(var, &vals);
    ensure!(b.len() == d.bytes, "into_bytes gives {} bytes", b.len());
    // no bit outside of the fields
    let mut free = vec![0xFFu8; d.bytes];
    for l in d.vars[var].leaves.iter().chain(d.id_leaf.iter()) {
        for p in l.pos {
            set_bit(&mut free, *p, 0);
        }
    }
    for (i, x) in b.iter().enumerate() {
        ensure!(x & free[i] == 0, "into_bytes of {} sets filler bits: {}", d.show(var, &vals), hex(&b));
    }
    Ok(())
}
/// from_bytes ignores the bits outside of the selected variant's fields
pub fn filler(d: &Desc, c: &Case) -> R {
    let b = d.buf(c);
    let (var, vals) = (d.dec)(&b);
    let mut b2 = b.clone();
    let mut used = vec![0u8; d.bytes];
    for l in d.vars[var].leaves.iter().chain(d.id_leaf.iter()) {
        for p in l.pos {
            set_bit(&mut used, *p, 1);
        }
    }
    for (i, x) in b2.iter_mut().enumerate() {
        let noise = c.extra.get(i).copied().unwrap_or(0xFF);
        *x ^= noise & !used[i];
    }
    let again = (d.dec)(&b2);
    ensure!(again == (var, vals.clone()), "from_bytes({}) and from_bytes({}) differ although only unused bits do", hex(&b), hex(&b2));
    Ok(())
}
/// id(), read_variant_id and the encoded id
pub fn ids(d: &Desc, c: &Case) -> R {
    let l = match &d.id_leaf {
        Some(l) => l,
        None => return Ok(()),
    };
    let (var, vals) = d.value(c, false);
    let want = d.id_of(var, &vals);
    let b = (d.enc)(var, &vals);
    ensure!(raw_bits(l, &b) == want, "{} encodes id {:#x}, its id is {:#x}", d.show(var, &vals), raw_bits(l, &b), want);
    if let Some(f) = d.id_fn {
        let got = f(var, &vals);
        ensure!(got == want, "id() of {} is {:#x}, should be {:#x}", d.show(var, &vals), got, want);
    }
    for a in d.accs.iter().filter(|a| a.var == usize::MAX) {
        let got = (a.read)(&b);
        ensure!(got == vec![want], "read_variant_id gives {:x?} for {}", got, d.show(var, &vals));
    }
    if let Some(eq) = d.id_eq {
        let t = mask(l.width as usize);
        let other = c.vals.first().map(|x| x.1).unwrap_or(0) & t;
        for n in [want, other, want ^ 1, want.wrapping_add(1) & t, 0, t, c.var as u128 & t, want ^ (1 << (l.pos.len() - 1))] {
            ensure!(eq(var, &vals, n) == (n == want), "{} == {:#x} is {}, its id is {:#x}", d.show(var, &vals), n, eq(var, &vals, n), want);
        }
        for v in d.vars {
            ensure!(eq(var, &vals, v.id) == (v.id == want), "{} == {:#x} is wrong, its id is {:#x}", d.show(var, &vals), v.id, want);
        }
    }
    // decoding any bytes: id() of the result
    let b = d.buf(c);
    let (dv, dvals) = (d.dec)(&b);
    let raw = raw_bits(l, &b);
    ensure!(dv == d.select(raw), "id {:#x} selects {} but {} was decoded from {}", raw, d.vars[d.select(raw)].name, d.vars[dv].name, hex(&b));
    if let Some(f) = d.id_fn {
        let want = if d.vars[dv].capture { raw } else { d.vars[dv].id };
        let got = f(dv, &dvals);
        ensure!(got == want, "id() after decoding {} is {:#x}, should be {:#x}", hex(&b), got, want);
    }
    Ok(())
}
/// every id value there is (up to 4096 of them)
pub fn all_ids(d: &Desc, c: &Case) -> R {
    if let Some(l) = &d.id_leaf {
        let n = l.pos.len();
        let top = mask(n.min(12));
        let mut b = d.buf(c);
        let mut id = 0u128;
        loop {
            leaf_store(l, &mut b, id);
            let (v, vals) = (d.dec)(&b);
            ensure!(v == d.select(id), "id {:#x} selects {} but {} was decoded", id, d.vars[d.select(id)].name, d.vars[v].name);
            if d.vars[v].capture {
                ensure!(vals[0] == id, "id {:#x} was captured as {:#x}", id, vals[0]);
            }
            if id == top {
                break;
            }
            id += 1;
        }
    }
    Ok(())
}
/// captured ids go in and out unchanged
pub fn capture(d: &Desc, c: &Case) -> R {
    let l = match &d.id_leaf {
        Some(l) => l,
        None => return Ok(()),
    };
    let cap = match d.vars.iter().position(|v| v.capture) {
        Some(i) => i,
        None => return Ok(()),
    };
    let mut b = d.buf(c);
    let mut id = c.vals.first().map(|x| x.1).unwrap_or(0) & mask(l.pos.len());
    if d.select(id) != cap {
        id = d.vars[cap].id;
    }
    leaf_store(l, &mut b, id);
    let (v, vals) = (d.dec)(&b);
    ensure!(v == cap, "id {:#x} should reach {} but {} was decoded", id, d.vars[cap].name, d.vars[v].name);
    ensure!(vals[0] == id, "id {:#x} was captured as {:#x}", id, vals[0]);
    if let Some(f) = d.id_fn {
        ensure!(f(v, &vals) == id, "id() is {:#x} after capturing {:#x}", f(v, &vals), id);
    }
    let out = (d.enc)(v, &vals);
    let mut want = b.clone();
    let mut used = vec![0u8; d.bytes];
    for l in d.vars[v].leaves.iter().chain(d.id_leaf.iter()).filter(|l| l.enc) {
        for p in l.pos {
            set_bit(&mut used, *p, 1);
        }
    }
    for (w, u) in want.iter_mut().zip(&used) {
        *w &= u;
    }
    // fields whose bits are not canonical may change
    for l in d.vars[v].leaves.iter().filter(|l| l.enc) {
        let x = leaf_dec(l, &b);
        leaf_store(l, &mut want, x);
    }
    ensure!(out == want, "{} decoded and encoded again gives {} instead of {}", hex(&b), hex(&out), hex(&want));
    if let Some(dy) = &d.dy {
        let s = (dy.from_slice)(&b).map_err(|e| format!("from_slice: {e:?}"))?;
        ensure!(s == (v, vals.clone()), "from_slice({}) captured {:x?}", hex(&b), s.1);
    }
    Ok(())
}

fn need(a: &Acc) -> usize {
    a.leaves.iter().flat_map(|l| l.pos).map(|p| *p as usize / 8).max().unwrap_or(0) + 1
}
/// read_slice_*/write_slice_*/check_slice(_mut) on slices of every length
pub fn slices(d: &Desc, c: &Case) -> R {
    let base = d.buf(c);
    let needs: std::collections::BTreeSet<usize> = d.accs.iter().map(need).collect();
    for len in 0..=d.bytes + 2 {
        if d.bytes > 120 && !needs.contains(&len) && !needs.contains(&(len + 1)) && len + 1 < d.bytes && len % 37 != 0 {
            continue;
        }
        let mut b = base.clone();
        for i in d.bytes..len {
            b.push(c.extra.get(i).copied().unwrap_or(0x3C));
        }
        b.truncate(len);
        for (k, a) in d.accs.iter().enumerate() {
            let dy = match &a.dy {
                Some(x) => x,
                None => continue,
            };
            // of large ones only the lengths at which something could change
            if d.bytes > 120 && len != need(a) && len + 1 != need(a) && len + 1 != d.bytes && len < d.bytes && len != (k * 37) % d.bytes {
                continue;
            }
            let want: Option<Vals> = if len >= need(a) {
                Some(a.leaves.iter().map(|l| leaf_dec(l, &b)).collect())
            } else {
                None
            };
            one_read(&format!("read_slice_{}", a.name), (dy.rs)(&b), &want, len, need(a), &b)?;
            let full = if len >= d.bytes { want.clone() } else { None };
            if let Some(f) = dy.cr {
                one_read(&format!("check_slice().read_{}", a.name), f(&b), &full, len, d.bytes, &b)?;
            }
            if let Some(f) = dy.cmr {
                let mut m = b.clone();
                one_read(&format!("check_slice_mut().read_{}", a.name), f(&mut m), &full, len, d.bytes, &b)?;
                ensure!(m == b, "check_slice_mut().read_{} changed the buffer", a.name);
            }
            if let Some(f) = dy.ur {
                let got = catch_unwind(AssertUnwindSafe(|| f(&b))).ok();
                ensure!(got == want, "from_unchecked_slice({}).read_{} gave {:x?}, should be {:x?} (None: panic)", hex(&b), a.name, got, want);
            }
            let vals: Vals = a.leaves.iter().enumerate().map(|(i, l)| {
                shape(l, c.vals.get(i + k).copied().unwrap_or((1, 0)), true)
            }).collect();
            for (what, f, req) in [("write_slice_", dy.ws, need(a)), ("check_slice_mut().write_", dy.cmw, d.bytes)] {
                let f = match f {
                    Some(f) => f,
                    None => continue,
                };
                let mut m = b.clone();
                let mut want = b.clone();
                let r = f(&mut m, &vals);
                if len >= req {
                    for (l, v) in a.leaves.iter().zip(&vals) {
                        leaf_store(l, &mut want, *v);
                    }
                    ensure!(r.is_ok(), "{what}{} of {} bytes failed with {:?}, {} are needed", a.name, len, r, req);
                } else {
                    ensure!(r == Err((len, req)), "{what}{} of {} bytes gave {:?}, should be Err(({}, {}))", a.name, len, r, len, req);
                }
                ensure!(m == want, "{what}{}({:x?}) turned {} into {}, should be {}", a.name, vals, hex(&b), hex(&m), hex(&want));
            }
            if let Some(f) = dy.uw {
                let mut m = b.clone();
                let done = catch_unwind(AssertUnwindSafe(|| f(&mut m, &vals))).is_ok();
                ensure!(done == (len >= need(a)), "from_unchecked_slice().write_{} of {} bytes {}, {} are needed", a.name, len, if done { "did not panic" } else { "panicked" }, need(a));
                if done {
                    let mut want = b.clone();
                    for (l, v) in a.leaves.iter().zip(&vals) {
                        leaf_store(l, &mut want, *v);
                    }
                    ensure!(m == want, "from_unchecked_slice().write_{}({:x?}) turned {} into {}, should be {}", a.name, vals, hex(&b), hex(&m), hex(&want));
                }
            }
        }
    }
    Ok(())
}
fn one_read(what: &str, got: Result<Vals, Len>, want: &Option<Vals>, len: usize, req: usize, b: &[u8]) -> R {
    match (got, want) {
        (Ok(g), Some(w)) => {
            ensure!(&g == w, "{what}({}) gave {:x?}, layout says {:x?}", hex(b), g, w);
        }
        (Err(e), None) => {
            ensure!(e == (len, req), "{what} of {len} bytes failed with {:?}, should be ({len}, {req})", e);
        }
        (Ok(g), None) => return Err(format!("{what} of {len} bytes gave {g:x?} although {req} bytes are needed")),
        (Err(e), Some(_)) => return Err(format!("{what} of {len} bytes failed with {e:?} although {req} bytes are enough")),
    }
    Ok(())
}
/// a history of write_slice_* calls on one buffer
pub fn slice_ops(d: &Desc, c: &Case) -> R {
    let tail: Vec<u8> = c.extra.iter().take(3).copied().collect();
    ops_with(d, c, true, &|a, b, v| match a.dy.as_ref().and_then(|x| x.ws) {
        Some(f) => f(b, v).map(|_| true).map_err(|e| format!("write_slice_{} failed with {:?} on {} bytes", a.name, e, b.len())),
        None => Ok(false),
    }, &tail)?;
    ops_with(d, c, true, &|a, b, v| match a.dy.as_ref().and_then(|x| x.cmw) {
        Some(f) => f(b, v).map(|_| true).map_err(|e| format!("check_slice_mut failed with {:?} on {} bytes", e, b.len())),
        None => Ok(false),
    }, &tail)
}
/// from_slice / from_vec
pub fn dynamic(d: &Desc, c: &Case) -> R {
    let dy = match &d.dy {
        Some(x) => x,
        None => return Ok(()),
    };
    let base = d.buf(c);
    let whole = (d.dec)(&base);
    ensure!(whole == d.m_dec(&base), "from_bytes({}) gave {}, layout says {}", hex(&base), d.show(whole.0, &whole.1), d.show(d.m_dec(&base).0, &d.m_dec(&base).1));
    for len in 0..=d.bytes + 3 {
        if d.bytes > 1000 && len > 3 && len + 3 < d.bytes && len % 101 != 0 && len % 256 > 1 {
            continue;
        }
        let mut b = base.clone();
        for i in d.bytes..len {
            b.push(c.extra.get(i).copied().unwrap_or(0x3C));
        }
        b.truncate(len);
        let s = (dy.from_slice)(&b);
        let mut v = b.clone();
        let r = (dy.from_vec)(&mut v);
        if len < d.bytes {
            ensure!(s == Err((len, d.bytes)), "from_slice of {} bytes gave {:x?}, should be Err(({}, {}))", len, s, len, d.bytes);
            ensure!(r == Err((len, d.bytes)), "from_vec of {} bytes gave {:x?}, should be Err(({}, {}))", len, r, len, d.bytes);
            ensure!(v == b, "failed from_vec changed the vector from {} to {}", hex(&b), hex(&v));
        } else {
            ensure!(s == Ok(whole.clone()), "from_slice({}) gave {:x?}, from_bytes gives {:x?}", hex(&b), s, whole);
            ensure!(r == Ok(whole.clone()), "from_vec({}) gave {:x?}, from_bytes gives {:x?}", hex(&b), r, whole);
            ensure!(v == b[d.bytes..], "from_vec({}) left {} instead of {}", hex(&b), hex(&v), hex(&b[d.bytes..]));
        }
    }
    Ok(())
}
/// a stream of encodings parsed back with from_vec
pub fn stream(d: &Desc, c: &Case) -> R {
    let dy = match &d.dy {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut sent = Vec::new();
    let mut v = Vec::new();
    for op in &c.ops {
        let c2 = Case { var: op.acc, vals: op.vals.clone(), ..c.clone() };
        let (var, vals) = d.value(&c2, false);
        v.extend((d.enc)(var, &vals));
        let want: Vals = d.vars[var].leaves.iter().zip(&vals).map(|(l, x)| if l.enc && l.dec { Some(*x) } else { None })
            .enumerate().map(|(i, x)| x.unwrap_or_else(|| d.m_dec(&d.m_enc(var, &vals)).1[i])).collect();
        sent.push((var, want));
    }
    let tail: Vec<u8> = c.extra.iter().take(d.bytes - 1).copied().collect();
    v.extend(&tail);
    for (k, s) in sent.iter().enumerate() {
        let got = (dy.from_vec)(&mut v);
        ensure!(got.as_ref() == Ok(s), "value {} of the stream came back as {:x?}, sent {:x?}", k, got, s);
    }
    ensure!(v == tail, "{} bytes should be left, have {}", hex(&tail), hex(&v));
    ensure!((dy.from_vec)(&mut v) == Err((tail.len(), d.bytes)), "short tail was accepted");
    Ok(())
}
pub fn hexes(d: &Desc, c: &Case) -> R {
    let h = match &d.hex {
        Some(h) => h,
        None => return Ok(()),
    };
    ensure!(h.hex_size == d.bytes * 2, "hex size {}", h.hex_size);
    let (var, vals) = d.value(c, true);
    let b = (d.enc)(var, &vals);
    let up: Vec<u8> = b.iter().map(|x| format!("{x:02X}")).collect::<String>().into_bytes();
    let lo: Vec<u8> = b.iter().map(|x| format!("{x:02x}")).collect::<String>().into_bytes();
    let (gu, gl) = ((h.upper)(var, &vals), (h.lower)(var, &vals));
    ensure!(gu == up, "into_hex_upper of bytes {} gave {:?}", hex(&b), String::from_utf8_lossy(&gu));
    ensure!(gl == lo, "into_hex_lower of bytes {} gave {:?}", hex(&b), String::from_utf8_lossy(&gl));
    // text: hex of a random buffer in mixed case
    let raw = d.buf(c);
    let mut t: Vec<u8> = raw.iter().enumerate().flat_map(|(i, x)| {
        if c.extra.get(i).copied().unwrap_or(0) & 1 == 1 { format!("{x:02X}") } else { format!("{x:02x}") }.into_bytes()
    }).collect();
    if c.mode == 9 {
        for (i, x) in t.iter_mut().enumerate() {
            if c.extra.get(i % c.extra.len().max(1)).copied().unwrap_or(0) & 2 == 2 {
                *x = x.to_ascii_uppercase();
            }
        }
    }
    let want = (d.dec)(&raw);
    hex_all(h, &t, &Ok(want.clone()))?;
    // longer input: only the leading characters count
    let mut longer = t.clone();
    longer.extend(c.extra.iter().take(4));
    hex_dyn(h, &longer, &Ok(want))?;
    // corrupt
    for op in c.ops.iter() {
        let i = op.acc as usize % t.len();
        t[i] = op.vals.first().map(|x| x.1 as u8).unwrap_or(b'g');
    }
    hex_text(d, h, &t)?;
    // arbitrary characters
    let t2: Vec<u8> = (0..h.hex_size).map(|i| {
        let (s, v) = c.vals.get(i % c.vals.len().max(1)).copied().unwrap_or((0, 0));
        if s < 6 { b"0123456789abcdefABCDEF"[(v as usize >> (i % 64)) % 22] } else { (v >> (i % 64)) as u8 }
    }).collect();
    hex_text(d, h, &t2)?;
    // too short
    for n in [0, 1, h.hex_size / 2, h.hex_size - 1] {
        if n < h.hex_size {
            hex_dyn(h, &t[..n], &Err(HexErr::Len(n, h.hex_size)))?;
        }
    }
    Ok(())
}
fn nib(x: u8) -> Option<u8> {
    (x as char).to_digit(16).map(|x| x as u8)
}
fn hex_text(d: &Desc, h: &HexFns, t: &[u8]) -> R {
    let want = match t.iter().position(|x| nib(*x).is_none()) {
        Some(i) => Err(HexErr::Hex(t[i] as char, i)),
        None => {
            let raw: Vec<u8> = t.chunks(2).map(|p| nib(p[0]).unwrap() << 4 | nib(p[1]).unwrap()).collect();
            Ok((d.dec)(&raw))
        }
    };
    hex_all(h, t, &want)
}
fn hex_all(h: &HexFns, t: &[u8], want: &Result<(usize, Vals), HexErr>) -> R {
    let got = (h.from_hex)(t);
    ensure!(&got == want, "from_hex({:?}) gave {:x?}, should be {:x?}", String::from_utf8_lossy(t), got, want);
    hex_dyn(h, t, want)
}
fn hex_dyn(h: &HexFns, t: &[u8], want: &Result<(usize, Vals), HexErr>) -> R {
    if let Some(f) = h.from_hex_slice {
        let got = f(t);
        ensure!(&got == want, "from_hex_slice({:?}) gave {:x?}, should be {:x?}", String::from_utf8_lossy(t), got, want);
    }
    if let Some(f) = h.from_hex_vec {
        let mut v = t.to_vec();
        let got = f(&mut v);
        ensure!(&got == want, "from_hex_vec({:?}) gave {:x?}, should be {:x?}", String::from_utf8_lossy(t), got, want);
        if want.is_err() {
            ensure!(v == t, "failed from_hex_vec changed the vector");
        }
    }
    Ok(())
}

pub fn by_name(n: &str) -> Option<fn(&Desc, &Case) -> R> {
    Some(match n {
        "roundtrip" => roundtrip,
        "encode" => encode,
        "encode_wild" => encode_wild,
        "decode" => decode,
        "read" => read,
        "agree" => agree,
        "writes" => writes,
        "undo" => undo,
        "wild" => wild,
        "consts" => consts,
        "filler" => filler,
        "ids" => ids,
        "all_ids" => all_ids,
        "capture" => capture,
        "slices" => slices,
        "slice_ops" => slice_ops,
        "dynamic" => dynamic,
        "stream" => stream,
        "hexes" => hexes,
        _ => return None,
    })
}

/// primitive enums
pub fn benum(d: &EDesc, p: u128) -> R {
    let p = p & mask(d.width as usize);
    let want = d.m_from(p);
    let got = (d.from)(p);
    ensure!(got == want, "from_primitive({p}) gave variant {} (captured {}), should be {} ({})", got.0, got.1, want.0, want.1);
    let back = (d.into)(got.0, got.1);
    ensure!(back == d.m_into(got.0, got.1), "into_primitive of variant {} gave {}, should be {}", got.0, back, d.m_into(got.0, got.1));
    for (i, v) in d.vals {
        let x = (d.into)(*i, 0);
        ensure!(x == *v, "into_primitive of variant {i} gave {x}, should be {v}");
        let y = (d.from)(*v);
        ensure!(y == (*i, 0), "from_primitive({v}) gave variant {}, should be {i}", y.0);
    }
    if d.catch_all.1 {
        let x = (d.into)(d.catch_all.0, p);
        ensure!(x == p, "into_primitive of the capturing variant holding {p} gave {x}");
    }
    if let Some(eq) = d.eq {
        // comparing the catch-all with a primitive is documented to be false
        ensure!(!eq(d.catch_all.0, p, p), "the catch-all variant is equal to {p}");
        for (i, v) in d.vals.iter().filter(|(i, _)| *i != d.catch_all.0) {
            ensure!(eq(*i, 0, p) == (*v == p), "variant {i} (value {v}) == {p} is {}", eq(*i, 0, p));
            ensure!(eq(*i, 0, *v), "variant {i} is not equal to its value {v}");
        }
    }
    Ok(())
}
