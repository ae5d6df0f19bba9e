//! Declaration tables and the reference model.
pub const UINT: u8 = 0;
pub const INT: u8 = 1;
pub const BOOL: u8 = 2;
pub const CHAR: u8 = 3;
pub const FLOAT: u8 = 4;
pub const NESTED: u8 = 5;
pub const BENUM: u8 = 6;

pub struct Leaf {
    pub name: &'static str,
    pub kind: u8,
    /// bits of the rust type
    pub width: u16,
    /// bit positions in the buffer (byte*8 + offset from the byte's most significant bit), index 0 is
    /// the position of the value's least significant bit.
    pub pos: &'static [u32],
    /// written by into_bytes
    pub enc: bool,
    /// read by from_bytes (otherwise Default)
    pub dec: bool,
    /// what a decode followed by an encode of the inner type gives (nested types)
    pub norm: Option<fn(u128) -> u128>,
}
pub struct Var {
    pub name: &'static str,
    pub id: u128,
    pub catch_all: bool,
    pub capture: bool,
    pub leaves: &'static [Leaf],
}
pub type Vals = Vec<u128>;
pub type Len = (usize, usize);
pub struct DynAcc {
    pub rs: fn(&[u8]) -> Result<Vals, Len>,
    pub ws: Option<fn(&mut [u8], &[u128]) -> Result<(), Len>>,
    pub cr: Option<fn(&[u8]) -> Result<Vals, Len>>,
    pub cmr: Option<fn(&mut [u8]) -> Result<Vals, Len>>,
    pub cmw: Option<fn(&mut [u8], &[u128]) -> Result<(), Len>>,
    /// through a view made without a check: panics when the bytes of the field are not there
    pub ur: Option<fn(&[u8]) -> Vals>,
    pub uw: Option<fn(&mut [u8], &[u128])>,
}
pub struct Acc {
    pub name: &'static str,
    /// variant it belongs to, usize::MAX for an enum's id
    pub var: usize,
    /// index of the first leaf within the variant
    pub lo: usize,
    pub leaves: &'static [Leaf],
    pub read: fn(&[u8]) -> Vals,
    pub write: fn(&mut [u8], &[u128]),
    pub dy: Option<DynAcc>,
}
pub struct DynFns {
    pub from_slice: fn(&[u8]) -> Result<(usize, Vals), Len>,
    pub from_vec: fn(&mut Vec<u8>) -> Result<(usize, Vals), Len>,
}
#[derive(Debug, PartialEq, Clone)]
pub enum HexErr {
    Hex(char, usize),
    Len(usize, usize),
}
pub struct HexFns {
    pub hex_size: usize,
    pub upper: fn(usize, &[u128]) -> Vec<u8>,
    pub lower: fn(usize, &[u128]) -> Vec<u8>,
    /// slice has exactly hex_size bytes
    pub from_hex: fn(&[u8]) -> Result<(usize, Vals), HexErr>,
    pub from_hex_slice: Option<fn(&[u8]) -> Result<(usize, Vals), HexErr>>,
    pub from_hex_vec: Option<fn(&mut Vec<u8>) -> Result<(usize, Vals), HexErr>>,
}
pub struct Desc {
    pub name: &'static str,
    pub is_enum: bool,
    pub bytes: usize,
    pub bits: usize,
    /// (BYTE_SIZE, BIT_SIZE) as generated, plus (BYTE, BIT) of each variant where available
    pub consts: fn() -> (usize, usize),
    /// variant sizes as generated in <VARIANT>_BYTE_SIZE/_BIT_SIZE
    pub id_leaf: Option<Leaf>,
    pub vars: &'static [Var],
    pub enc: fn(usize, &[u128]) -> Vec<u8>,
    pub dec: fn(&[u8]) -> (usize, Vals),
    pub id_fn: Option<fn(usize, &[u128]) -> u128>,
    pub id_eq: Option<fn(usize, &[u128], u128) -> bool>,
    pub accs: &'static [Acc],
    pub dy: Option<DynFns>,
    pub hex: Option<HexFns>,
}
/// a primitive enum (BitfieldEnum)
pub struct EDesc {
    pub name: &'static str,
    pub width: u16,
    /// (variant index, value), without a capturing variant
    pub vals: &'static [(usize, u128)],
    /// index of the catch-all variant; true if it stores the value
    pub catch_all: (usize, bool),
    /// primitive -> (variant, captured value or 0)
    pub from: fn(u128) -> (usize, u128),
    /// (variant, captured) -> primitive
    pub into: fn(usize, u128) -> u128,
    pub eq: Option<fn(usize, u128, u128) -> bool>,
}

pub fn mask(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}
pub fn get_bit(b: &[u8], p: u32) -> u128 {
    ((b[p as usize / 8] >> (7 - p % 8)) & 1) as u128
}
pub fn set_bit(b: &mut [u8], p: u32, v: u128) {
    let m = 0x80u8 >> (p % 8);
    if v & 1 == 1 {
        b[p as usize / 8] |= m
    } else {
        b[p as usize / 8] &= !m
    }
}
pub fn raw_bits(l: &Leaf, b: &[u8]) -> u128 {
    let mut v = 0u128;
    for (i, p) in l.pos.iter().enumerate() {
        v |= get_bit(b, *p) << i;
    }
    v
}
/// value of the field, as the raw bits of its rust type.
pub fn interpret(l: &Leaf, bits: u128) -> u128 {
    let n = l.pos.len();
    match l.kind {
        INT => {
            if n < l.width as usize && (bits >> (n - 1)) & 1 == 1 {
                (bits | !mask(n)) & mask(l.width as usize)
            } else {
                bits
            }
        }
        BOOL => (bits != 0) as u128,
        CHAR => {
            if bits <= 0x10FFFF && !(0xD800..=0xDFFF).contains(&bits) {
                bits
            } else {
                0xFFFD
            }
        }
        NESTED | BENUM => (l.norm.unwrap())(bits),
        _ => bits,
    }
}
pub fn leaf_dec(l: &Leaf, b: &[u8]) -> u128 {
    interpret(l, raw_bits(l, b))
}
pub fn leaf_store(l: &Leaf, b: &mut [u8], v: u128) {
    let v = match l.kind {
        NESTED | BENUM => (l.norm.unwrap())(v),
        _ => v,
    };
    for (i, p) in l.pos.iter().enumerate() {
        set_bit(b, *p, v >> i);
    }
}
/// what storing then loading the value gives
pub fn stored(l: &Leaf, v: u128) -> u128 {
    let v = match l.kind {
        NESTED | BENUM => (l.norm.unwrap())(v),
        _ => v,
    };
    interpret(l, v & mask(l.pos.len()))
}

impl Desc {
    pub fn select(&self, id: u128) -> usize {
        if !self.is_enum {
            return 0;
        }
        let mut fallback = 0;
        for (i, v) in self.vars.iter().enumerate() {
            if v.catch_all {
                fallback = i;
            } else if v.id == id {
                return i;
            }
        }
        fallback
    }
    pub fn id_of(&self, var: usize, vals: &[u128]) -> u128 {
        if self.vars[var].capture {
            vals[0]
        } else {
            self.vars[var].id
        }
    }
    pub fn m_enc(&self, var: usize, vals: &[u128]) -> Vec<u8> {
        let mut b = vec![0u8; self.bytes];
        if let Some(l) = &self.id_leaf {
            leaf_store(l, &mut b, self.id_of(var, vals));
        }
        for (l, v) in self.vars[var].leaves.iter().zip(vals) {
            if l.enc {
                leaf_store(l, &mut b, *v);
            }
        }
        b
    }
    pub fn m_dec(&self, b: &[u8]) -> (usize, Vals) {
        let var = match &self.id_leaf {
            Some(l) => self.select(leaf_dec(l, b)),
            None => 0,
        };
        (
            var,
            self.vars[var]
                .leaves
                .iter()
                .map(|l| if l.dec { leaf_dec(l, b) } else { l_default(l) })
                .collect(),
        )
    }
    /// m_enc(m_dec()) of the first n bits of an encoding, as a number: the norm of nested fields
    pub fn norm(&self, v: u128, n: usize) -> u128 {
        let mut b = vec![0u8; self.bytes];
        for i in 0..n {
            set_bit(&mut b, i as u32, v >> (n - 1 - i));
        }
        let var = self.id_leaf.as_ref().map_or(0, |l| self.select(leaf_dec(l, &b)));
        // what is nested in here becomes a value once: leaf_store does that, on bits which are still as they were
        let vals: Vals = self.vars[var]
            .leaves
            .iter()
            .map(|l| match l.kind {
                _ if !l.dec => l_default(l),
                NESTED => raw_bits(l, &b),
                _ => leaf_dec(l, &b),
            })
            .collect();
        let out = self.m_enc(var, &vals);
        crate::bn(&out, n)
    }
}
pub fn l_default(_l: &Leaf) -> u128 {
    0
}
impl EDesc {
    pub fn m_from(&self, p: u128) -> (usize, u128) {
        for (i, v) in self.vals {
            if *v == p {
                return (*i, 0);
            }
        }
        (self.catch_all.0, if self.catch_all.1 { p } else { 0 })
    }
    pub fn m_into(&self, var: usize, cap: u128) -> u128 {
        for (i, v) in self.vals {
            if *i == var {
                return *v;
            }
        }
        cap
    }
    pub fn norm(&self, p: u128) -> u128 {
        let (v, c) = self.m_from(p);
        self.m_into(v, c)
    }
}
