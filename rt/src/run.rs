//! Drives the checks with proptest. One line of JSON per declaration and check on stdout.
use crate::checks::{self, Case, Op};
use crate::model::*;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

fn guarded(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", MSG.with(|m| m.borrow().clone()))),
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn rng(seed: u64, salt: &str) -> TestRng {
    let mut s = [0u8; 32];
    let mut x = seed ^ fnv(salt);
    for c in s.chunks_mut(8) {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        c.copy_from_slice(&(x ^ (x >> 29)).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}
fn vals(n: usize) -> impl Strategy<Value = Vec<(u8, u128)>> {
    proptest::collection::vec((0u8..20, any::<u128>()), n)
}
fn strategy(d: &Desc) -> impl Strategy<Value = Case> {
    let n = d.vars.iter().map(|v| v.leaves.len()).max().unwrap_or(0).max(4);
    let m = d.accs.iter().map(|a| a.leaves.len()).max().unwrap_or(0).max(n);
    let ops = proptest::collection::vec((any::<u16>(), vals(m)).prop_map(|(acc, vals)| Op { acc, vals }), 0..8);
    (
        any::<u16>(),
        vals(n),
        0u8..14,
        proptest::collection::vec(any::<u8>(), d.bytes),
        ops,
        proptest::collection::vec(any::<u8>(), d.bytes + 4),
    )
        .prop_map(|(var, vals, mode, buf, ops, extra)| Case { var, vals, mode, buf, ops, extra })
}

pub fn case_text(c: &Case) -> String {
    let vs = |v: &Vec<(u8, u128)>| v.iter().map(|(s, x)| format!("{s}:{x:x}")).collect::<Vec<_>>().join(",");
    let ops: Vec<String> = c.ops.iter().map(|o| format!("{}@{}", o.acc, vs(&o.vals))).collect();
    format!("{}|{}|{}|{}|{}|{}", c.var, vs(&c.vals), c.mode, checks::hex(&c.buf), ops.join(";"), checks::hex(&c.extra))
}
fn parse_case(s: &str) -> Case {
    let p: Vec<&str> = s.split('|').collect();
    let vs = |t: &str| -> Vec<(u8, u128)> {
        t.split(',').filter(|x| !x.is_empty()).map(|x| {
            let (a, b) = x.split_once(':').unwrap();
            (a.parse().unwrap(), u128::from_str_radix(b, 16).unwrap())
        }).collect()
    };
    let hx = |t: &str| -> Vec<u8> { (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect() };
    Case {
        var: p[0].parse().unwrap(),
        vals: vs(p[1]),
        mode: p[2].parse().unwrap(),
        buf: hx(p[3]),
        ops: p[4].split(';').filter(|x| !x.is_empty()).map(|x| {
            let (a, b) = x.split_once('@').unwrap();
            Op { acc: a.parse().unwrap(), vals: vs(b) }
        }).collect(),
        extra: hx(p[5]),
    }
}
fn esc(s: &str) -> String {
    s.chars().flat_map(|c| match c {
        '"' => "\\\"".chars().collect::<Vec<_>>(),
        '\\' => "\\\\".chars().collect(),
        '\n' => "\\n".chars().collect(),
        c if (c as u32) < 32 || c as u32 > 126 => format!("\\u{:04x}", (c as u32).min(0xFFFF)).chars().collect(),
        c => vec![c],
    }).collect()
}

struct Stats {
    cases: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
}

fn one(d: &Desc, check: &str, cases: u32, seed: u64) {
    let f = checks::by_name(check).unwrap_or_else(|| panic!("no check {check}"));
    let st = RefCell::new(Stats { cases: 0, nontrivial: 0, seen: HashSet::new() });
    let cfg = Config { cases, failure_persistence: None, max_shrink_iters: 4000, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, rng(seed, &format!("{}/{}", d.name, check)));
    let res = runner.run(&strategy(d), |c| {
        {
            let mut s = st.borrow_mut();
            s.cases += 1;
            let (var, v) = d.value(&c, false);
            let b = d.buf(&c);
            // non-trivial: some field value or buffer bit is neither all zeroes nor all ones
            if v.iter().zip(d.vars[var].leaves).any(|(x, l)| {
                let m = mask(l.pos.len());
                let y = x & m;
                y != 0 && (y != m || l.pos.len() == 1)
            }) || b.iter().any(|x| *x != 0 && *x != 0xFF) {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (var, v, b, c.ops.iter().map(|o| (o.acc, o.vals.clone())).collect::<Vec<_>>()).hash(&mut h);
                if s.seen.insert(h.finish()) {
                    s.nontrivial += 1;
                }
            }
        }
        guarded(|| f(d, &c)).map_err(TestCaseError::fail)
    });
    let fail = match res {
        Ok(()) => String::new(),
        Err(TestError::Fail(r, c)) => format!(",\"fail\":\"{}\",\"case\":\"{}\"", esc(r.message()), case_text(&c)),
        Err(TestError::Abort(r)) => format!(",\"abort\":\"{}\"", esc(r.message())),
    };
    let s = st.borrow();
    let sample = {
        let mut runner = TestRunner::new_with_rng(Config::default(), rng(seed, &format!("{}/sample", d.name)));
        let c = strategy(d).new_tree(&mut runner).unwrap().current();
        let (var, v) = d.value(&c, false);
        format!("value {} {:x?}, buffer {}", d.vars[var].name, v, checks::hex(&d.buf(&c)))
    };
    println!("{{\"decl\":\"{}\",\"check\":\"{}\",\"cases\":{},\"nontrivial\":{},\"sample\":\"{}\"{}}}", d.name, check, s.cases, s.nontrivial, esc(&sample), fail);
}
fn one_enum(d: &EDesc, cases: u32, seed: u64) {
    let mut n = 0u64;
    let mut fail = String::new();
    let mut seen = HashSet::new();
    if d.width == 8 {
        for p in 0..256u128 {
            n += 1;
            seen.insert(p);
            if let Err(e) = guarded(|| checks::benum(d, p)) {
                fail = format!(",\"fail\":\"{}\",\"case\":\"{}\"", esc(&e), p);
                break;
            }
        }
    } else {
        let cfg = Config { cases, failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng(seed, d.name));
        let st = RefCell::new((&mut n, &mut seen));
        let near: Vec<u128> = d.vals.iter().map(|x| x.1).collect();
        let strat = (0u8..4, any::<u128>()).prop_map(move |(s, v)| match s {
            0 => near[v as usize % near.len().max(1)].wrapping_add((v >> 64) % 3).wrapping_sub(1),
            1 => v % 300,
            _ => v,
        });
        let r = runner.run(&strat, |p| {
            let mut g = st.borrow_mut();
            *g.0 += 1;
            g.1.insert(p & mask(d.width as usize));
            drop(g);
            guarded(|| checks::benum(d, p)).map_err(TestCaseError::fail)
        });
        if let Err(TestError::Fail(r, p)) = r {
            fail = format!(",\"fail\":\"{}\",\"case\":\"{}\"", esc(r.message()), p);
        }
    }
    println!("{{\"decl\":\"{}\",\"check\":\"benum\",\"cases\":{},\"nontrivial\":{},\"sample\":\"all values {:?}\"{}}}", d.name, n, seen.len(), d.vals, fail);
}

/// args: CASES SEED CHECK,CHECK... | replay DECL CHECK CASE
pub fn main_with(descs: &[&Desc], enums: &[&EDesc]) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        MSG.with(|c| *c.borrow_mut() = m);
    }));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        for d in enums {
            if d.name == a[2] {
                report(guarded(|| checks::benum(d, a[4].parse().unwrap())));
            }
        }
        for d in descs {
            if d.name == a[2] {
                let f = checks::by_name(&a[3]).unwrap();
                let c = parse_case(&a[4]);
                report(guarded(|| f(d, &c)));
            }
        }
        return;
    }
    let cases: u32 = a[1].parse().unwrap();
    let seed: u64 = a[2].parse().unwrap();
    for d in enums {
        one_enum(d, cases, seed);
    }
    for d in descs {
        for c in a[3].split(',').filter(|c| !c.is_empty()) {
            one(d, c, cases, seed);
        }
    }
}
fn report(r: Result<(), String>) {
    match r {
        Ok(()) => println!("held"),
        Err(e) => {
            println!("broken: {e}");
        }
    }
}
