//! The reference model: what each request may exchange, computed independently of the program in
//! exact big-integer arithmetic. Where the program's published working precision makes the result a
//! range rather than a number, the model gives that range and nothing wider.
use crate::big::*;
use crate::types::*;

pub type R128 = (u128, u128); // inclusive range

/// The amounts one request exchanges: `a` and `b` by operation -
///   Swap: a = tokens taken (with fees), b = tokens paid out, c = pool tokens issued for the owner fee
///   DepAll: a, b = tokens taken, c = pool tokens issued
///   WdAll: a, b = tokens paid out, c = pool tokens burned
///   DepOne: a = tokens taken, c = pool tokens issued
///   WdOne: a = tokens paid out, c = pool tokens burned
#[derive(Clone, Debug, PartialEq)]
pub struct Alt {
    pub a: R128,
    pub b: R128,
    pub c: R128,
    pub tag: &'static str,
    /// not what the request should exchange but what a recorded, unrepaired defect of the program
    /// makes of it (the number is the finding's)
    pub known: u8,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Req {
    Swap { amt: u64, a2b: bool },
    DepAll { pt: u64 },
    WdAll { pt: u64, from_fee: bool },
    DepOne { amt: u64, a2b: bool },
    WdOne { amt: u64, a2b: bool, from_fee: bool },
}

#[derive(Clone, Debug)]
pub enum Math {
    /// must be refused
    Reject(&'static str),
    /// one of these; `sure` = must be carried out if nothing else stands in the way
    Fill { alts: Vec<Alt>, sure: bool },
    /// outside the modelled domain: no verdict on amounts
    Unknown,
}

pub struct Pool<'a> {
    pub kind: u8,
    pub p: &'a [u64; 4],
    pub fees: &'a [u64; 8],
    pub a: u64,
    pub b: u64,
    pub s: u64,
}

const U64: u128 = u64::MAX as u128;

pub fn fee(x: u128, n: u64, d: u64) -> u128 {
    if n == 0 || x == 0 {
        return 0;
    }
    if d == 0 {
        return u128::MAX;
    }
    // x fits 64 bits wherever the model calls this
    let f = to_u128(w(x) * w(n as u128) / w(d as u128));
    f.max(1)
}

pub fn trade_fee(f: &[u64; 8], x: u128) -> u128 {
    fee(x, f[0], f[1])
}
pub fn owner_fee(f: &[u64; 8], x: u128) -> u128 {
    fee(x, f[2], f[3])
}
pub fn withdraw_fee(f: &[u64; 8], x: u128) -> u128 {
    fee(x, f[4], f[5])
}
pub fn host_fee(f: &[u64; 8], x: u128) -> u128 {
    fee(x, f[6], f[7])
}

fn pt(x: u128) -> R128 {
    (x, x)
}

pub fn eval(p: &Pool, r: &Req) -> Math {
    match *r {
        Req::Swap { amt, a2b } => swap(p, amt as u128, a2b),
        Req::DepAll { pt } => dep_all(p, pt as u128),
        Req::WdAll { pt, from_fee } => wd_all(p, pt as u128, from_fee),
        Req::DepOne { amt, a2b } => dep_one(p, amt as u128, a2b),
        Req::WdOne { amt, a2b, .. } => wd_one(p, amt as u128, a2b),
    }
}

/// Reserves as the curve sees them (offset counted).
fn eff(p: &Pool) -> (u128, u128) {
    let off = if p.kind == OFFSET { p.p[0] as u128 } else { 0 };
    (p.a as u128, p.b as u128 + off)
}

// ------------------------------------------------------------------------------------- swaps

fn swap(p: &Pool, amt: u128, a2b: bool) -> Math {
    let tf = trade_fee(p.fees, amt);
    let of = owner_fee(p.fees, amt);
    if tf > amt || of > amt || tf + of > amt {
        return Math::Reject("fees exceed the amount offered");
    }
    let less = amt - tf - of;
    let fees = tf + of;
    let (ea, eb) = eff(p);
    let (s, d, vault) = if a2b { (ea, eb, p.b as u128) } else { (eb, ea, p.a as u128) };
    let mut sure = true;
    let mut alts: Vec<Alt> = vec![];
    match p.kind {
        CP | OFFSET => {
            if s == 0 || d == 0 {
                return Math::Reject("empty reserve");
            }
            let k = w(s) * w(d);
            let big = w(s + less);
            if k > w(u128::MAX) || k < big {
                sure = false;
            }
            let nd = ceil_div(k, big);
            let ns = ceil_div(k, nd);
            let out = d - to_u128(nd);
            if out == 0 {
                return Math::Reject("trade would give nothing");
            }
            if out > vault {
                return Math::Reject("vault cannot pay");
            }
            alts.push(Alt { a: pt(to_u128(ns) - s + fees), b: pt(out), c: (0, 0), tag: "", known: 0 });
        }
        PRICE => {
            let price = p.p[0] as u128;
            let (src, dst) = if a2b { (less / price * price, less / price) } else { (less, to_u128(w(less) * w(price))) };
            if src == 0 || dst == 0 {
                return Math::Reject("trade would give nothing");
            }
            if dst > vault {
                return Math::Reject("vault cannot pay in full");
            }
            alts.push(Alt { a: pt(src + fees), b: pt(dst), c: (0, 0), tag: "", known: 0 });
        }
        STABLE => {
            let lev = p.p[0].saturating_mul(2) as u128;
            if !stable_ok(lev, s, d) || !stable_ok(lev, s + less, d) {
                return Math::Unknown;
            }
            let ds = stable_d_range(lev, s, d);
            let (dh, dl) = (ds.iter().map(|d| d.1).max().unwrap(), ds.iter().map(|d| d.0).min().unwrap());
            let yh = stable_y(lev, s + less, dh).max(stable_y_units(lev, s + less, dh)) + 2;
            let yl = stable_y(lev, s + less, dl).min(stable_y_units(lev, s + less, dl)).saturating_sub(2);
            // the published iteration starts from D and at worst halves its distance to the new balance
            if !stable_ok(lev, s + less, yl.max(1)) || yl < dh >> 24 {
                return Math::Unknown;
            }
            let lo = d.saturating_sub(yh);
            let hi = d.saturating_sub(yl);
            // (a trade that pays out nothing is not refused by this curve)
            if d < yh || yl == 0 {
                sure = false;
            }
            alts.push(Alt { a: pt(less + fees), b: (lo, hi), c: (0, 0), tag: "", known: 0 });
        }
        _ => {
            if of > 0 {
                return Math::Reject("linear pools do not support an owner fee");
            }
            match linear_swap(p, less, a2b) {
                Ok((v, su)) => {
                    sure = su;
                    for mut x in v {
                        x.a.0 += fees;
                        x.a.1 += fees;
                        alts.push(x);
                    }
                }
                Err(e) => return Math::Reject(e),
            }
        }
    }
    // the owner fee's worth in pool tokens, at the reserves after the trade, rounded up
    if of > 0 {
        let worth = |x: u128| -> Option<(R128, bool)> {
            let mut c: R128 = (u128::MAX, 0);
            let mut su = true;
            for y in &alts {
                for (sa, da) in [(y.a.0, y.b.0), (y.a.1, y.b.1), (y.a.0, y.b.1), (y.a.1, y.b.0)] {
                    let (na, nb) = if a2b { (p.a as u128 + sa, p.b as u128 - da.min(p.b as u128)) } else { (p.a as u128 - da.min(p.a as u128), p.b as u128 + sa) };
                    let (lo, hi, s) = lp_worth(p, x, na, nb, a2b)?;
                    c.0 = c.0.min(lo);
                    c.1 = c.1.max(hi);
                    su &= s;
                }
            }
            Some((c, su))
        };
        let (c, su) = match worth(of) {
            Some(v) => v,
            None => return Math::Unknown,
        };
        sure &= su;
        let f1 = match of - half_fee(p.fees, of).min(of) {
            x if x == of => None,
            0 => Some(((0, 0), true)),
            x => match worth(x) {
                Some(v) => Some(v),
                None => return Math::Unknown,
            },
        };
        let mut more = vec![];
        for x in alts.iter_mut() {
            x.c = c;
            if let Some((c, su)) = f1 {
                sure &= su;
                more.push(Alt { c, known: 1, ..x.clone() });
            }
        }
        alts.extend(more);
    }
    for x in &alts {
        // vault balances stay within 64 bits
        let vs = if a2b { p.a } else { p.b } as u128;
        if vs + x.a.1 > U64 {
            sure = false;
        }
    }
    Math::Fill { alts, sure }
}

/// Pool tokens that `x` of one reserve is worth when taken out alone, rounded up (range, certain?).
fn lp_worth(p: &Pool, x: u128, a: u128, b: u128, side_a: bool) -> Option<(u128, u128, bool)> {
    let s = p.s as u128;
    let off = if p.kind == OFFSET { p.p[0] as u128 } else { 0 };
    let (ea, eb) = (a, b + off);
    let r = if side_a { ea } else { eb };
    match p.kind {
        CP | OFFSET => {
            if x > r || r == 0 {
                return Some((u128::MAX, u128::MAX, false));
            }
            let (lo, hi) = frac_out(x, r, s);
            Some((ceil_fx(lo), ceil_fx(hi), true))
        }
        PRICE => {
            let price = w(p.p[0] as u128);
            let given = if side_a { w(x) } else { w(x) * price };
            let total = w(ea) + w(eb) * price;
            if total.is_zero() {
                return Some((u128::MAX, u128::MAX, false));
            }
            let q = to_u128(ceil_div(w(s) * given, total));
            Some((q, q, true))
        }
        STABLE => {
            let lev = p.p[0].saturating_mul(2) as u128;
            let (o, t) = if side_a { (eb, ea) } else { (ea, eb) };
            if x > t {
                return Some((u128::MAX, u128::MAX, false));
            }
            if !stable_ok(lev, t, o) || !stable_ok(lev, t - x, o) {
                return None;
            }
            let (d0, d1) = (stable_d_range(lev, t, o), stable_d_range(lev, t - x, o));
            let lo = (0..2).map(|i| d0[i].0.saturating_sub(d1[i].1)).min().unwrap();
            let hi = (0..2).map(|i| d0[i].1.saturating_sub(d1[i].0)).max().unwrap();
            let dl = d0[0].1.max(d0[1].1);
            let dh = d0[0].0.min(d0[1].0).max(1);
            let (nl, nh) = (w(s) * w(lo), w(s) * w(hi));
            let (l, h) = (nl / w(dl), ceil_div(nh, w(dh)) + w(1));
            Some((to_u128(l), to_u128(h), lo > 0))
        }
        _ => Some((u128::MAX, u128::MAX, false)),
    }
}

// 2^-64 fixed point
fn floor_fx(x: U512) -> u128 {
    to_u128(x >> 64)
}
fn ceil_fx(x: U512) -> u128 {
    to_u128((x + ((w(1) << 64) - w(1))) >> 64)
}
/// 1e-18 in 2^-128 fixed point, times n
fn e18(n: u64) -> U512 {
    (U512::from(n) << 128) / U512::from(1_000_000_000_000_000_000u64)
}
const DELTA: u64 = 3_000_000; // 3e-12 in 1e-18 units: the working precision of ratios
const EPS: u64 = 5_000_000; // 5e-12: of roots

/// s * (1 - sqrt(1 - x/r)) with its range, 2^-64 fixed point
fn frac_out(x: u128, r: u128, s: u128) -> (U512, U512) {
    let one = w(1) << 128;
    let base = (w(r - x) << 128) / w(r);
    let bl = if base > e18(DELTA) { base - e18(DELTA) } else { w(0) };
    let bh = (base + e18(DELTA)).min(one);
    let rl = isqrt512(bl << 128);
    let rh = isqrt512(bh << 128) + w(1);
    let lo = {
        let v = rh + e18(EPS);
        if v >= one {
            w(0)
        } else {
            one - v
        }
    };
    let hi = {
        let v = if rl > e18(EPS) { rl - e18(EPS) } else { w(0) };
        one - v.min(one)
    };
    ((w(s) * lo) >> 64, (w(s) * hi) >> 64)
}
/// s * (sqrt(1 + x/r) - 1) with its range, 2^-64 fixed point
fn frac_in(x: u128, r: u128, s: u128) -> (U512, U512) {
    let one = w(1) << 128;
    let base = one + (w(x) << 128) / w(r);
    let bl = (base - e18(DELTA)).max(one);
    let bh = base + e18(DELTA);
    let rl = isqrt512(bl << 128);
    let rh = isqrt512(bh << 128) + w(1);
    // relative term: the root's last Newton step works on numbers of the root's own size
    let er = e18(EPS) * (w(1) + (rh >> 128) / w(1));
    let lo = {
        let v = if rl > er { rl - er } else { w(0) };
        if v > one {
            v - one
        } else {
            w(0)
        }
    };
    let hi = rh + er - one;
    ((w(s) * lo) >> 64, (w(s) * hi) >> 64)
}

// ---------------------------------------------------------------------------------- deposits

fn dep_all(p: &Pool, n: u128) -> Math {
    if p.kind == LINEAR || p.kind == OFFSET {
        return Math::Reject("pool does not accept deposits");
    }
    let (s, n) = if p.s == 0 { (crate::pool::INITIAL_SUPPLY as u128, crate::pool::INITIAL_SUPPLY as u128) } else { (p.s as u128, n) };
    let (a, b) = (p.a as u128, p.b as u128);
    let mut sure = true;
    let (da, db) = match p.kind {
        PRICE => {
            let price = p.p[0] as u128;
            let total = w(a) + w(b) * w(price);
            if total > w(u128::MAX - (1 << 66)) {
                return Math::Unknown;
            }
            let v = w(n) * ceil_div(total, w(2));
            if v > w(u128::MAX) || v < w(s) || v < w(price) || ceil_div(v, w(price)) < w(s) {
                sure = false;
            }
            if v.is_zero() {
                return Math::Reject("rounds to nothing");
            }
            (to_u128(ceil_div(v, w(s))), to_u128(ceil_div(ceil_div(v, w(price)), w(s))))
        }
        _ => {
            let f = |x: u128| {
                let v = w(n) * w(x);
                let q = v / w(s);
                if q.is_zero() {
                    0
                } else {
                    to_u128(ceil_div(v, w(s)))
                }
            };
            (f(a), f(b))
        }
    };
    if da == 0 || db == 0 {
        return Math::Reject("rounds to nothing");
    }
    if da > U64 || db > U64 {
        return Math::Reject("amount out of range");
    }
    Math::Fill { alts: vec![Alt { a: pt(da), b: pt(db), c: pt(n), tag: "", known: 0 }], sure }
}

fn wd_all(p: &Pool, n: u128, from_fee: bool) -> Math {
    if p.kind == LINEAR {
        return Math::Reject("pool does not allow withdrawals");
    }
    let f = if from_fee { 0 } else { withdraw_fee(p.fees, n) };
    if f > n {
        return Math::Reject("fee exceeds the amount");
    }
    let n = n - f;
    if p.s == 0 {
        return Math::Reject("no pool tokens outstanding");
    }
    let s = p.s as u128;
    let (ea, eb) = eff(p);
    let mut sure = true;
    let (da, db) = match p.kind {
        PRICE => {
            let price = p.p[0] as u128;
            let total = w(ea) + w(eb) * w(price);
            if total > w(u128::MAX - (1 << 66)) {
                return Math::Unknown;
            }
            let v = w(n) * (total / w(2));
            if v > w(u128::MAX) {
                sure = false;
            }
            (v / w(s), v / w(price) / w(s))
        }
        _ => (w(n) * w(ea) / w(s), w(n) * w(eb) / w(s)),
    };
    if da > w(U64) || db > w(U64) {
        sure = false;
    }
    let da = to_u128(da).min(p.a as u128);
    let db = to_u128(db).min(p.b as u128);
    if (da == 0 && p.a != 0) || (db == 0 && p.b != 0) {
        return Math::Reject("rounds to nothing");
    }
    Math::Fill { alts: vec![Alt { a: pt(da), b: pt(db), c: pt(n), tag: "", known: 0 }], sure }
}

pub fn half_fee(f: &[u64; 8], x: u128) -> u128 {
    trade_fee(f, (x / 2).max(1))
}

fn dep_one(p: &Pool, amt: u128, a2b: bool) -> Math {
    if p.kind == LINEAR || p.kind == OFFSET {
        return Math::Reject("pool does not accept deposits");
    }
    if p.s == 0 {
        let n = crate::pool::INITIAL_SUPPLY as u128;
        return Math::Fill { alts: vec![Alt { a: pt(amt), b: (0, 0), c: pt(n), tag: "first", known: 0 }], sure: true };
    }
    if amt == 0 {
        return Math::Reject("nothing offered");
    }
    let f = half_fee(p.fees, amt);
    if f > amt {
        return Math::Reject("fee exceeds the amount");
    }
    let x = amt - f;
    let s = p.s as u128;
    let (ea, eb) = eff(p);
    let r = if a2b { ea } else { eb };
    let mut sure = true;
    let (lo, hi) = match p.kind {
        PRICE => {
            let price = w(p.p[0] as u128);
            let given = if a2b { w(x) } else { w(x) * price };
            let total = w(ea) + w(eb) * price;
            if total.is_zero() {
                return Math::Reject("empty pool");
            }
            pt(to_u128(w(s) * given / total))
        }
        STABLE => {
            if x == 0 {
                return Math::Reject("rounds to nothing");
            }
            let lev = p.p[0].saturating_mul(2) as u128;
            let o = if a2b { eb } else { ea };
            if !stable_ok(lev, r, o) || !stable_ok(lev, r + x, o) {
                return Math::Unknown;
            }
            let (d0, d1) = (stable_d_range(lev, r, o), stable_d_range(lev, r + x, o));
            let lo = (0..2).map(|i| d1[i].0.saturating_sub(d0[i].1)).min().unwrap();
            let hi = (0..2).map(|i| d1[i].1.saturating_sub(d0[i].0)).max().unwrap();
            if lo == 0 {
                sure = false;
            }
            let l = to_u128(w(s) * w(lo) / w(d0[0].1.max(d0[1].1)));
            let h = to_u128(w(s) * w(hi) / w(d0[0].0.min(d0[1].0).max(1)));
            (l.saturating_sub(1), h + 1)
        }
        _ => {
            if r == 0 {
                return Math::Reject("empty reserve");
            }
            let (lo, hi) = frac_in(x, r, s);
            (floor_fx(lo), floor_fx(hi))
        }
    };
    if hi == 0 {
        return Math::Reject("rounds to nothing");
    }
    if lo == 0 || hi > U64 {
        sure = false;
    }
    if lo > U64 {
        return Math::Reject("amount out of range");
    }
    Math::Fill { alts: vec![Alt { a: pt(amt), b: (0, 0), c: (lo.max(1), hi), tag: "", known: 0 }], sure }
}

fn wd_one(p: &Pool, amt: u128, a2b: bool) -> Math {
    if p.kind == LINEAR {
        return Math::Reject("pool does not allow withdrawals");
    }
    if amt == 0 {
        return Math::Reject("nothing asked for");
    }
    let hf = half_fee(p.fees, amt);
    let vault = if a2b { p.a } else { p.b } as u128;
    if amt > vault {
        return Math::Reject("vault cannot pay");
    }
    let mut sure = true;
    let mut alts = vec![];
    let mut why = "";
    let mut xs = vec![(amt + hf, 0u8)];
    if hf > 0 {
        // finding 2: the fee is taken off instead of added
        if hf < amt {
            xs.push((amt - hf, 2));
        } else {
            sure = false;
        }
    }
    for (x, known) in xs {
        let (lo, hi, su) = match lp_worth(p, x, p.a as u128, p.b as u128, a2b) {
            Some(v) => v,
            None => return Math::Unknown,
        };
        sure &= su;
        if lo == u128::MAX {
            why = "more than the reserve";
        } else if hi == 0 {
            why = "rounds to nothing";
        } else if lo > p.s as u128 {
            why = "more than the outstanding pool tokens";
        } else {
            if lo == 0 {
                sure = false;
            }
            alts.push(Alt { a: pt(amt), b: (0, 0), c: (lo.max(1), hi), tag: "", known });
            continue;
        }
        sure = false;
    }
    if alts.is_empty() {
        return Math::Reject(why);
    }
    Math::Fill { alts, sure }
}

// ------------------------------------------------------------------------------------ stable

/// Whether the stable curve's published iteration bounds reach the invariant here.
pub fn stable_ok(lev: u128, x: u128, y: u128) -> bool {
    if lev < 2 || lev >= u64::MAX as u128 || x == 0 || y == 0 {
        return false;
    }
    let (mn, mx) = (x.min(y), x.max(y));
    mx / mn <= 1 << 46 && mx <= 1 << 66
}

/// The invariant D: D^3/(4xy) + (L-1) D = L (x + y); `plus` uses the program's guarded products
/// (2x+1)(2y+1) for 4xy. Smallest integer at or above the root, minus one unit of slack elsewhere.
pub fn stable_d(lev: u128, x: u128, y: u128, plus: bool) -> u128 {
    let (px, py) = if plus { (2 * x + 1, 2 * y + 1) } else { (2 * x, 2 * y) };
    let prod = w(px) * w(py);
    let rhs = w(lev) * w(x + y) * prod;
    // bisect f(D) = D^3 + (L-1) D prod - rhs, increasing
    let (mut lo, mut hi) = (0u128, x + y + 2);
    while lo < hi {
        let m = (lo + hi) / 2;
        let f = w(m) * w(m) * w(m) + w(lev - 1) * w(m) * prod;
        if f >= rhs {
            hi = m;
        } else {
            lo = m + 1;
        }
    }
    lo
}

/// What the published iteration (whole units, quotients rounded down) may end with, for the curve
/// with and without the program's guarded products.
pub fn stable_d_range(lev: u128, x: u128, y: u128) -> [(u128, u128); 2] {
    [true, false].map(|g| {
        let d = stable_d(lev, x, y, g);
        (d.saturating_sub(2), d + stable_err(lev, x, y, d))
    })
}

/// By how much it may end above the root: rounding down the two quotients of D^3/(4xy) leaves out up
/// to D/(2y) + 1, which moves the root by that over (L-1) + 3 D^2/(4xy).
pub fn stable_err(lev: u128, x: u128, y: u128, d: u128) -> u128 {
    let m = 2 * x.min(y) + 1;
    // in 2^-20 units
    let q = w(d) * w(d) * w(3 << 20) / (w(2 * x + 1) * w(2 * y + 1)) + w((lev - 1) << 20);
    let e = ceil_div(w(d / m + 2) << 20, q.max(w(1)));
    1 + to_u128(e)
}

/// The invariant in 2^-16 units (of tokens), rounded down to one unit.
pub fn stable_d_fx(lev: u128, x: u128, y: u128, plus: bool) -> u128 {
    let (x, y) = (x << 16, y << 16);
    let g = if plus { 1u128 << 16 } else { 0 };
    let prod = w(2 * x + g) * w(2 * y + g);
    let rhs = w(lev) * w(x + y) * prod;
    let (mut lo, mut hi) = (0u128, x + y + 2);
    while lo < hi {
        let m = (lo + hi) / 2;
        let f = w(m) * w(m) * w(m) + w(lev - 1) * w(m) * prod;
        if f >= rhs {
            hi = m;
        } else {
            lo = m + 1;
        }
    }
    lo
}

/// y: y^2 + (x + D/L - D) y = D^3 / (4 x L), positive root, rounded up
pub fn stable_y(lev: u128, x: u128, d: u128) -> u128 {
    // multiplied by 4 x L:  4xL y^2 + 4x (L x + D - L D) y - D^3 = 0
    let l = w(lev);
    let (xx, dd) = (w(x), w(d));
    quad_root(w(4) * xx * l, w(4) * xx * (l * xx + dd), w(4) * xx * l * dd, dd * dd * dd, d)
}

/// The same with both quotients in whole units, as published.
pub fn stable_y_units(lev: u128, x: u128, d: u128) -> u128 {
    let (l, xx, dd) = (w(lev), w(x), w(d));
    quad_root(w(1), xx + dd / l, dd, dd * dd * dd / (w(4) * xx * l), d)
}

/// Smallest y with k y^2 + p y >= n y + c.
fn quad_root(k: U512, p: U512, n: U512, c: U512, start: u128) -> u128 {
    let f = |y: u128| -> bool {
        let y = w(y);
        k * y * y + p * y >= c + n * y
    };
    let (mut lo, mut hi) = (0u128, start + 2);
    // the root may exceed D only when x is far below it
    while !f(hi) {
        hi *= 2;
        if hi > 1 << 100 {
            return hi;
        }
    }
    while lo < hi {
        let m = (lo + hi) / 2;
        if f(m) {
            hi = m;
        } else {
            lo = m + 1;
        }
    }
    lo
}

// ------------------------------------------------------------------------------------ linear

/// Position on the price line for a collateral balance, 2^-96 fixed point.
/// True range (the published 18-decimal precision) and the range the nine-digit root may give.
#[derive(Clone, Copy, Debug)]
pub struct Pos {
    pub lo_t: U1024,
    pub hi_t: U1024,
    pub lo_p: U1024,
    pub hi_p: U1024,
}

fn x18(n10: u64, frac: usize) -> U1024 {
    (U1024::from(n10) << frac) / U1024::from(10_000_000_000_000_000_000u64)
}
fn ui(x: u64) -> U1024 {
    U1024::from(x)
}
fn sub0(a: U1024, b: U1024) -> U1024 {
    if a > b {
        a - b
    } else {
        U1024::from(0u64)
    }
}

pub fn linear_pos(p: &[u64; 4], a: u64) -> Pos {
    let (mn, md, an, ad) = (ui(p[0]), ui(p[1]), ui(p[2]), ui(p[3]));
    let one = U1024::from(1u64);
    let v = ((an * an) << 192) / (ad * ad) + ((U1024::from(2u64) * ui(a) * mn) << 192) / md;
    let vl = sub0(v, x18(40, 192));
    let vh = v + x18(40, 192);
    let sl = isqrt(vl);
    let sh = isqrt(vh) + one;
    let e = (an << 96) / ad;
    let el = sub0(e, x18(15, 96));
    let eh = e + x18(15, 96) + one;
    let r30 = x18(30, 96);
    let scale_dn = |x: U1024| x * md / mn;
    let scale_up = |x: U1024| x * md / mn + one;
    let rel = |x: U1024| (x >> 31) + (x >> 41);
    Pos {
        lo_t: scale_dn(sub0(sl, eh + r30)),
        hi_t: scale_up(sub0(sh + r30, el)),
        lo_p: scale_dn(sub0(sub0(sl, rel(sl)), eh + r30)),
        hi_p: scale_up(sub0(sh + rel(sh) + r30, el)),
    }
}

/// Collateral under the price line at b (2^-96), result 2^-96, rounded down.
pub fn linear_area(p: &[u64; 4], b: U1024) -> U1024 {
    let (mn, md, an, ad) = (ui(p[0]), ui(p[1]), ui(p[2]), ui(p[3]));
    ((mn * b * b) / (md * U1024::from(2u64)) >> 96) + an * b / ad
}

fn fl(x: U1024) -> u128 {
    let y = x >> 96;
    if y.bits() > 127 {
        u128::MAX
    } else {
        y.as_u128()
    }
}
fn ce(x: U1024) -> u128 {
    let y = (x + ((U1024::from(1u64) << 96) - U1024::from(1u64))) >> 96;
    if y.bits() > 127 {
        u128::MAX
    } else {
        y.as_u128()
    }
}
fn i96(x: u128) -> U1024 {
    U1024::from(x) << 96
}

/// Price range of everything that remains (collateral for the whole token-B vault).
pub fn linear_exhaust(p: &[u64; 4], a: u64, b: u64) -> (u128, u128) {
    let bs = linear_pos(p, a);
    let vb = i96(b as u128);
    let sl = x18(50, 96);
    // the program's multiplications drop to integer precision only above 136 bits
    let lo = sub0(sub0(linear_area(p, bs.lo_t + vb), i96(a as u128)), sl);
    let hi = sub0(linear_area(p, bs.hi_p + vb) + sl, i96(a as u128));
    (ce(lo), ce(hi))
}

fn linear_swap(p: &Pool, amt: u128, a2b: bool) -> Result<(Vec<Alt>, bool), &'static str> {
    let q = p.p;
    if amt == 0 {
        return Err("trade would give nothing");
    }
    let mut alts = vec![];
    let mut sure = true;
    if a2b {
        let vb = p.b as u128;
        if vb == 0 {
            return Err("nothing left to buy");
        }
        let bs = linear_pos(q, p.a);
        let (xl, xh) = linear_exhaust(q, p.a, p.b);
        if amt >= xl {
            if xl == 0 {
                sure = false;
            }
            alts.push(Alt { a: (xl.max(1), xh.min(amt)), b: pt(vb), c: (0, 0), tag: "exhaust", known: 0 });
        }
        if amt < xh {
            let end = p.a as u128 + amt;
            if end > U64 {
                // the vault could not hold it
                if alts.is_empty() {
                    return Err("amount out of range");
                }
                return Ok((alts, false));
            }
            let be = linear_pos(q, end as u64);
            let lo = fl(sub0(be.lo_p, bs.hi_p));
            let hi = fl(sub0(be.hi_t, bs.lo_t)).min(vb);
            if hi == 0 && alts.is_empty() {
                return Err("trade would give nothing");
            }
            if lo == 0 || lo > vb {
                sure = false;
            }
            if hi > 0 && lo <= vb {
                alts.push(Alt { a: pt(amt), b: (lo.max(1), hi), c: (0, 0), tag: "buy", known: 0 });
            }
        }
        if alts.is_empty() {
            return Err("trade would give nothing");
        }
    } else {
        if p.a == 0 {
            return Err("no collateral");
        }
        let a = p.a as u128;
        let bs = linear_pos(q, p.a);
        let n = i96(amt);
        if n > bs.lo_t {
            let lo = fl(bs.lo_t);
            let hi = ce(bs.hi_p).min(amt);
            if lo == 0 {
                sure = false;
            }
            if hi > 0 {
                alts.push(Alt { a: (lo.max(1), hi), b: pt(a), c: (0, 0), tag: "drain", known: 0 });
            }
        }
        if n <= bs.hi_p {
            let el = U1024::from(ce(sub0(bs.lo_t, n))) << 96;
            let eh = U1024::from(ce(sub0(bs.hi_p, n))) << 96;
            let sl = x18(50, 96);
            let lo = fl(sub0(i96(a), linear_area(q, eh) + sl));
            let hi = fl(sub0(i96(a) + sl, linear_area(q, el))).min(a);
            if hi == 0 && alts.is_empty() {
                return Err("trade would give nothing");
            }
            if lo == 0 {
                sure = false;
            }
            if hi > 0 {
                alts.push(Alt { a: pt(amt), b: (lo.max(1), hi), c: (0, 0), tag: "sell", known: 0 });
            }
        }
        if alts.is_empty() {
            return Err("trade would give nothing");
        }
    }
    Ok((alts, sure))
}

/// C01: the collateral covers `bout` bonded tokens, to one unit and the 18-decimal precision of slope
/// and start price, met once per swap so far.
pub fn linear_covered(p: &[u64; 4], a: u64, bout: i128, swaps: u64) -> bool {
    if bout <= 0 {
        return true;
    }
    let (mn, md) = (ui(p[0]), ui(p[1]));
    let one = U1024::from(1u64);
    // the smallest square the position is computed from, beside zero
    let v = {
        let (an, ad) = (ui(p[2]), ui(p[3]));
        let s2 = ((an * an) << 192) / (ad * ad);
        let v = if s2 > x18(40, 192) { s2 } else { ((U1024::from(2u64) * mn) << 192) / md };
        v.max(x18(10, 192))
    };
    let root = isqrt(v).max(one);
    // 4e-18 under the root and 4.5e-18 beside it, over the slope
    let e = x18(90, 96) + (x18(40, 192) / root) + one;
    let tol = (e * md / mn + one) * U1024::from(swaps + 1);
    let b = sub0(i96(bout as u128), tol);
    let more = x18(30, 96) * md / mn;
    linear_area(p, b) <= i96(a as u128 + 1) + more
}

// ------------------------------------------------------------------------ value of a pool share

/// The curve's invariant as an exact comparable quantity: sqrt kinds give (k, true) with value
/// sqrt(k); linear kinds give (v, false).
pub fn invariant(kind: u8, p: &[u64; 4], a: u64, b: u64) -> Option<(U512, bool)> {
    Some(match kind {
        CP => (w(a as u128) * w(b as u128), true),
        OFFSET => (w(a as u128) * (w(b as u128) + w(p[0] as u128)), true),
        PRICE => (w(a as u128) + w(b as u128) * w(p[0] as u128), false),
        _ => return None,
    })
}
