//! Decides, before execution and from the ledger alone, what an instruction must do.
use crate::bank::*;
use crate::model::*;
use crate::pool::*;
use crate::tok;
use crate::types::*;
use solana_program::pubkey::Pubkey;

pub type Props = &'static [&'static str];

pub struct JCtx<'a> {
    pub names: &'a Names,
    pub pools: &'a [Cfg],
    pub tp: Aid,
    pub tbc: Aid,
    /// accounts that signed and are required to by the message
    pub signers: &'a [Aid],
    pub writable: &'a [Aid],
    pub production: Option<Con>,
}

#[derive(Clone, Debug)]
pub struct OpV {
    pub pool: usize,
    pub req: Req,
    pub a2b: bool,
    /// None: no verdict on amounts
    pub alts: Option<Vec<Alt>>,
    pub must_fail: Option<(String, Props)>,
    pub must_succeed: bool,
    pub host: Option<Aid>,
}

#[derive(Clone, Debug)]
pub struct InitV {
    pub cfg: Cfg,
    pub sure: bool,
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Fail(String, Props),
    Skip,
    Op(OpV),
    Init(InitV),
}

fn fail(why: &str, p: Props) -> Verdict {
    Verdict::Fail(why.to_string(), p)
}

pub fn op_prop(op: &Op, kind: u8) -> &'static str {
    match op {
        Op::Swap { .. } | Op::SwapHost { .. } => match kind {
            LINEAR => "C02",
            PRICE => "C14",
            STABLE => "C19",
            _ => "C18",
        },
        _ => "C20",
    }
}
fn op_props(op: &Op, kind: u8) -> Props {
    match op_prop(op, kind) {
        "C02" => &["C02"],
        "C14" => &["C14"],
        "C19" => &["C19"],
        "C18" => &["C18"],
        _ => &["C20"],
    }
}

/// Number of bytes of a complete instruction (public encodings).
fn full_len(op: &Op) -> usize {
    match op {
        Op::InitPrice { .. } => 8 + 72,
        Op::InitLinear { .. } => 8 + 32,
        Op::Swap { .. } | Op::DepOne { .. } | Op::WdOne { .. } => 24,
        Op::DepAll { .. } | Op::WdAll { .. } => 32,
        _ => 0,
    }
}

pub fn is_public(op: &Op) -> bool {
    full_len(op) > 0
}

pub fn judge(cx: &JCtx, l: &mut [Acct], ix: &Ix) -> Verdict {
    if ix.prog != cx.tbc || !ix.op.is_tbc() {
        return Verdict::Skip;
    }
    if let Op::Raw(_) = ix.op {
        return fail("unknown instruction", &["C11"]);
    }
    if let Some(c) = ix.cut {
        if is_public(&ix.op) {
            if (c as usize) < full_len(&ix.op) {
                return fail("truncated instruction", &["C11"]);
            }
        } else {
            return Verdict::Skip;
        }
    }
    if ix.metas.len() < n_accounts(&ix.op) {
        return fail("too few accounts", &["C11"]);
    }
    if ix.op.is_init() {
        return judge_init(cx, l, ix);
    }
    judge_op(cx, l, ix)
}

fn judge_op(cx: &JCtx, l: &mut [Acct], ix: &Ix) -> Verdict {
    let m = &ix.metas;
    let id = |i: usize| m[i].aid;
    let acc = &l[id(0) as usize];
    if acc.owner != token_bonding_curve::ID {
        return fail("pool record not owned by the program", &["C06", "C11"]);
    }
    if parse_record(&acc.data).is_none() {
        return fail("pool record not intact", &["C11"]);
    }
    let pi = match cx.pools.iter().position(|c| c.swap == id(0) && c.record == acc.data) {
        Some(i) => i,
        None => return Verdict::Skip,
    };
    let c = &cx.pools[pi];
    let lock = match ix.op {
        Op::DepAll { .. } | Op::DepOne { .. } => c.kind == LINEAR || c.kind == OFFSET,
        Op::WdAll { .. } | Op::WdOne { .. } => c.kind == LINEAR,
        _ => false,
    };
    if lock {
        return fail("pool is locked for this operation", &["C15"]);
    }
    // an account that plays a part in another pool
    let foreign = |a: Aid| cx.pools.iter().enumerate().any(|(k, o)| k != pi && [o.auth, o.va, o.vb, o.pm, o.fee].contains(&a));
    for (i, want, role) in pool_side(&ix.op, c, cx.tp) {
        if id(i) != want {
            return Verdict::Fail(format!("wrong {}", role), if foreign(id(i)) { &["C06", "C07"] } else { &["C06"] });
        }
    }
    if !cx.signers.contains(&id(2)) {
        return fail("missing signature", &["C06"]);
    }
    // pool accounts intact
    let (va, vb, pm) = match (tok::acct(&l[c.va as usize]), tok::acct(&l[c.vb as usize]), tok::mint(&l[c.pm as usize])) {
        (Some(a), Some(b), Some(p)) => (a, b, p),
        _ => return fail("vault or pool mint not intact", &["C11"]),
    };
    let mut sure = true;
    let req;
    let mut a2b = true;
    let mut host = None;
    // (user-side accounts that must not be the pool's vaults)
    match ix.op {
        Op::Swap { amt, .. } | Op::SwapHost { amt, .. } => {
            let (s, d) = (id(4), id(5));
            if !([c.va, c.vb].contains(&s) && [c.va, c.vb].contains(&d)) || s == d {
                return fail("wrong vaults", if foreign(s) || foreign(d) { &["C06", "C07"] } else { &["C06"] });
            }
            if id(3) == s || id(6) == d {
                return fail("a vault passed as the user's account", &["C06"]);
            }
            a2b = s == c.va;
            req = Req::Swap { amt, a2b };
            if let Op::SwapHost { .. } = ix.op {
                if m.len() > 10 {
                    host = Some(id(10));
                }
            }
        }
        Op::DepAll { pt, .. } => {
            if id(3) == c.va || id(4) == c.vb {
                return fail("a vault passed as the user's account", &["C06"]);
            }
            req = Req::DepAll { pt };
        }
        Op::WdAll { pt, .. } => {
            if id(7) == c.va || id(8) == c.vb {
                return fail("a vault passed as the user's account", &["C06"]);
            }
            req = Req::WdAll { pt, from_fee: id(4) == c.fee };
        }
        Op::DepOne { amt, .. } => {
            if id(3) == c.va || id(3) == c.vb {
                return fail("a vault passed as the user's account", &["C06"]);
            }
            let u = match tok::acct(&l[id(3) as usize]) {
                Some(u) => u,
                None => return fail("user account not intact", &["C11"]),
            };
            a2b = if u.mint == va.mint {
                true
            } else if u.mint == vb.mint {
                false
            } else {
                return fail("token is not one of the pool's", &["C06"]);
            };
            req = Req::DepOne { amt, a2b };
        }
        Op::WdOne { amt, .. } => {
            if id(7) == c.va || id(7) == c.vb {
                return fail("a vault passed as the user's account", &["C06"]);
            }
            let u = match tok::acct(&l[id(7) as usize]) {
                Some(u) => u,
                None => return fail("user account not intact", &["C11"]),
            };
            a2b = if u.mint == va.mint {
                true
            } else if u.mint == vb.mint {
                false
            } else {
                return fail("token is not one of the pool's", &["C06"]);
            };
            req = Req::WdOne { amt, a2b, from_fee: id(4) == c.fee };
        }
        _ => return Verdict::Skip,
    }
    if is_public(&ix.op) {
        // accounts the instruction declares writable must be passed so; a request that does not
        // comply may be refused even if it would not write
        for i in mut_positions(&ix.op) {
            if !cx.writable.contains(&id(*i)) {
                sure = false;
            }
        }
    }
    let pool = Pool { kind: c.kind, p: &c.p, fees: &c.fees, a: va.amount, b: vb.amount, s: pm.supply };
    let mut v = OpV { pool: pi, req, a2b, alts: None, must_fail: None, must_succeed: false, host };
    let mut alts = match eval(&pool, &req) {
        Math::Reject(w) => return Verdict::Fail(w.to_string(), op_props(&ix.op, c.kind)),
        Math::Unknown => return Verdict::Op(v),
        Math::Fill { alts, sure: s } => {
            sure &= s;
            alts
        }
    };
    // host account
    if let Some(h) = host {
        let bad = match tok::acct(&l[h as usize]) {
            Some(t) => t.mint != cx.names.keys[c.pm as usize],
            None => true,
        };
        if bad {
            if alts.iter().all(|a| a.c.0 > 0) {
                return fail("host account is not a pool-token account", &["C05", "C06", "C11", "C13"]);
            }
            if alts.iter().any(|a| a.c.1 > 0) {
                sure = false;
            }
        }
    }
    // limits
    let before = alts.len();
    alts.retain(|x| limit_ok(&ix.op, &req, c, x, false));
    if alts.is_empty() {
        v.must_fail = Some(("limit not satisfiable".into(), &["C03"]));
        return Verdict::Op(v);
    }
    if alts.len() != before {
        sure = false;
    }
    if !alts.iter().all(|x| limit_ok(&ix.op, &req, c, x, true)) {
        sure = false;
    }
    // can every token movement take place?
    let privs = tok::Privs { names: cx.names, signers: cx.signers, writable: cx.writable, pda: Some(cx.names.keys[c.auth as usize]) };
    let mut why = String::new();
    let mut possible = vec![];
    // An owner who is his own delegate spends the allowance first and is free of it when it is used up exactly: then it is not
    // the larger amounts that are the harder ones, and every amount in the range has to be looked at.
    let user = cx.names.keys[id(2) as usize];
    let own_delegate = ix.metas.iter().any(|m| tok::acct(&l[m.aid as usize]).map(|t| t.delegate == Some(user) && t.owner == user).unwrap_or(false));
    if own_delegate && alts.iter().any(|x| x.a.0 != x.a.1 || x.b.0 != x.b.1 || x.c.0 != x.c.1) {
        let mut each = vec![];
        for x in &alts {
            if x.a.0 == x.a.1 && x.b.0 == x.b.1 && x.c.1 - x.c.0 <= 64 {
                each.extend((x.c.0..=x.c.1).map(|n| Alt { c: (n, n), ..x.clone() }));
            } else {
                return Verdict::Op(v); // not decided
            }
        }
        alts = each;
    }
    let n_alts = alts.len();
    for x in alts {
        let amts = amounts(&req, c, &x, false, host.is_some());
        match dry(l, &privs, ix, c, &req, &amts, host, true) {
            Ok(()) => possible.push(x),
            Err(e) => why = e.to_string(),
        }
    }
    if possible.is_empty() {
        let p: Props = if why.contains("authorised") || why.contains("sign") { &["C05", "C06"] } else { &["C05"] };
        v.must_fail = Some((why, p));
        return Verdict::Op(v);
    }
    // an outcome ruled out by the tokens at hand may be the one the program arrives at
    let mut all_ok = possible.len() == n_alts;
    for x in &possible {
        let amts = amounts(&req, c, x, true, host.is_some());
        if dry(l, &privs, ix, c, &req, &amts, host, false).is_err() {
            all_ok = false;
        }
    }
    v.must_succeed = sure && all_ok;
    v.alts = Some(possible);
    Verdict::Op(v)
}

fn mut_positions(op: &Op) -> &'static [usize] {
    match op {
        Op::Swap { .. } => &[3, 4, 5, 6, 7, 8],
        Op::DepAll { .. } => &[3, 4, 5, 6, 7, 8],
        Op::WdAll { .. } => &[3, 4, 5, 6, 7, 8, 9],
        Op::DepOne { .. } => &[3, 4, 5, 6, 7],
        Op::WdOne { .. } => &[3, 4, 5, 6, 7, 8],
        Op::InitPrice { .. } | Op::InitLinear { .. } => &[0, 4, 6],
        _ => &[],
    }
}

/// `all`: satisfied by every amount in the range, else: by some amount.
fn limit_ok(op: &Op, req: &Req, c: &Cfg, x: &Alt, all: bool) -> bool {
    let ge = |r: R128, lim: u64| (if all { r.0 } else { r.1 }) >= lim as u128;
    let le = |r: R128, lim: u64| (if all { r.1 } else { r.0 }) <= lim as u128;
    match *op {
        Op::Swap { min, .. } | Op::SwapHost { min, .. } => ge(x.b, min),
        Op::DepAll { ma, mb, .. } => le(x.a, ma) && le(x.b, mb),
        Op::WdAll { ma, mb, .. } => ge(x.a, ma) && ge(x.b, mb),
        Op::DepOne { min, .. } => ge(x.c, min),
        Op::WdOne { max, .. } => {
            let ff = matches!(req, Req::WdOne { from_fee: true, .. });
            let t = |v: u128| if ff { v } else { v.saturating_add(if v <= u64::MAX as u128 { withdraw_fee(&c.fees, v) } else { 0 }) };
            le((t(x.c.0), t(x.c.1)), max)
        }
        _ => true,
    }
}

/// Exact amounts of one execution.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Amts {
    pub a: u128,
    pub b: u128,
    pub c: u128,
    /// withdrawal fee or the host's part of the owner fee, in pool tokens
    pub f: u128,
}

fn amounts(req: &Req, c: &Cfg, x: &Alt, hi: bool, host: bool) -> Amts {
    let g = |r: R128| if hi { r.1 } else { r.0 };
    let cc = g(x.c);
    let f = match *req {
        Req::Swap { .. } => {
            if host {
                host_fee(&c.fees, cc)
            } else {
                0
            }
        }
        Req::WdAll { pt, from_fee } => {
            if from_fee {
                0
            } else {
                withdraw_fee(&c.fees, pt as u128)
            }
        }
        Req::WdOne { from_fee, .. } => {
            if from_fee || cc > u64::MAX as u128 {
                0
            } else {
                withdraw_fee(&c.fees, cc)
            }
        }
        _ => 0,
    };
    Amts { a: g(x.a), b: g(x.b), c: cc, f }
}

/// Moves the tokens of an operation on the working ledger. `lenient`: leave out zero movements.
pub fn moves(l: &mut [Acct], p: &tok::Privs, ix: &Ix, c: &Cfg, req: &Req, x: &Amts, host: Option<Aid>, lenient: bool) -> Result<(), &'static str> {
    let id = |i: usize| ix.metas[i].aid;
    let user: Pubkey = p.names.keys[id(2) as usize];
    let pda: Pubkey = p.names.keys[c.auth as usize];
    let n = |v: u128| -> Result<u64, &'static str> { u64::try_from(v).map_err(|_| "amount exceeds 64 bits") };
    let skip = |v: u128| lenient && v == 0;
    let tr = |l: &mut [Acct], s: Aid, d: Aid, k: &Pubkey, v: u128| -> Result<(), &'static str> {
        if skip(v) {
            return Ok(());
        }
        tok::transfer(l, p, s, d, k, n(v)?)
    };
    match *req {
        Req::Swap { .. } => {
            tr(l, id(3), id(4), &user, x.a)?;
            if x.c > 0 {
                let rest = x.c.checked_sub(x.f).ok_or("host share exceeds the fee")?;
                if x.f > 0 {
                    if let Some(h) = host {
                        tok::mint_to(l, p, c.pm, h, &pda, n(x.f)?)?;
                    }
                }
                if rest > 0 || !lenient {
                    tok::mint_to(l, p, c.pm, c.fee, &pda, n(rest)?)?;
                }
            }
            tr(l, id(5), id(6), &pda, x.b)?;
        }
        Req::DepAll { .. } => {
            tr(l, id(3), c.va, &user, x.a)?;
            tr(l, id(4), c.vb, &user, x.b)?;
            tok::mint_to(l, p, c.pm, id(8), &pda, n(x.c)?)?;
        }
        Req::WdAll { .. } => {
            if x.f > 0 {
                tr(l, id(4), c.fee, &user, x.f)?;
            }
            if !skip(x.c) {
                tok::burn(l, p, id(4), c.pm, &user, n(x.c)?)?;
            }
            if x.a > 0 {
                tr(l, c.va, id(7), &pda, x.a)?;
            }
            if x.b > 0 {
                tr(l, c.vb, id(8), &pda, x.b)?;
            }
        }
        Req::DepOne { a2b, .. } => {
            tr(l, id(3), if a2b { c.va } else { c.vb }, &user, x.a)?;
            tok::mint_to(l, p, c.pm, id(7), &pda, n(x.c)?)?;
        }
        Req::WdOne { a2b, .. } => {
            if x.f > 0 {
                tr(l, id(4), c.fee, &user, x.f)?;
            }
            tok::burn(l, p, id(4), c.pm, &user, n(x.c)?)?;
            tr(l, if a2b { c.va } else { c.vb }, id(7), &pda, x.a)?;
        }
    }
    Ok(())
}

/// `moves`, undone afterwards.
fn dry(l: &mut [Acct], p: &tok::Privs, ix: &Ix, c: &Cfg, req: &Req, x: &Amts, host: Option<Aid>, lenient: bool) -> Result<(), &'static str> {
    let mut ids: Vec<Aid> = ix.metas.iter().map(|m| m.aid).collect();
    ids.extend([c.va, c.vb, c.pm, c.fee]);
    ids.sort();
    ids.dedup();
    let saved: Vec<(Aid, Acct)> = ids.iter().map(|i| (*i, l[*i as usize].clone())).collect();
    let r = moves(l, p, ix, c, req, x, host, lenient);
    for (i, a) in saved {
        l[i as usize] = a;
    }
    r
}

// ---------------------------------------------------------------------------------- creation

fn frac_ok(n: u64, d: u64) -> bool {
    (n == 0 && d == 0) || n < d
}

/// Everything that stands in the way of a creation: why, whose property, and the error that
/// names it (none where the refusal comes from the runtime or the token program).
fn init_defects(cx: &JCtx, l: &[Acct], ix: &Ix) -> Vec<(&'static str, Props, Option<u32>)> {
    let m = &ix.metas;
    let id = |i: usize| m[i].aid;
    let key = |i: usize| cx.names.keys[m[i].aid as usize];
    let (kind, p, fees) = ix.op.init_spec().unwrap();
    const C8: Props = &["C08"];
    const C17: Props = &["C17"];
    let mut d: Vec<(&'static str, Props, Option<u32>)> = vec![];
    if !cx.signers.contains(&id(0)) {
        d.push(("the record's key did not sign", C8, None));
    }
    let rec = &l[id(0) as usize];
    let used = parse_record(&rec.data).is_some();
    if used && cx.pools.iter().any(|c| c.swap == id(0)) {
        d.push(("pool exists already", &["C09", "C08"], Some(0)));
    }
    if rec.owner != token_bonding_curve::ID {
        d.push(("record account not owned by the program", C8, None));
    }
    if rec.data.len() != REC_LEN {
        d.push(("record account of the wrong size", C8, None));
    } else if used {
        d.push(("record in use", C8, Some(0)));
    }
    let (auth, _) = authority(&key(0));
    if key(1) != auth {
        d.push(("wrong authority", C8, Some(1)));
    }
    if id(7) != cx.tp {
        d.push(("wrong token program", C8, Some(24)));
    }
    for i in [2usize, 3, 5, 6] {
        let a = &l[id(i) as usize];
        if tok::acct(a).is_none() {
            d.push(("not intact token accounts", C8, Some(if a.owner == key(7) { 5 } else { 24 })));
        }
    }
    let ma = &l[id(4) as usize];
    if tok::mint(ma).is_none() {
        d.push(("not an intact mint", C8, Some(if ma.owner == key(7) { 4 } else { 24 })));
    }
    let t = |i: usize| tok::acct(&l[id(i) as usize]);
    let (va, vb, fe, de, pm) = (t(2), t(3), t(5), t(6), tok::mint(ma));
    let vaults = || [&va, &vb].into_iter().flatten();
    if vaults().any(|v| v.owner != auth) {
        d.push(("vault not owned by the authority", C8, Some(2)));
    }
    if [&fe, &de].into_iter().flatten().any(|v| v.owner == auth) {
        d.push(("fee or holder account owned by the authority", C8, Some(3)));
    }
    if pm.as_ref().map_or(false, |p| p.auth != Some(auth)) {
        d.push(("pool mint not controlled by the authority", C8, Some(2)));
    }
    if let (Some(a), Some(b)) = (&va, &vb) {
        if a.mint == b.mint {
            d.push(("both vaults hold the same token", C8, Some(15)));
        }
    }
    if vaults().any(|v| v.delegate.is_some()) {
        d.push(("vault has a delegate", C8, Some(8)));
    }
    if vaults().any(|v| v.close.is_some()) {
        d.push(("vault has a close authority", C8, Some(17)));
    }
    if let Some(p) = &pm {
        if p.supply != 0 {
            d.push(("pool tokens already issued", C8, Some(7)));
        }
        if p.freeze.is_some() {
            d.push(("pool tokens can be frozen", C8, Some(18)));
        }
    }
    if fe.as_ref().map_or(false, |v| v.mint != key(4)) {
        d.push(("fee or holder account of another token", C8, Some(11)));
    }
    if let Some(v) = &de {
        if v.mint != key(4) {
            d.push(("fee or holder account of another token", C8, None));
        }
        if v.frozen {
            d.push(("holder account frozen", C8, None));
        }
        if v.native {
            d.push(("holder account of wrapped coin", C8, None));
        }
    }
    if let (Some(va), Some(vb)) = (&va, &vb) {
        let (a, b) = (va.amount, vb.amount);
        const W: &str = "starting balances do not suit the curve";
        if (kind == LINEAR || kind == CP || kind == STABLE) && b == 0 || kind != LINEAR && a == 0 {
            d.push((W, C8, Some(6)));
        }
        if kind == LINEAR && a != 0 {
            d.push((W, C8, Some(7)));
        }
    }
    let curve_ok = match kind {
        PRICE | OFFSET => p[0] != 0,
        LINEAR => p[0] != 0 && p[1] != 0 && p[3] != 0 && p[0] as u128 * 1_000_000_000_000_000_000u128 >= p[1] as u128,
        _ => true,
    };
    if !curve_ok {
        d.push(("curve parameters invalid", C8, Some(26)));
    }
    if !(0..4).all(|i| frac_ok(fees[2 * i], fees[2 * i + 1])) {
        d.push(("fees invalid", C8, Some(23)));
    }
    let con = match &ix.op {
        Op::InitDirect { con, .. } => con.clone(),
        _ => cx.production.clone(),
    };
    if let Some(k) = con {
        if fe.as_ref().map_or(false, |v| v.owner != cx.names.keys[k.owner as usize]) {
            d.push(("constraint: fee account owner", C17, Some(2)));
        }
        if !k.types.contains(&kind) {
            d.push(("constraint: curve type", C17, Some(25)));
        }
        let f = &k.fees;
        let ok = (0..3).all(|i| fees[2 * i] >= f[2 * i] && fees[2 * i + 1] == f[2 * i + 1]) && fees[6] == f[6] && fees[7] == f[7];
        if !ok {
            d.push(("constraint: fees", C17, Some(23)));
        }
    }
    for i in [0usize, 4, 6] {
        if !cx.writable.contains(&id(i)) {
            d.push(("account not writable", C8, None));
        }
    }
    d
}

fn judge_init(cx: &JCtx, l: &mut [Acct], ix: &Ix) -> Verdict {
    let m = &ix.metas;
    let id = |i: usize| m[i].aid;
    let key = |i: usize| cx.names.keys[m[i].aid as usize];
    let (kind, p, fees) = ix.op.init_spec().unwrap();
    if let Some((why, props, _)) = init_defects(cx, l, ix).first() {
        return fail(why, props);
    }
    // a blank record is certainly free
    let sure = l[id(0) as usize].data.iter().all(|b| *b == 0);
    let (_, bump) = authority(&key(0));
    let (va, vb) = match (tok::acct(&l[id(2) as usize]), tok::acct(&l[id(3) as usize])) {
        (Some(a), Some(b)) => (a, b),
        _ => return Verdict::Skip,
    };
    let rec = Rec {
        bump,
        token_program: cx.names.keys[cx.tp as usize],
        va: key(2),
        vb: key(3),
        pm: key(4),
        ma: va.mint,
        mb: vb.mint,
        fee: key(5),
        fees,
        kind,
        p,
    };
    let mint_id = |k: &Pubkey| cx.names.by_key(k).unwrap_or(0);
    let cfg = Cfg {
        swap: id(0),
        auth: id(1),
        va: id(2),
        vb: id(3),
        pm: id(4),
        fee: id(5),
        dest: id(6),
        ma: mint_id(&va.mint),
        mb: mint_id(&vb.mint),
        kind,
        p,
        fees,
        record: pack_record(&rec),
        lamports: 0,
    };
    Verdict::Init(InitV { cfg, sure })
}

// ------------------------------------------------------------------------- reasons of refusals

/// The errors that name what is wrong with a request, when that can be told from the ledger and
/// nothing else is wrong with it.
pub fn reasons(cx: &JCtx, l: &mut [Acct], ix: &Ix, v: &Verdict) -> Option<(Vec<u32>, String)> {
    if ix.prog != cx.tbc || ix.cut.is_some() || matches!(ix.op, Op::Raw(_)) || ix.metas.len() < n_accounts(&ix.op) {
        return None;
    }
    let m = &ix.metas;
    let id = |i: usize| m[i].aid;
    if ix.op.is_init() {
        let d = init_defects(cx, l, ix);
        let rec = &l[id(0) as usize].data;
        // a record damaged by a fault may or may not look used
        if d.is_empty() || rec.iter().any(|b| *b != 0) && parse_record(rec).is_none() {
            return None;
        }
        let codes: Option<Vec<u32>> = d.iter().map(|x| x.2).collect();
        return Some((codes?, d.iter().map(|x| x.0).collect::<Vec<_>>().join(", ")));
    }
    let certain = |l: &mut [Acct], ix: &Ix| matches!(judge_op(cx, l, ix), Verdict::Op(o) if o.must_succeed);
    match v {
        Verdict::Op(o) => {
            if o.must_fail.as_ref().map_or(false, |x| x.1.contains(&"C03")) {
                let mut ok = ix.clone();
                ok.op = ix.op.unlimited()?;
                if certain(l, &ok) {
                    return Some((vec![16], "the limit is not met".into()));
                }
            }
            None
        }
        Verdict::Fail(why, _) => {
            let c = cx.pools.iter().find(|c| c.swap == id(0) && c.record == l[id(0) as usize].data)?;
            if l[id(0) as usize].owner != token_bonding_curve::ID || !cx.signers.contains(&id(2)) {
                return None;
            }
            if is_public(&ix.op) && mut_positions(&ix.op).iter().any(|i| !cx.writable.contains(&id(*i))) {
                return None;
            }
            let intact = tok::acct(&l[c.va as usize]).is_some() && tok::acct(&l[c.vb as usize]).is_some() && tok::mint(&l[c.pm as usize]).is_some();
            if !intact {
                return None;
            }
            let user: &[usize] = match ix.op {
                Op::Swap { .. } | Op::SwapHost { .. } => &[3, 6],
                Op::DepAll { .. } => &[3, 4, 8],
                Op::WdAll { .. } => &[4, 7, 8],
                Op::DepOne { .. } => &[3, 7],
                _ => &[4, 7],
            };
            let wrong: Vec<(usize, Aid, &str)> = pool_side(&ix.op, c, cx.tp).into_iter().filter(|(i, want, _)| id(*i) != *want).collect();
            if wrong.len() > 1 || user.iter().any(|i| tok::acct(&l[id(*i) as usize]).is_none()) {
                return None;
            }
            // the user's accounts hold the pool's tokens
            let mint = |i: usize| tok::acct(&l[id(i) as usize]).map(|t| t.mint);
            let k = |a: Aid| Some(cx.names.keys[a as usize]);
            let of_pool = |i: usize| mint(i) == k(c.ma) || mint(i) == k(c.mb);
            if why == "pool is locked for this operation" {
                let right = match ix.op {
                    Op::DepAll { pt, .. } => pt > 0 && mint(3) == k(c.ma) && mint(4) == k(c.mb) && mint(8) == k(c.pm) && id(3) != c.va && id(4) != c.vb,
                    Op::DepOne { amt, .. } => amt > 0 && of_pool(3) && mint(7) == k(c.pm) && ![c.va, c.vb].contains(&id(3)),
                    _ => false,
                };
                return if wrong.is_empty() && right { Some((vec![27], why.clone())) } else { None };
            }
            if let Some((i, want, role)) = wrong.first() {
                let x = &l[id(*i) as usize];
                let code = match *role {
                    "authority" => 1,
                    "token program" => 24,
                    "fee account" => 19,
                    "pool mint" if tok::mint(x).is_some() => 11,
                    "vault A" | "vault B" if tok::acct(x).is_some() && !user.iter().any(|u| id(*u) == id(*i)) => 10,
                    _ => return None,
                };
                let mut ok = ix.clone();
                ok.metas[*i].aid = *want;
                if certain(l, &ok) {
                    return Some((vec![code], why.clone()));
                }
                return None;
            }
            if why == "wrong vaults" {
                let (s, d) = (id(4), id(5));
                let (iv, dv) = ([c.va, c.vb].contains(&s), [c.va, c.vb].contains(&d));
                let (i, want, code) = match (iv, dv) {
                    (false, true) => (4, if d == c.va { c.vb } else { c.va }, 10),
                    (true, false) => (5, if s == c.va { c.vb } else { c.va }, 10),
                    (true, true) => (5, if s == c.va { c.vb } else { c.va }, 9),
                    _ => return None,
                };
                if tok::acct(&l[id(i) as usize]).is_none() || user.iter().any(|u| id(*u) == id(i)) {
                    return None;
                }
                let mut ok = ix.clone();
                ok.metas[i].aid = want;
                return if certain(l, &ok) { Some((vec![code], why.clone())) } else { None };
            }
            if why == "a vault passed as the user's account" {
                let sides = match ix.op {
                    Op::Swap { .. } | Op::SwapHost { .. } => [c.va, c.vb].contains(&id(4)) && [c.va, c.vb].contains(&id(5)) && id(4) != id(5),
                    Op::DepOne { .. } | Op::WdOne { .. } => {
                        let i = if matches!(ix.op, Op::DepOne { .. }) { 3 } else { 7 };
                        (id(i) == c.va && mint(i) == k(c.ma)) || (id(i) == c.vb && mint(i) == k(c.mb))
                    }
                    _ => true,
                };
                return if sides { Some((vec![9], why.clone())) } else { None };
            }
            if why == "token is not one of the pool's" {
                return Some((vec![10], why.clone()));
            }
            if why == "host account is not a pool-token account" {
                let h = &l[id(10) as usize];
                let code = if tok::acct(h).is_some() {
                    11
                } else if h.owner == spl_token::id() {
                    5
                } else {
                    24
                };
                let mut ok = ix.clone();
                ok.metas[10].aid = c.fee;
                return if certain(l, &ok) { Some((vec![code], why.clone())) } else { None };
            }
            let sup = tok::supply(&l[c.pm as usize]);
            let limitless = ix.op.unlimited().map_or(true, |o| o == ix.op);
            let zero = match ix.op {
                Op::Swap { amt, .. } | Op::SwapHost { amt, .. } => why == "trade would give nothing" && amt > 0,
                Op::DepAll { pt, .. } | Op::WdAll { pt, .. } => why == "rounds to nothing" && c.kind != PRICE && pt > 0 && pt <= sup,
                _ => false,
            };
            if zero && limitless {
                return Some((vec![20], why.clone()));
            }
            None
        }
        _ => None,
    }
}
