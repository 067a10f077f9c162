//! What the simulator knows about each pool: the requested configuration and the expected record.
use crate::bank::{Acct, Aid, Meta};
use crate::types::*;
use solana_program::pubkey::Pubkey;

pub const REC_LEN: usize = 324;
pub const INITIAL_SUPPLY: u64 = 1_000_000_000;

/// The accounts prepared for a pool before its creation.
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub swap: Aid,
    pub auth: Aid,
    pub va: Aid,
    pub vb: Aid,
    pub pm: Aid,
    pub fee: Aid,
    pub dest: Aid,
    pub ma: Aid,
    pub mb: Aid,
}

/// A pool as created.
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub swap: Aid,
    pub auth: Aid,
    pub va: Aid,
    pub vb: Aid,
    pub pm: Aid,
    pub fee: Aid,
    pub dest: Aid,
    pub ma: Aid,
    pub mb: Aid,
    pub kind: u8,
    pub p: [u64; 4],
    pub fees: [u64; 8],
    pub record: Vec<u8>,
    pub lamports: u64,
}

pub fn authority(swap: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[&swap.to_bytes()], &token_bonding_curve::ID)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub bump: u8,
    pub token_program: Pubkey,
    pub va: Pubkey,
    pub vb: Pubkey,
    pub pm: Pubkey,
    pub ma: Pubkey,
    pub mb: Pubkey,
    pub fee: Pubkey,
    pub fees: [u64; 8],
    pub kind: u8,
    pub p: [u64; 4],
}

pub fn n_params(kind: u8) -> usize {
    match kind {
        CP => 0,
        LINEAR => 4,
        _ => 1,
    }
}

/// The published record layout (version 1).
pub fn pack_record(r: &Rec) -> Vec<u8> {
    let mut o = vec![1u8, 1, r.bump];
    for k in [&r.token_program, &r.va, &r.vb, &r.pm, &r.ma, &r.mb, &r.fee] {
        o.extend_from_slice(k.as_ref());
    }
    for f in r.fees.iter() {
        o.extend_from_slice(&f.to_le_bytes());
    }
    o.push(r.kind);
    for i in 0..4 {
        let v = if i < n_params(r.kind) { r.p[i] } else { 0 };
        o.extend_from_slice(&v.to_le_bytes());
    }
    assert_eq!(o.len(), REC_LEN);
    o
}

/// Equal but for the bytes behind the curve's parameters, which mean nothing.
pub fn record_eq(x: &[u8], want: &[u8], kind: u8) -> bool {
    let n = 292 + 8 * n_params(kind);
    x.len() == want.len() && x[..n] == want[..n]
}

/// Independent decoding of a record: None when it is not an intact record.
pub fn parse_record(d: &[u8]) -> Option<Rec> {
    if d.len() != REC_LEN || d[0] != 1 || d[1] != 1 {
        return None;
    }
    let key = |i: usize| {
        let mut k = [0u8; 32];
        k.copy_from_slice(&d[3 + 32 * i..35 + 32 * i]);
        Pubkey::new_from_array(k)
    };
    let mut fees = [0u64; 8];
    for (i, f) in fees.iter_mut().enumerate() {
        *f = crate::tok::u64_at(d, 227 + 8 * i);
    }
    let kind = d[291];
    if ![CP, PRICE, STABLE, OFFSET, LINEAR].contains(&kind) {
        return None;
    }
    let mut p = [0u64; 4];
    for (i, v) in p.iter_mut().enumerate() {
        if i < n_params(kind) {
            *v = crate::tok::u64_at(d, 292 + 8 * i);
        }
    }
    Some(Rec {
        bump: d[2],
        token_program: key(0),
        va: key(1),
        vb: key(2),
        pm: key(3),
        ma: key(4),
        mb: key(5),
        fee: key(6),
        fees,
        kind,
        p,
    })
}

/// An intact record account of this program.
pub fn record_of(a: &Acct) -> Option<Rec> {
    if a.owner != token_bonding_curve::ID {
        return None;
    }
    parse_record(&a.data)
}

fn m(aid: Aid, s: bool, w: bool) -> Meta {
    Meta { aid, s, w }
}

// ------------------------------------------------------------ instruction builders (client side)

pub fn init_metas(p: &Plan, tp: Aid) -> Vec<Meta> {
    vec![
        m(p.swap, true, true),
        m(p.auth, false, false),
        m(p.va, false, false),
        m(p.vb, false, false),
        m(p.pm, false, true),
        m(p.fee, false, false),
        m(p.dest, false, true),
        m(tp, false, false),
    ]
}
/// `a2b`: token A goes in
pub fn swap_metas(c: &Cfg, tp: Aid, user: Aid, src: Aid, dst: Aid, a2b: bool, host: Option<Aid>) -> Vec<Meta> {
    let (vs, vd) = if a2b { (c.va, c.vb) } else { (c.vb, c.va) };
    let mut v = vec![
        m(c.swap, false, false),
        m(c.auth, false, false),
        m(user, true, false),
        m(src, false, true),
        m(vs, false, true),
        m(vd, false, true),
        m(dst, false, true),
        m(c.pm, false, true),
        m(c.fee, false, true),
        m(tp, false, false),
    ];
    if let Some(h) = host {
        v.push(m(h, false, true));
    }
    v
}
pub fn dep_all_metas(c: &Cfg, tp: Aid, user: Aid, sa: Aid, sb: Aid, lp: Aid) -> Vec<Meta> {
    vec![
        m(c.swap, false, false),
        m(c.auth, false, false),
        m(user, true, false),
        m(sa, false, true),
        m(sb, false, true),
        m(c.va, false, true),
        m(c.vb, false, true),
        m(c.pm, false, true),
        m(lp, false, true),
        m(tp, false, false),
    ]
}
pub fn wd_all_metas(c: &Cfg, tp: Aid, user: Aid, lp: Aid, da: Aid, db: Aid) -> Vec<Meta> {
    vec![
        m(c.swap, false, false),
        m(c.auth, false, false),
        m(user, true, false),
        m(c.pm, false, true),
        m(lp, false, true),
        m(c.va, false, true),
        m(c.vb, false, true),
        m(da, false, true),
        m(db, false, true),
        m(c.fee, false, true),
        m(tp, false, false),
    ]
}
pub fn dep_one_metas(c: &Cfg, tp: Aid, user: Aid, src: Aid, lp: Aid) -> Vec<Meta> {
    vec![
        m(c.swap, false, false),
        m(c.auth, false, false),
        m(user, true, false),
        m(src, false, true),
        m(c.va, false, true),
        m(c.vb, false, true),
        m(c.pm, false, true),
        m(lp, false, true),
        m(tp, false, false),
    ]
}
pub fn wd_one_metas(c: &Cfg, tp: Aid, user: Aid, lp: Aid, dst: Aid) -> Vec<Meta> {
    vec![
        m(c.swap, false, false),
        m(c.auth, false, false),
        m(user, true, false),
        m(c.pm, false, true),
        m(lp, false, true),
        m(c.va, false, true),
        m(c.vb, false, true),
        m(dst, false, true),
        m(c.fee, false, true),
        m(tp, false, false),
    ]
}

pub fn n_accounts(op: &Op) -> usize {
    match op {
        Op::InitPrice { .. } | Op::InitLinear { .. } | Op::InitDirect { .. } => 8,
        Op::Swap { .. } | Op::SwapHost { .. } => 10,
        Op::DepAll { .. } => 10,
        Op::WdAll { .. } => 11,
        Op::DepOne { .. } => 9,
        Op::WdOne { .. } => 10,
        _ => 0,
    }
}

/// The pool-side accounts of an operation: (position, registered account, role).
pub fn pool_side(op: &Op, c: &Cfg, tp: Aid) -> Vec<(usize, Aid, &'static str)> {
    match op {
        Op::DepAll { .. } => vec![(1, c.auth, "authority"), (5, c.va, "vault A"), (6, c.vb, "vault B"), (7, c.pm, "pool mint"), (9, tp, "token program")],
        Op::WdAll { .. } => vec![
            (1, c.auth, "authority"),
            (3, c.pm, "pool mint"),
            (5, c.va, "vault A"),
            (6, c.vb, "vault B"),
            (9, c.fee, "fee account"),
            (10, tp, "token program"),
        ],
        Op::DepOne { .. } => vec![(1, c.auth, "authority"), (4, c.va, "vault A"), (5, c.vb, "vault B"), (6, c.pm, "pool mint"), (8, tp, "token program")],
        Op::WdOne { .. } => vec![
            (1, c.auth, "authority"),
            (3, c.pm, "pool mint"),
            (5, c.va, "vault A"),
            (6, c.vb, "vault B"),
            (8, c.fee, "fee account"),
            (9, tp, "token program"),
        ],
        Op::Swap { .. } | Op::SwapHost { .. } => vec![(1, c.auth, "authority"), (7, c.pm, "pool mint"), (8, c.fee, "fee account"), (9, tp, "token program")],
        _ => vec![],
    }
}
