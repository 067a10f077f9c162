//! Operations, transactions, events and their text form (the replay file format).
use crate::bank::*;
use solana_program::pubkey::Pubkey;
use std::fmt::Write;

pub const CP: u8 = 0;
pub const PRICE: u8 = 1;
pub const STABLE: u8 = 2;
pub const OFFSET: u8 = 3;
pub const LINEAR: u8 = 30;

pub fn kind_name(k: u8) -> &'static str {
    match k {
        CP => "constant-product",
        PRICE => "constant-price",
        STABLE => "stable",
        OFFSET => "offset",
        _ => "linear-price",
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Con {
    pub fees: [u64; 8],
    pub types: Vec<u8>,
    pub owner: Aid,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// creation through the public instructions
    InitPrice { fees: [u64; 8], price: u64 },
    InitLinear { p: [u64; 4] },
    /// creation through the processor API
    InitDirect { kind: u8, p: [u64; 4], fees: [u64; 8], con: Option<Con> },
    Swap { amt: u64, min: u64 },
    /// swap through the processor API, with the optional host account
    SwapHost { amt: u64, min: u64 },
    DepAll { pt: u64, ma: u64, mb: u64 },
    WdAll { pt: u64, ma: u64, mb: u64 },
    DepOne { amt: u64, min: u64 },
    WdOne { amt: u64, max: u64 },
    /// arbitrary bytes to the program
    Raw(Vec<u8>),
    // token program
    Transfer(u64),
    Approve(u64),
    Revoke,
    Burn(u64),
    MintTo(u64),
    Freeze,
    Thaw,
    Close,
    /// SyncNative: takes note of lamports sent to an account of wrapped coin
    Sync,
    /// SetAuthority: (type, new authority or none)
    SetAuth(u8, Option<Aid>),
}

impl Op {
    /// the same request with limits that any outcome meets
    pub fn unlimited(&self) -> Option<Op> {
        Some(match *self {
            Op::Swap { amt, .. } => Op::Swap { amt, min: 0 },
            Op::SwapHost { amt, .. } => Op::SwapHost { amt, min: 0 },
            Op::DepAll { pt, .. } => Op::DepAll { pt, ma: u64::MAX, mb: u64::MAX },
            Op::WdAll { pt, .. } => Op::WdAll { pt, ma: 0, mb: 0 },
            Op::DepOne { amt, .. } => Op::DepOne { amt, min: 0 },
            Op::WdOne { amt, .. } => Op::WdOne { amt, max: u64::MAX },
            _ => return None,
        })
    }
    pub fn is_tbc(&self) -> bool {
        !matches!(
            self,
            Op::Transfer(_) | Op::Approve(_) | Op::Revoke | Op::Burn(_) | Op::MintTo(_) | Op::Freeze | Op::Thaw | Op::Close | Op::Sync | Op::SetAuth(..)
        )
    }
    pub fn is_init(&self) -> bool {
        matches!(self, Op::InitPrice { .. } | Op::InitLinear { .. } | Op::InitDirect { .. })
    }
    pub fn is_pool_op(&self) -> bool {
        matches!(self, Op::Swap { .. } | Op::SwapHost { .. } | Op::DepAll { .. } | Op::WdAll { .. } | Op::DepOne { .. } | Op::WdOne { .. })
    }
    pub fn short(&self) -> &'static str {
        match self {
            Op::InitPrice { .. } => "init_price",
            Op::InitLinear { .. } => "init_linear",
            Op::InitDirect { .. } => "init_direct",
            Op::Swap { .. } => "swap",
            Op::SwapHost { .. } => "swap_host",
            Op::DepAll { .. } => "deposit_all",
            Op::WdAll { .. } => "withdraw_all",
            Op::DepOne { .. } => "deposit_one",
            Op::WdOne { .. } => "withdraw_one",
            Op::Raw(_) => "raw",
            Op::Transfer(_) => "transfer",
            Op::Approve(_) => "approve",
            Op::Revoke => "revoke",
            Op::Burn(_) => "burn",
            Op::MintTo(_) => "mint_to",
            Op::Freeze => "freeze",
            Op::Thaw => "thaw",
            Op::Close => "close",
            Op::Sync => "sync_native",
            Op::SetAuth(..) => "set_authority",
        }
    }
    /// (kind, params, fees) of a creation request
    pub fn init_spec(&self) -> Option<(u8, [u64; 4], [u64; 8])> {
        match self {
            Op::InitPrice { fees, price } => Some((PRICE, [*price, 0, 0, 0], *fees)),
            Op::InitLinear { p } => Some((LINEAR, *p, [0, 1, 0, 1, 0, 1, 0, 1])),
            Op::InitDirect { kind, p, fees, .. } => Some((*kind, *p, *fees)),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ix {
    pub op: Op,
    pub prog: Aid,
    pub metas: Vec<Meta>,
    /// keep only this many bytes of the encoded data (torn instruction)
    pub cut: Option<u16>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tx {
    pub ixs: Vec<Ix>,
    pub signers: Vec<Aid>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    /// (slot, transaction, fault, annotation: what the simulated network did to it)
    Exec { slot: u64, tx: Tx, fault: Fault, note: String },
    /// the cluster starts working on a fork
    Fork,
    /// the fork since the matching Fork is abandoned
    Rollback,
    /// the node writes a checkpoint of the ledger to durable storage
    Checkpoint,
    /// the node dies, restarts from the last checkpoint and replays its log
    Crash,
    /// an account's stored bytes are damaged; the damage is undone by Restore
    Corrupt { aid: Aid, how: Corrupt },
    Restore { aid: Aid },
    /// faults have stopped: run the closing phase of the check
    Epilogue,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Corrupt {
    /// only the first n bytes were written, the rest is zero
    Torn(u16),
    Truncate(u16),
    Extend(u16),
    /// byte n becomes v
    Byte(u16, u8),
    Owner(u8),
    Zero,
    /// replaced by the contents of another account
    Swap(Aid),
}

fn disc(name: &str) -> [u8; 8] {
    let h = solana_program::hash::hash(format!("global:{}", name).as_bytes());
    let mut d = [0u8; 8];
    d.copy_from_slice(&h.to_bytes()[..8]);
    d
}

pub struct Discs {
    init_price: [u8; 8],
    init_linear: [u8; 8],
    swap: [u8; 8],
    dep_all: [u8; 8],
    wd_all: [u8; 8],
    dep_one: [u8; 8],
    wd_one: [u8; 8],
}
thread_local! {
    static DISCS: Discs = Discs {
        init_price: disc("initialize_constant_price"),
        init_linear: disc("initialize_linear_price"),
        swap: disc("swap"),
        dep_all: disc("deposit_all_token_types"),
        wd_all: disc("withdraw_all_token_types"),
        dep_one: disc("deposit_single_token_type_exact_amount_in"),
        wd_one: disc("withdraw_single_token_type_exact_amount_out"),
    };
}

fn enc(d: [u8; 8], v: &[u64]) -> Vec<u8> {
    let mut o = d.to_vec();
    for x in v {
        o.extend_from_slice(&x.to_le_bytes());
    }
    o
}

pub fn encode(op: &Op, keys: &[Pubkey]) -> Vec<u8> {
    DISCS.with(|d| match op {
        Op::InitPrice { fees, price } => {
            let mut v = fees.to_vec();
            v.push(*price);
            enc(d.init_price, &v)
        }
        Op::InitLinear { p } => enc(d.init_linear, p),
        Op::InitDirect { kind, p, fees, con } => {
            let mut o = DIRECT.to_vec();
            o.push(0);
            o.push(*kind);
            o.push(con.is_some() as u8);
            for x in p.iter().chain(fees.iter()) {
                o.extend_from_slice(&x.to_le_bytes());
            }
            if let Some(c) = con {
                for x in c.fees.iter() {
                    o.extend_from_slice(&x.to_le_bytes());
                }
                o.push(c.types.len() as u8);
                o.extend_from_slice(&c.types);
                o.extend_from_slice(keys[c.owner as usize].as_ref());
            }
            o
        }
        Op::Swap { amt, min } => enc(d.swap, &[*amt, *min]),
        Op::SwapHost { amt, min } => {
            let mut o = DIRECT.to_vec();
            o.push(1);
            o.extend_from_slice(&amt.to_le_bytes());
            o.extend_from_slice(&min.to_le_bytes());
            o
        }
        Op::DepAll { pt, ma, mb } => enc(d.dep_all, &[*pt, *ma, *mb]),
        Op::WdAll { pt, ma, mb } => enc(d.wd_all, &[*pt, *ma, *mb]),
        Op::DepOne { amt, min } => enc(d.dep_one, &[*amt, *min]),
        Op::WdOne { amt, max } => enc(d.wd_one, &[*amt, *max]),
        Op::Raw(b) => b.clone(),
        Op::Transfer(n) => tok(3, Some(*n)),
        Op::Approve(n) => tok(4, Some(*n)),
        Op::Revoke => tok(5, None),
        Op::SetAuth(t, k) => {
            let mut o = vec![6, *t];
            match k {
                Some(a) => {
                    o.push(1);
                    o.extend_from_slice(keys[*a as usize].as_ref());
                }
                None => o.push(0),
            }
            o
        }
        Op::MintTo(n) => tok(7, Some(*n)),
        Op::Burn(n) => tok(8, Some(*n)),
        Op::Close => tok(9, None),
        Op::Freeze => tok(10, None),
        Op::Thaw => tok(11, None),
        Op::Sync => tok(17, None),
    })
}

fn tok(tag: u8, n: Option<u64>) -> Vec<u8> {
    let mut o = vec![tag];
    if let Some(n) = n {
        o.extend_from_slice(&n.to_le_bytes());
    }
    o
}

pub fn lower(tx: &Tx, names: &Names) -> Vec<BankIx> {
    tx.ixs
        .iter()
        .map(|ix| {
            let mut data = encode(&ix.op, &names.keys);
            if let Some(c) = ix.cut {
                data.truncate(c as usize);
            }
            BankIx { prog: names.keys[ix.prog as usize], metas: ix.metas.clone(), data }
        })
        .collect()
}

// ---------------------------------------------------------------- text form

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).unwrap()).collect()
}
fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn arr<const N: usize>(s: &str) -> [u64; N] {
    let v: Vec<u64> = s.split(',').map(|x| x.parse().unwrap()).collect();
    let mut a = [0u64; N];
    a.copy_from_slice(&v);
    a
}

pub fn op_text(op: &Op, n: &Names) -> String {
    let nm = |a: &Aid| n.names[*a as usize].clone();
    match op {
        Op::InitPrice { fees, price } => format!("init_price:{}:{}", nums(fees), price),
        Op::InitLinear { p } => format!("init_linear:{}", nums(p)),
        Op::InitDirect { kind, p, fees, con } => format!(
            "init_direct:{}:{}:{}:{}",
            kind,
            nums(p),
            nums(fees),
            match con {
                None => "-".to_string(),
                Some(c) => format!("{}/{}/{}", nums(&c.fees), c.types.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), nm(&c.owner)),
            }
        ),
        Op::Swap { amt, min } => format!("swap:{}:{}", amt, min),
        Op::SwapHost { amt, min } => format!("swap_host:{}:{}", amt, min),
        Op::DepAll { pt, ma, mb } => format!("deposit_all:{}:{}:{}", pt, ma, mb),
        Op::WdAll { pt, ma, mb } => format!("withdraw_all:{}:{}:{}", pt, ma, mb),
        Op::DepOne { amt, min } => format!("deposit_one:{}:{}", amt, min),
        Op::WdOne { amt, max } => format!("withdraw_one:{}:{}", amt, max),
        Op::Raw(b) => format!("raw:{}", hex(b)),
        Op::Transfer(x) => format!("transfer:{}", x),
        Op::Approve(x) => format!("approve:{}", x),
        Op::Revoke => "revoke".into(),
        Op::Burn(x) => format!("burn:{}", x),
        Op::MintTo(x) => format!("mint_to:{}", x),
        Op::Freeze => "freeze".into(),
        Op::Thaw => "thaw".into(),
        Op::Close => "close".into(),
        Op::Sync => "sync_native".into(),
        Op::SetAuth(t, k) => format!("set_authority:{}:{}", t, k.map(|a| nm(&a)).unwrap_or("-".into())),
    }
}

pub fn op_parse(s: &str, n: &Names) -> Op {
    let f: Vec<&str> = s.split(':').collect();
    let u = |i: usize| f[i].parse::<u64>().unwrap();
    match f[0] {
        "init_price" => Op::InitPrice { fees: arr(f[1]), price: u(2) },
        "init_linear" => Op::InitLinear { p: arr(f[1]) },
        "init_direct" => Op::InitDirect {
            kind: f[1].parse().unwrap(),
            p: arr(f[2]),
            fees: arr(f[3]),
            con: if f[4] == "-" {
                None
            } else {
                let g: Vec<&str> = f[4].split('/').collect();
                Some(Con {
                    fees: arr(g[0]),
                    types: g[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                    owner: n.by_name(g[2]).unwrap(),
                })
            },
        },
        "swap" => Op::Swap { amt: u(1), min: u(2) },
        "swap_host" => Op::SwapHost { amt: u(1), min: u(2) },
        "deposit_all" => Op::DepAll { pt: u(1), ma: u(2), mb: u(3) },
        "withdraw_all" => Op::WdAll { pt: u(1), ma: u(2), mb: u(3) },
        "deposit_one" => Op::DepOne { amt: u(1), min: u(2) },
        "withdraw_one" => Op::WdOne { amt: u(1), max: u(2) },
        "raw" => Op::Raw(unhex(f[1])),
        "transfer" => Op::Transfer(u(1)),
        "approve" => Op::Approve(u(1)),
        "revoke" => Op::Revoke,
        "burn" => Op::Burn(u(1)),
        "mint_to" => Op::MintTo(u(1)),
        "freeze" => Op::Freeze,
        "thaw" => Op::Thaw,
        "close" => Op::Close,
        "sync_native" => Op::Sync,
        "set_authority" => Op::SetAuth(f[1].parse().unwrap(), if f[2] == "-" { None } else { n.by_name(f[2]) }),
        x => panic!("unknown op {}", x),
    }
}

pub fn event_text(e: &Event, n: &Names) -> String {
    let nm = |a: &Aid| n.names[*a as usize].clone();
    match e {
        Event::Exec { slot, tx, fault, note } => {
            let f = match fault {
                Fault::None => "-".to_string(),
                Fault::CpiFail(k) => format!("cpi-fail:{}", k),
                Fault::Abort(k) => format!("abort:{}", k),
            };
            let mut s = format!(
                "exec slot={} signers={} fault={} note={}",
                slot,
                if tx.signers.is_empty() { "-".into() } else { tx.signers.iter().map(nm).collect::<Vec<_>>().join(",") },
                f,
                if note.is_empty() { "-" } else { note }
            );
            for ix in &tx.ixs {
                let m = ix
                    .metas
                    .iter()
                    .map(|m| format!("{}{}{}", nm(&m.aid), if m.s || m.w { "/" } else { "" }, match (m.s, m.w) {
                        (true, true) => "sw",
                        (true, false) => "s",
                        (false, true) => "w",
                        _ => "",
                    }))
                    .collect::<Vec<_>>()
                    .join(",");
                let _ = write!(s, "\n  ix {} prog={} cut={} accounts={}", op_text(&ix.op, n), nm(&ix.prog), ix.cut.map(|c| c.to_string()).unwrap_or("-".into()), if m.is_empty() { "-".into() } else { m });
            }
            s
        }
        Event::Fork => "fork".into(),
        Event::Rollback => "rollback".into(),
        Event::Checkpoint => "checkpoint".into(),
        Event::Crash => "crash".into(),
        Event::Corrupt { aid, how } => format!(
            "corrupt {} {}",
            nm(aid),
            match how {
                Corrupt::Torn(k) => format!("torn:{}", k),
                Corrupt::Truncate(k) => format!("truncate:{}", k),
                Corrupt::Extend(k) => format!("extend:{}", k),
                Corrupt::Byte(k, v) => format!("byte:{}:{}", k, v),
                Corrupt::Owner(k) => format!("owner:{}", k),
                Corrupt::Zero => "zero".into(),
                Corrupt::Swap(a) => format!("as:{}", nm(a)),
            }
        ),
        Event::Restore { aid } => format!("restore {}", nm(aid)),
        Event::Epilogue => "epilogue".into(),
    }
}

pub fn parse_events(lines: &[String], n: &Names) -> Vec<Event> {
    let mut out: Vec<Event> = vec![];
    let id = |s: &str| n.by_name(s).unwrap_or_else(|| panic!("unknown account {}", s));
    for l in lines {
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.is_empty() {
            continue;
        }
        let kv = |k: &str| -> &str {
            t.iter().find_map(|x| x.strip_prefix(k).and_then(|y| y.strip_prefix('='))).unwrap_or("-")
        };
        match t[0] {
            "exec" => {
                let signers = match kv("signers") {
                    "-" => vec![],
                    s => s.split(',').map(id).collect(),
                };
                let fs: Vec<&str> = kv("fault").split(':').collect();
                let fault = match fs[0] {
                    "cpi-fail" => Fault::CpiFail(fs[1].parse().unwrap()),
                    "abort" => Fault::Abort(fs[1].parse().unwrap()),
                    _ => Fault::None,
                };
                let note = match kv("note") {
                    "-" => String::new(),
                    s => s.to_string(),
                };
                out.push(Event::Exec { slot: kv("slot").parse().unwrap(), tx: Tx { ixs: vec![], signers }, fault, note });
            }
            "ix" => {
                let metas = match kv("accounts") {
                    "-" => vec![],
                    s => s
                        .split(',')
                        .map(|x| {
                            let p: Vec<&str> = x.split('/').collect();
                            let fl = if p.len() > 1 { p[1] } else { "" };
                            Meta { aid: id(p[0]), s: fl.contains('s'), w: fl.contains('w') }
                        })
                        .collect(),
                };
                let cut = match kv("cut") {
                    "-" => None,
                    s => Some(s.parse().unwrap()),
                };
                let ix = Ix { op: op_parse(t[1], n), prog: id(kv("prog")), metas, cut };
                match out.last_mut() {
                    Some(Event::Exec { tx, .. }) => tx.ixs.push(ix),
                    _ => panic!("ix outside exec"),
                }
            }
            "fork" => out.push(Event::Fork),
            "rollback" => out.push(Event::Rollback),
            "checkpoint" => out.push(Event::Checkpoint),
            "crash" => out.push(Event::Crash),
            "epilogue" => out.push(Event::Epilogue),
            "restore" => out.push(Event::Restore { aid: id(t[1]) }),
            "corrupt" => {
                let f: Vec<&str> = t[2].split(':').collect();
                let how = match f[0] {
                    "torn" => Corrupt::Torn(f[1].parse().unwrap()),
                    "truncate" => Corrupt::Truncate(f[1].parse().unwrap()),
                    "extend" => Corrupt::Extend(f[1].parse().unwrap()),
                    "byte" => Corrupt::Byte(f[1].parse().unwrap(), f[2].parse().unwrap()),
                    "owner" => Corrupt::Owner(f[1].parse().unwrap()),
                    "as" => Corrupt::Swap(id(f[1])),
                    _ => Corrupt::Zero,
                };
                out.push(Event::Corrupt { aid: id(t[1]), how });
            }
            x => panic!("unknown event {}", x),
        }
    }
    out
}

pub fn acct_text(name: &str, key: &Pubkey, a: &Acct) -> String {
    format!(
        "acct {} {} {} {} {} {}",
        name,
        key,
        a.owner,
        a.lamports,
        a.exec as u8,
        if a.data.is_empty() { "-".to_string() } else { hex(&a.data) }
    )
}
pub fn acct_parse(l: &str) -> (String, Pubkey, Acct) {
    let t: Vec<&str> = l.split_whitespace().collect();
    (
        t[1].to_string(),
        t[2].parse().unwrap(),
        Acct {
            owner: t[3].parse().unwrap(),
            lamports: t[4].parse().unwrap(),
            exec: t[5] == "1",
            data: if t[6] == "-" { vec![] } else { unhex(t[6]) },
        },
    )
}
