//! The simulated world: ledger, ghost knowledge, fault handling, and the oracles. A run is a list of
//! events; `apply` is the same for generation and replay.
use crate::bank::*;
use crate::big::*;
use crate::judge::*;
use crate::model::*;
use crate::pool::*;
use crate::prng::mix;
use crate::tok;
use crate::types::*;
use std::collections::{BTreeMap, HashSet};

/// In `State::finding`: the pool tokens of an operation are below the resolution of the program's
/// 12-decimal roots (so small a part of the supply remains that a root is off by several tokens).
const COARSE: u8 = 255;

/// Recorded findings: (property, number, description), from /verif/known-findings.txt.
pub fn known_findings() -> Vec<(String, u8, String)> {
    let mut v = vec![];
    for l in include_str!("../../known-findings.txt").lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").to_string();
            let id = it.next().and_then(|x| x.strip_prefix("finding=")).and_then(|x| x.parse().ok()).unwrap_or(0);
            v.push((p, id, it.next().unwrap_or("").to_string()));
        }
    }
    v
}
thread_local! {
    static KNOWN_LIST: Vec<(String, u8, String)> = known_findings();
}
pub fn is_known(p: &str, id: u8) -> bool {
    KNOWN_LIST.with(|k| k.iter().any(|k| k.0 == p && k.1 == id))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: String,
    pub msg: String,
}

/// Everything that is rolled back with the ledger.
#[derive(Clone)]
pub struct State {
    pub accts: Vec<Acct>,
    pub pools: Vec<Cfg>,
    /// bonded tokens a linear pool has net paid out by swaps
    pub bout: Vec<i128>,
    /// C21: pool states (a, b, pool-token supply, fee swaps so far) since the last reset
    pub hist: Vec<Vec<(u64, u64, u64, u64)>>,
    /// for every swap so far that issued pool tokens for the owner's fee, the part of the pool one
    /// of them stood for (2^-60)
    pub feeswaps: Vec<u64>,
    /// swaps so far
    pub swaps: Vec<u64>,
    /// a recorded finding showed in this transaction
    pub finding: Vec<u8>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    /// distinct coarse states reached
    pub states: HashSet<u64>,
    /// distinct coarse situations in which the property's oracle had something to decide
    pub distinct: HashSet<u64>,
    pub judged: u64,
    pub nontrivial: u64,
    pub slots: u64,
}
impl Stats {
    pub fn inc(&mut self, k: &str) {
        if let Some(v) = self.n.get_mut(k) {
            *v += 1;
        } else {
            self.n.insert(k.to_string(), 1);
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        *self.n.get(k).unwrap_or(&0)
    }
}

pub struct Genesis {
    pub names: Names,
    pub accts: Vec<Acct>,
    pub tp: Aid,
    pub tbc: Aid,
    pub production: Option<Con>,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Quote {
    pub out: u64,
    pub a: u64,
    pub b: u64,
    pub lp: u64,
}

struct Prev {
    tx: Tx,
    pool: usize,
    pre: Vec<(Aid, Acct)>,
}

pub struct World {
    pub names: Names,
    pub tp: Aid,
    pub tbc: Aid,
    pub production: Option<Con>,
    pub st: State,
    shadow: Vec<Acct>,
    stack: Vec<(State, usize, bool)>,
    ckpt: State,
    log: Vec<(Tx, Fault, u64)>,
    /// log length at the checkpoint is 0; a rollback below it is not replayable
    log_ok: bool,
    pub corrupt: u32,
    pub epi: bool,
    pub prop: String,
    pub viol: Vec<Violation>,
    pub stats: Stats,
    pub digest: u64,
    prev: Option<Prev>,
    pub slot: u64,
    /// record every enabled oracle's objections even after the first
    pub last_ok: bool,
    pub last_cpis: u32,
    pub last_syscalls: u32,
    pub last_verdict: Option<Verdict>,
}

fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x)).rotate_left(1);
    }
    h
}

fn find<'a>(v: &'a [(Aid, Acct)], a: Aid) -> Option<&'a Acct> {
    v.iter().find(|x| x.0 == a).map(|x| &x.1)
}

/// The program's published errors, by number.
const ERRORS: [&str; 28] = [
    "AlreadyInUse",
    "InvalidProgramAddress",
    "InvalidOwner",
    "InvalidOutputOwner",
    "ExpectedMint",
    "ExpectedAccount",
    "EmptySupply",
    "InvalidSupply",
    "InvalidDelegate",
    "InvalidInput",
    "IncorrectSwapAccount",
    "IncorrectPoolMint",
    "InvalidOutput",
    "CalculationFailure",
    "InvalidInstruction",
    "RepeatedMint",
    "ExceededSlippage",
    "InvalidCloseAuthority",
    "InvalidFreezeAuthority",
    "IncorrectFeeAccount",
    "ZeroTradingTokens",
    "FeeCalculationFailure",
    "ConversionFailure",
    "InvalidFee",
    "IncorrectTokenProgramId",
    "UnsupportedCurveType",
    "InvalidCurve",
    "UnsupportedCurveOperation",
];

/// Name of the record of a pool that an earlier deployment of the program left on the ledger.
pub const LEGACY: &str = "legacy";

fn legacy_pools(names: &Names, accts: &[Acct]) -> Vec<Cfg> {
    let mut v = vec![];
    for (i, a) in accts.iter().enumerate() {
        let n = &names.names[i];
        if !n.starts_with(LEGACY) || n.contains('.') {
            continue;
        }
        let r = match record_of(a) {
            Some(r) => r,
            None => continue,
        };
        let id = |k: &solana_program::pubkey::Pubkey| names.by_key(k);
        let auth = authority(&names.keys[i]).0;
        if let (Some(auth), Some(va), Some(vb), Some(pm), Some(fee), Some(ma), Some(mb)) = (id(&auth), id(&r.va), id(&r.vb), id(&r.pm), id(&r.fee), id(&r.ma), id(&r.mb)) {
            v.push(Cfg { swap: i as Aid, auth, va, vb, pm, fee, dest: fee, ma, mb, kind: r.kind, p: r.p, fees: r.fees, record: a.data.clone(), lamports: a.lamports });
        }
    }
    v
}

impl World {
    fn is_legacy(&self, swap: Aid) -> bool {
        self.names.names[swap as usize].starts_with(LEGACY)
    }
    pub fn new(g: Genesis, prop: &str) -> World {
        let old = legacy_pools(&g.names, &g.accts);
        let n = old.len();
        let st = State { accts: g.accts, pools: old, bout: vec![0; n], hist: vec![vec![]; n], finding: vec![0; n], feeswaps: vec![0; n], swaps: vec![0; n] };
        World {
            names: g.names,
            tp: g.tp,
            tbc: g.tbc,
            production: g.production,
            shadow: st.accts.clone(),
            ckpt: st.clone(),
            st,
            stack: vec![],
            log: vec![],
            log_ok: true,
            corrupt: 0,
            epi: false,
            prop: prop.to_string(),
            viol: vec![],
            stats: Stats::default(),
            digest: 0,
            prev: None,
            slot: 0,
            last_ok: false,
            last_cpis: 0,
            last_syscalls: 0,
            last_verdict: None,
        }
    }
    fn on(&self, p: &str) -> bool {
        self.prop == p || self.prop == "ALL"
    }
    /// A violation whose cause is the recorded finding `id` (see known-findings.txt).
    fn known(&mut self, p: &str, id: u8, msg: String) {
        if is_known(p, id) {
            if self.on(p) {
                self.stats.inc(&format!("known:{}:{}", p, id));
            }
        } else {
            self.bad(p, msg);
        }
    }
    fn bad(&mut self, p: &str, msg: String) {
        if self.on(p) {
            self.viol.push(Violation { prop: p.to_string(), msg });
        }
    }
    pub fn bal(&self, a: Aid) -> u64 {
        tok::amount(&self.st.accts[a as usize])
    }
    pub fn supply(&self, a: Aid) -> u64 {
        tok::supply(&self.st.accts[a as usize])
    }
    pub fn mpool<'a>(&self, c: &'a Cfg) -> Pool<'a> {
        Pool { kind: c.kind, p: &c.p, fees: &c.fees, a: self.bal(c.va), b: self.bal(c.vb), s: self.supply(c.pm) }
    }

    pub fn apply(&mut self, ev: &Event) {
        match ev {
            Event::Exec { slot, tx, fault, note } => {
                if *slot > self.slot {
                    self.stats.slots += *slot - self.slot;
                    self.slot = *slot;
                }
                for n in note.split('+').filter(|n| !n.is_empty()) {
                    self.stats.inc(&format!("net:{}", n));
                }
                self.exec(tx, *fault);
                return;
            }
            Event::Fork => {
                self.stack.push((self.st.clone(), self.log.len(), false));
            }
            Event::Rollback => {
                if matches!(self.stack.last(), Some((_, _, false))) {
                    let (s, n, _) = self.stack.pop().unwrap();
                    self.stats.inc("fault:fork-abandoned");
                    self.st = s;
                    self.shadow = self.st.accts.clone();
                    if self.log.len() >= n {
                        self.log.truncate(n);
                    } else {
                        self.log_ok = false;
                    }
                }
            }
            Event::Checkpoint => {
                if self.corrupt == 0 {
                    self.ckpt = self.st.clone();
                    self.log.clear();
                    // checkpoints are only taken of rooted state
                    self.log_ok = self.stack.is_empty();
                    self.stats.inc("checkpoint");
                }
            }
            Event::Crash => self.crash(),
            Event::Corrupt { aid, how } => {
                self.stack.push((self.st.clone(), self.log.len(), true));
                self.corrupt += 1;
                self.damage(*aid, how);
            }
            Event::Restore { .. } => {
                if matches!(self.stack.last(), Some((_, _, true))) {
                    let (s, n, _) = self.stack.pop().unwrap();
                    self.corrupt -= 1;
                    self.st = s;
                    self.shadow = self.st.accts.clone();
                    self.log.truncate(n);
                }
            }
            Event::Epilogue => {
                self.epi = true;
                self.stats.inc("epilogue");
            }
        }
        self.prev = None;
    }

    fn damage(&mut self, aid: Aid, how: &Corrupt) {
        let other = match how {
            Corrupt::Swap(o) => Some(self.st.accts[*o as usize].clone()),
            _ => None,
        };
        let a = &mut self.st.accts[aid as usize];
        let kind = match how {
            Corrupt::Torn(n) => {
                for b in a.data.iter_mut().skip(*n as usize) {
                    *b = 0;
                }
                "torn-write"
            }
            Corrupt::Truncate(n) => {
                a.data.truncate(*n as usize);
                "short-write"
            }
            Corrupt::Extend(n) => {
                let l = a.data.len() + *n as usize;
                a.data.resize(l, 0);
                "extended"
            }
            Corrupt::Byte(i, v) => {
                if let Some(b) = a.data.get_mut(*i as usize) {
                    *b = *v;
                }
                "flipped-byte"
            }
            Corrupt::Owner(n) => {
                a.owner = match n {
                    0 => solana_program::system_program::id(),
                    1 => spl_token::id(),
                    2 => token_bonding_curve::ID,
                    3 => fake_token_id(),
                    _ => evil_prog_id(),
                };
                "wrong-owner"
            }
            Corrupt::Zero => {
                for b in a.data.iter_mut() {
                    *b = 0;
                }
                "lost-write"
            }
            Corrupt::Swap(_) => {
                let o = other.unwrap();
                a.data = o.data;
                "misdirected-write"
            }
        };
        self.shadow[aid as usize] = self.st.accts[aid as usize].clone();
        self.stats.inc(&format!("fault:{}", kind));
    }

    /// The node dies and rebuilds its state from the last checkpoint and its log.
    fn crash(&mut self) {
        if !self.log_ok || self.corrupt > 0 {
            return;
        }
        self.stats.inc("fault:node-crash");
        let mut l = self.ckpt.accts.clone();
        let mut fails = 0;
        for (tx, f, slot) in &self.log {
            set_clock(slot + 1000);
            let r = exec_tx(&self.names, &mut l, &lower(tx, &self.names), &tx.signers, *f);
            if !r.ok {
                fails += 1;
            }
        }
        self.stats.judged += 1;
        if !self.log.is_empty() {
            self.stats.nontrivial += 1;
        }
        if l != self.st.accts {
            let i = (0..l.len()).find(|i| l[*i] != self.st.accts[*i]).unwrap();
            self.bad(
                "C10",
                format!("replaying the log ({} transactions, {} failed on replay) from the last checkpoint does not rebuild the ledger: account {} differs", self.log.len(), fails, self.names.names[i]),
            );
        }
        // the restarted node continues from what it rebuilt
        self.st.accts = l;
        self.shadow = self.st.accts.clone();
    }

    fn exec(&mut self, tx: &Tx, fault: Fault) {
        set_clock(self.slot);
        let nt0 = self.stats.nontrivial;
        let bixs = lower(tx, &self.names);
        let ghost = if tx.ixs.len() > 1 { Some((self.st.pools.clone(), self.st.bout.clone(), self.st.hist.clone(), self.st.finding.clone(), self.st.feeswaps.clone(), self.st.swaps.clone())) } else { None };
        let res = exec_tx(&self.names, &mut self.st.accts, &bixs, &tx.signers, fault);
        self.last_ok = res.ok;
        self.last_cpis = res.ixs.iter().map(|i| i.cpis.len() as u32).sum();
        self.last_syscalls = res.syscalls;
        self.last_verdict = None;
        let mut d = mix(self.digest ^ res.ok as u64);
        if let Some(e) = &res.err {
            d = hash_bytes(d, e.as_bytes());
        }
        if res.ixs.is_empty() {
            self.digest = d;
            self.stats.inc("tx:unsigned");
            return;
        }
        let fired = res.ixs.iter().any(|t| t.fault_fired);
        if fired {
            self.stats.inc(match fault {
                Fault::CpiFail(_) => "fault:token-call-failure",
                _ => "fault:execution-cut-off",
            });
        }
        if res.ok {
            for t in &res.ixs {
                for (_, a) in &t.post {
                    d = hash_bytes(d, &a.data);
                }
            }
        }
        self.digest = d;
        // C10: an independent replica executes the same transaction
        if self.on("C10") {
            self.replica(tx, &bixs, fault, &res);
        }
        let mut signers: Vec<Aid> = vec![];
        let mut writable: Vec<Aid> = vec![];
        for ix in &tx.ixs {
            for m in &ix.metas {
                if m.s {
                    signers.push(m.aid);
                }
                if m.w {
                    writable.push(m.aid);
                }
            }
        }
        let n_pools = self.st.pools.len();
        let first_pre: Vec<(Aid, Acct)> = {
            let mut v: Vec<(Aid, Acct)> = vec![];
            for t in &res.ixs {
                for (a, x) in &t.pre {
                    if find(&v, *a).is_none() {
                        v.push((*a, x.clone()));
                    }
                }
            }
            v
        };
        let mut op_pool = None;
        for (i, tr) in res.ixs.iter().enumerate() {
            let ix = &tx.ixs[i];
            let (v, named) = {
                let cx = JCtx {
                    names: &self.names,
                    pools: &self.st.pools,
                    tp: self.tp,
                    tbc: self.tbc,
                    signers: &signers,
                    writable: &writable,
                    production: self.production.clone(),
                };
                let v = judge(&cx, &mut self.shadow, ix);
                let named = if self.on("C25") && !tr.ok() && !tr.fault_fired { reasons(&cx, &mut self.shadow, ix, &v) } else { None };
                (v, named)
            };
            if let Some((codes, why)) = named {
                self.stats.judged += 1;
                self.stats.nontrivial += 1;
                self.stats.inc(&format!("named:{}", codes[0]));
                let e = tr.err.clone().unwrap_or_default();
                if !codes.iter().any(|c| e == format!("Custom({})", c)) {
                    let want: Vec<&str> = codes.iter().map(|c| ERRORS[*c as usize]).collect();
                    self.bad("C25", format!("{} was refused with {} although what is wrong is: {} ({})", ix.op.short(), e, why, want.join(" or ")));
                }
            }
            if let Verdict::Op(o) = &v {
                op_pool = Some(o.pool);
            }
            self.check_ix(tx, ix, &v, tr, &signers, &writable, fault, tx.ixs.len() == 1);
            if tr.ok() {
                for (a, x) in &tr.post {
                    self.shadow[*a as usize] = x.clone();
                }
                self.ghost(ix, &v, tr);
            }
            self.last_verdict = Some(v);
        }
        if !res.ok {
            if let Some((p, b, h, f, k, n)) = ghost {
                self.st.swaps = n;
                self.st.pools = p;
                self.st.bout = b;
                self.st.hist = h;
                self.st.finding = f;
                self.st.feeswaps = k;
            }
        }
        // the shadow follows the committed ledger
        for (a, x) in &first_pre {
            if !res.ok && self.st.accts[*a as usize] != *x {
                self.bad("C05", format!("failed transaction changed account {}", self.names.names[*a as usize]));
            }
            self.shadow[*a as usize] = self.st.accts[*a as usize].clone();
        }
        let _ = n_pools;
        if res.ok {
            self.log.push((tx.clone(), fault, self.slot));
            if self.corrupt == 0 {
                self.after(&first_pre);
            }
        }
        // C07: order of operations on different pools
        if self.on("C07") && self.corrupt == 0 && tx.ixs.len() == 1 && !fired {
            self.commute(tx, &bixs, op_pool, res.ok, first_pre);
        } else {
            self.prev = None;
        }
        self.stats.inc(if res.ok { "tx:ok" } else { "tx:failed" });
        self.state_mark(tx, res.ok, self.stats.nontrivial > nt0);
    }

    /// A coarse abstraction of where the system is, for the distinct-states measure: per touched
    /// pool its kind, the magnitudes of reserves, supply and parameters, which fees it has, and what
    /// has just been done with what outcome.
    fn state_mark(&mut self, tx: &Tx, ok: bool, decided: bool) {
        let mut h = 0x1234 ^ ok as u64;
        let lg = |x: u64| 64 - x.leading_zeros() as u64;
        for ix in &tx.ixs {
            h = hash_bytes(h, ix.op.short().as_bytes());
            if let Some(m) = ix.metas.first() {
                if let Some(c) = self.st.pools.iter().find(|c| c.swap == m.aid) {
                    h = mix(h ^ c.kind as u64 ^ (lg(self.bal(c.va)) << 8) ^ (lg(self.bal(c.vb)) << 16) ^ (lg(self.supply(c.pm)) << 24));
                    h = mix(h ^ (lg(c.p[0]) << 3) ^ (lg(c.p[1]) << 12) ^ ((c.fees[0] > 0) as u64) ^ ((c.fees[2] > 0) as u64 * 2) ^ ((c.fees[4] > 0) as u64 * 4));
                }
            }
        }
        if ok && self.stats.states.len() < 400_000 {
            self.stats.states.insert(h);
        }
        if decided && self.stats.distinct.len() < 400_000 {
            for ix in &tx.ixs {
                let a = match ix.op {
                    Op::Swap { amt, .. } | Op::SwapHost { amt, .. } | Op::DepOne { amt, .. } | Op::WdOne { amt, .. } => amt,
                    Op::DepAll { pt, .. } | Op::WdAll { pt, .. } => pt,
                    Op::InitDirect { kind, .. } => kind as u64,
                    _ => 0,
                };
                h = mix(h ^ (lg(a) << 40));
                if let Some(Verdict::Fail(why, _)) = &self.last_verdict {
                    h = hash_bytes(h, why.as_bytes());
                }
            }
            self.stats.distinct.insert(h);
        }
    }

    /// What a client learns from asking a node to simulate its transaction.
    pub fn simulate(&mut self, tx: &Tx) -> Option<Quote> {
        if tx.ixs.len() != 1 || !tx.ixs[0].op.is_pool_op() {
            return None;
        }
        let r = exec_tx(&self.names, &mut self.shadow, &lower(tx, &self.names), &tx.signers, Fault::None);
        for t in r.ixs.iter().rev() {
            for (a, x) in &t.pre {
                self.shadow[*a as usize] = x.clone();
            }
        }
        if !r.ok {
            return None;
        }
        let t = &r.ixs[0];
        let m = &tx.ixs[0].metas;
        let d = |i: usize| -> u64 {
            let a = m[i].aid;
            (self.amount_of(&t.post, a) - self.amount_of(&t.pre, a)).unsigned_abs().min(u64::MAX as u128) as u64
        };
        Some(match tx.ixs[0].op {
            Op::Swap { .. } | Op::SwapHost { .. } => Quote { out: d(6), ..Default::default() },
            Op::DepAll { .. } => Quote { a: d(5), b: d(6), ..Default::default() },
            Op::WdAll { .. } => Quote { a: d(5), b: d(6), ..Default::default() },
            Op::DepOne { .. } => Quote { lp: d(7), ..Default::default() },
            _ => Quote { lp: d(4), ..Default::default() },
        })
    }

    fn replica(&mut self, tx: &Tx, bixs: &[BankIx], fault: Fault, res: &TxResult) {
        set_clock(self.slot + 77_777);
        let r2 = exec_tx(&self.names, &mut self.shadow, bixs, &tx.signers, fault);
        set_clock(self.slot);
        self.stats.judged += 1;
        if res.ok {
            self.stats.nontrivial += 1;
        }
        let mut diff = r2.ok != res.ok || r2.err != res.err || r2.ixs.len() != res.ixs.len();
        for (x, y) in r2.ixs.iter().zip(res.ixs.iter()) {
            if x.post != y.post || x.cpis != y.cpis {
                diff = true;
            }
        }
        for t in &res.ixs {
            for (a, _) in &t.pre {
                if r2.ok && self.shadow[*a as usize] != self.st.accts[*a as usize] {
                    diff = true;
                }
            }
        }
        if diff {
            self.bad("C10", format!("a replica executing {} from the same ledger disagrees (ok={} / ok={})", tx.ixs[0].op.short(), res.ok, r2.ok));
        }
        // undo
        for t in res.ixs.iter().rev() {
            for (a, x) in &t.pre {
                self.shadow[*a as usize] = x.clone();
            }
        }
        if let Some(t) = res.ixs.first() {
            for (a, x) in &t.pre {
                self.shadow[*a as usize] = x.clone();
            }
        }
    }

    fn commute(&mut self, tx: &Tx, bixs: &[BankIx], pool: Option<usize>, ok: bool, pre: Vec<(Aid, Acct)>) {
        let prev = self.prev.take();
        if let (Some(p), Some(pi)) = (&prev, pool) {
            if p.pool != pi {
                let pool_accts: Vec<Aid> = self.st.pools.iter().flat_map(|c| [c.swap, c.va, c.vb, c.pm, c.fee]).collect();
                let pw: Vec<Aid> = p.tx.ixs[0].metas.iter().filter(|m| m.w).map(|m| m.aid).collect();
                let cm: Vec<Aid> = tx.ixs[0].metas.iter().map(|m| m.aid).collect();
                let shared: Vec<Aid> = pw.iter().filter(|a| cm.contains(a)).copied().collect();
                if !shared.iter().any(|a| pool_accts.contains(a)) {
                    // run the two in the other order, on the ledger before both
                    for (a, x) in &pre {
                        self.shadow[*a as usize] = x.clone();
                    }
                    for (a, x) in &p.pre {
                        self.shadow[*a as usize] = x.clone();
                    }
                    let r1 = exec_tx(&self.names, &mut self.shadow, bixs, &tx.signers, Fault::None);
                    let r2 = exec_tx(&self.names, &mut self.shadow, &lower(&p.tx, &self.names), &p.tx.signers, Fault::None);
                    self.stats.judged += 1;
                    self.stats.nontrivial += 1;
                    self.stats.inc("probe:commute");
                    let mut msg = None;
                    if r1.ok && r2.ok && ok {
                        for (a, _) in pre.iter().chain(p.pre.iter()) {
                            // delegated amounts of a shared account may be used up in either order
                            if self.shadow[*a as usize] != self.st.accts[*a as usize] {
                                msg = Some(format!("account {} ends differently", self.names.names[*a as usize]));
                            }
                        }
                    } else if shared.is_empty() && (r1.ok != ok || !r2.ok) {
                        msg = Some(format!("outcomes differ (second alone ok={}, after the other ok={}; first afterwards ok={})", r1.ok, ok, r2.ok));
                    }
                    if let Some(m) = msg {
                        self.bad("C07", format!("{} and {} on different pools do not commute: {}", p.tx.ixs[0].op.short(), tx.ixs[0].op.short(), m));
                    }
                    for (a, _) in pre.iter().chain(p.pre.iter()) {
                        self.shadow[*a as usize] = self.st.accts[*a as usize].clone();
                    }
                }
            }
        }
        if let (Some(pi), true) = (pool, ok) {
            self.prev = Some(Prev { tx: tx.clone(), pool: pi, pre });
        }
    }

    /// Ghost state after a successful instruction.
    fn ghost(&mut self, ix: &Ix, v: &Verdict, tr: &IxTrace) {
        if let Verdict::Init(i) = v {
            let mut cfg = i.cfg.clone();
            // whatever bytes creation left there (check_init judges them); later operations are judged
            // by what the creator asked for
            if let Some(x) = find(&tr.post, cfg.swap) {
                cfg.record = x.data.clone();
                cfg.lamports = x.lamports;
            }
            self.st.pools.push(cfg);
            self.st.bout.push(0);
            self.st.hist.push(vec![]);
            self.st.finding.push(0);
            self.st.feeswaps.push(0);
            self.st.swaps.push(0);
            return;
        }
        for i in 0..self.st.pools.len() {
            // nobody holds a share any more: whatever comes next starts afresh
            if find(&tr.post, self.st.pools[i].pm).map(tok::supply) == Some(0) {
                self.st.hist[i].clear();
            }
        }
        if !matches!(ix.op, Op::Swap { .. } | Op::SwapHost { .. }) || ix.prog != self.tbc {
            return;
        }
        let i = match v {
            Verdict::Op(o) => o.pool,
            _ => match ix.metas.first().and_then(|m| self.st.pools.iter().position(|c| c.swap == m.aid)) {
                Some(i) => i,
                None => return,
            },
        };
        let c = &self.st.pools[i];
        self.st.swaps[i] += 1;
        if c.kind == LINEAR {
            if let (Some(x), Some(y)) = (find(&tr.pre, c.vb), find(&tr.post, c.vb)) {
                self.st.bout[i] += tok::amount(x) as i128 - tok::amount(y) as i128;
            }
        }
        if let (Some(x), Some(y)) = (find(&tr.pre, c.pm).map(tok::supply), find(&tr.post, c.pm).map(tok::supply)) {
            if y > x && x > 0 {
                self.st.feeswaps[i] = self.st.feeswaps[i].saturating_add((1 << 60) / x + 1);
            }
        }
    }

    /// Invariants after a committed transaction.
    fn after(&mut self, touched: &[(Aid, Acct)]) {
        for i in 0..self.st.pools.len() {
            let c = self.st.pools[i].clone();
            if !touched.iter().any(|t| [c.swap, c.va, c.vb, c.pm].contains(&t.0)) {
                continue;
            }
            if self.on("C09") {
                self.stats.judged += 1;
                self.custody(&c);
            }
            if c.kind == LINEAR && self.on("C01") {
                self.stats.judged += 1;
                if self.st.bout[i] > 0 {
                    self.stats.nontrivial += 1;
                }
                if !linear_covered(&c.p, self.bal(c.va), self.st.bout[i], self.st.swaps[i]) {
                    self.bad(
                        "C01",
                        format!(
                            "pool {}: {} bonded tokens are out, the collateral of {} does not cover the area under the price line up to there (slope {}/{}, start {}/{})",
                            self.names.names[c.swap as usize],
                            self.st.bout[i],
                            self.bal(c.va),
                            c.p[0],
                            c.p[1],
                            c.p[2],
                            c.p[3]
                        ),
                    );
                }
            }
            if c.kind != STABLE && c.kind != LINEAR && self.on("C21") {
                self.lunch(i, &c);
            }
        }
    }

    fn lunch(&mut self, i: usize, c: &Cfg) {
        let finding = std::mem::take(&mut self.st.finding[i]);
        let cur = (self.bal(c.va), self.bal(c.vb), self.supply(c.pm), self.st.feeswaps[i]);
        if cur.2 == 0 {
            self.st.hist[i].clear();
            return;
        }
        self.stats.judged += 1;
        if finding == COARSE {
            self.st.hist[i].clear();
            return;
        }
        let approx = matches!(c.kind, CP | OFFSET) && (cur.2 > 1 << 34 || cur.0 > 1 << 45 || cur.1 > 1 << 45 || c.kind == OFFSET && c.p[0] > 1 << 45);
        if !approx {
            let h = &self.st.hist[i];
            if h.len() > 1 {
                self.stats.nontrivial += 1;
            }
            let k = cur.3;
            let gain = |e: &(u64, u64, u64, u64), part: u64| {
                let less = if part == 0 { 0 } else { ((cur.2 as u128 * part as u128) >> 60) + 1 };
                let s = e.2 as u128 + less;
                cur.0 <= e.0 && cur.1 <= e.1 && cur.2 as u128 >= s && (cur.0, cur.1, cur.2 as u128) != (e.0, e.1, s)
            };
            // finding 1: each owner fee is rounded up to a whole pool token
            let f = h.iter().find(|e| gain(e, k - e.3)).map(|e| (*e, 0)).or_else(|| h.iter().find(|e| gain(e, 0)).map(|e| (*e, 1)));
            if let Some((e, kf)) = f {
                let finding = if finding > 0 { finding } else { kf };
                let m = format!(
                    "pool {} ({}): all users together hold at least as much of everything as when the pool held A={} B={} with {} pool tokens, and more of something: it now holds A={} B={} with {}",
                    self.names.names[c.swap as usize],
                    kind_name(c.kind),
                    e.0,
                    e.1,
                    e.2,
                    cur.0,
                    cur.1,
                    cur.2
                );
                if finding > 0 {
                    self.known("C21", finding, m);
                } else {
                    self.bad("C21", m);
                }
            }
        }
        if finding > 0 {
            self.st.hist[i].clear();
        }
        let h = &mut self.st.hist[i];
        if h.len() > 600 {
            h.drain(..200);
        }
        if approx {
            h.clear();
        } else if h.last() != Some(&cur) {
            h.push(cur);
        }
    }

    fn custody(&mut self, c: &Cfg) {
        let nm = self.names.names[c.swap as usize].clone();
        let rec = &self.st.accts[c.swap as usize];
        if rec.data != c.record || rec.owner != token_bonding_curve::ID || rec.lamports < c.lamports {
            self.bad("C09", format!("the record of {} changed", nm));
            return;
        }
        let auth = self.names.keys[c.auth as usize];
        for (v, m) in [(c.va, c.ma), (c.vb, c.mb)] {
            match tok::acct(&self.st.accts[v as usize]) {
                Some(t) => {
                    if t.owner != auth || t.delegate.is_some() || t.close.is_some() || t.mint != self.names.keys[m as usize] {
                        self.bad("C09", format!("custody of vault {} changed", self.names.names[v as usize]));
                    }
                }
                None => self.bad("C09", format!("vault {} is gone", self.names.names[v as usize])),
            }
        }
        match tok::mint(&self.st.accts[c.pm as usize]) {
            Some(m) if m.auth == Some(auth) && m.freeze.is_none() => {}
            _ => self.bad("C09", format!("control of the pool token of {} changed", nm)),
        }
    }

    /// Runs a variant of the transaction on the ledger before it, undoing it afterwards.
    fn probe(&mut self, tx: &Tx, fault: Fault, pre: &[(Aid, Acct)]) -> TxResult {
        let r = exec_tx(&self.names, &mut self.shadow, &lower(tx, &self.names), &tx.signers, fault);
        for (a, x) in pre {
            self.shadow[*a as usize] = x.clone();
        }
        r
    }

    #[allow(clippy::too_many_arguments)]
    fn check_ix(&mut self, tx: &Tx, ix: &Ix, v: &Verdict, tr: &IxTrace, signers: &[Aid], writable: &[Aid], fault: Fault, single: bool) {
        let ok = tr.ok();
        if ix.op.is_tbc() && ix.prog == self.tbc {
            let k = format!("op:{}:{}", ix.op.short(), if ok { "ok" } else { "refused" });
            self.stats.inc(&k);
        }
        if ok && tr.fault_fired {
            self.bad("C05", format!("{} reports success although a token-program call failed or execution was cut off", ix.op.short()));
            return;
        }
        if ok && tr.cpi_failed() {
            self.bad("C05", format!("{} reports success although a token-program call failed", ix.op.short()));
            return;
        }
        if ix.prog != self.tbc || !ix.op.is_tbc() {
            return;
        }
        if self.on("C24") {
            self.stats.judged += 1;
            if !ok {
                self.stats.nontrivial += 1;
            }
        }
        if tr.panicked {
            self.bad("C24", format!("{} aborted the program instead of refusing", ix.op.short()));
        }
        if ok {
            self.monitor(ix, v, tr, signers);
        }
        match v {
            Verdict::Fail(why, props) => {
                for p in *props {
                    if self.on(p) {
                        self.stats.judged += 1;
                        self.stats.nontrivial += 1;
                    }
                    if ok {
                        self.bad(p, format!("{} succeeded although it must be refused: {}", ix.op.short(), why));
                    }
                }
                if ix.metas.first().map_or(false, |m| self.is_legacy(m.aid)) && self.on("C26") {
                    self.stats.judged += 1;
                    self.stats.nontrivial += 1;
                    if ok {
                        self.bad("C26", format!("{} on a pool of an earlier deployment succeeded although it must be refused: {}", ix.op.short(), why));
                    }
                }
                self.stats.inc(&format!("refuse:{}", props[0]));
            }
            Verdict::Skip => {
                self.stats.inc("verdict:skip");
            }
            Verdict::Init(i) => self.check_init(ix, i, tr),
            Verdict::Op(o) => {
                if single && fault == Fault::None && self.corrupt == 0 {
                    if self.on("C03") {
                        self.limits(tx, ix, o, tr);
                    }
                    if self.on("C05") && ok {
                        self.fail_each_call(tx, tr);
                    }
                }
                self.check_op(ix, o, tr, signers, writable);
            }
        }
    }

    /// Checks that hold for every successful instruction whatever it was.
    fn monitor(&mut self, ix: &Ix, v: &Verdict, tr: &IxTrace, signers: &[Aid]) {
        for c in &tr.cpis {
            if c.program != spl_token::id() {
                self.bad("C06", format!("{} called a program that is not the token program", ix.op.short()));
            }
        }
        // nobody's tokens leave without consent
        let pool = match v {
            Verdict::Op(o) => Some(o.pool),
            _ => ix.metas.first().and_then(|m| self.st.pools.iter().position(|c| c.swap == m.aid)),
        };
        let own_auth = pool.map(|p| self.names.keys[self.st.pools[p].auth as usize]);
        if self.on("C06") {
            self.stats.judged += 1;
        }
        let signed = |k: &solana_program::pubkey::Pubkey| self.names.by_key(k).map(|a| signers.contains(&a)).unwrap_or(false);
        let mut msgs: Vec<(&str, String)> = vec![];
        for (a, x) in &tr.pre {
            let y = find(&tr.post, *a).unwrap();
            if let Some(b) = tok::acct(x) {
                let after = tok::acct(y).map(|t| t.amount).unwrap_or(0);
                if after < b.amount && Some(b.owner) != own_auth {
                    let by_delegate = b.delegate.map(|d| signed(&d) && b.delegated >= b.amount - after).unwrap_or(false);
                    if !signed(&b.owner) && !by_delegate {
                        msgs.push(("C06", format!("{} took {} tokens from {} without its owner's consent", ix.op.short(), b.amount - after, self.names.names[*a as usize])));
                    }
                }
            }
            // other pools
            for (i, c) in self.st.pools.iter().enumerate() {
                if Some(i) == pool {
                    continue;
                }
                let n = &self.names.names[*a as usize];
                if *a == c.swap && x.data != y.data {
                    msgs.push(("C07", format!("{} changed the record {} of another pool", ix.op.short(), n)));
                }
                if (*a == c.va || *a == c.vb) && tok::amount(y) < tok::amount(x) {
                    msgs.push(("C07", format!("{} lowered the vault {} of another pool", ix.op.short(), n)));
                }
                if *a == c.pm && tok::supply(y) != tok::supply(x) {
                    msgs.push(("C07", format!("{} changed the pool-token supply {} of another pool", ix.op.short(), n)));
                }
            }
        }
        if self.on("C07") && self.st.pools.len() > 1 {
            self.stats.judged += 1;
        }
        for (p, m) in msgs {
            self.bad(p, m);
        }
        // per-mint conservation, whatever the verdict
        if self.corrupt == 0 && self.on("C04") {
            let mut sums: BTreeMap<[u8; 32], i128> = BTreeMap::new();
            for (list, sg) in [(&tr.pre, -1i128), (&tr.post, 1)] {
                for (a, x) in list.iter() {
                    if let Some(t) = tok::acct(x) {
                        *sums.entry(t.mint.to_bytes()).or_default() += sg * t.amount as i128;
                    }
                    if let Some(m) = tok::mint(x) {
                        *sums.entry(self.names.keys[*a as usize].to_bytes()).or_default() -= sg * m.supply as i128;
                    }
                }
            }
            self.stats.judged += 1;
            if sums.values().any(|s| *s != 0) {
                self.bad("C04", format!("{} created or destroyed tokens", ix.op.short()));
            }
        }
    }

    fn check_init(&mut self, ix: &Ix, i: &InitV, tr: &IxTrace) {
        let con = self.production.is_some() && is_public(&ix.op) || matches!(ix.op, Op::InitDirect { con: Some(_), .. });
        for p in ["C08", "C17", "C26"] {
            if self.on(p) && (p != "C17" || con) {
                self.stats.judged += 1;
                self.stats.nontrivial += 1;
            }
        }
        if !tr.ok() {
            if i.sure && !tr.fault_fired {
                let e = tr.err.clone().unwrap_or_default();
                self.bad("C08", format!("a valid creation request ({}) was refused: {}", kind_name(i.cfg.kind), e));
                self.bad("C26", format!("a valid creation request ({}) in the published encoding was refused: {}", kind_name(i.cfg.kind), e));
                if con {
                    self.bad("C17", format!("a valid creation request ({}) meeting the owner's terms was refused: {}", kind_name(i.cfg.kind), e));
                }
            }
            return;
        }
        let c = &i.cfg;
        let mut want: Vec<(Aid, Acct)> = tr.pre.clone();
        for (a, x) in want.iter_mut() {
            if *a == c.swap {
                x.data = c.record.clone();
                if let Some(y) = find(&tr.post, *a) {
                    if record_eq(&y.data, &c.record, c.kind) {
                        x.data = y.data.clone();
                    }
                }
            }
            if *a == c.pm {
                tok::set_supply(x, INITIAL_SUPPLY);
            }
            if *a == c.dest {
                let n = tok::amount(x);
                tok::set_amount(x, n + INITIAL_SUPPLY);
            }
        }
        for (a, x) in &want {
            let y = find(&tr.post, *a).unwrap();
            if x != y {
                self.bad("C08", format!("creation left account {} not as requested", self.names.names[*a as usize]));
                self.bad("C26", format!("creation left account {} not as the published formats demand", self.names.names[*a as usize]));
                if *a != c.swap {
                    self.bad("C04", format!("creation moved tokens wrongly: account {}", self.names.names[*a as usize]));
                }
            }
        }
    }

    fn amount_of(&self, list: &[(Aid, Acct)], a: Aid) -> i128 {
        find(list, a).map(tok::amount).unwrap_or(0) as i128
    }

    /// What a successful operation exchanged, seen from the pool's side.
    fn observed(&self, ix: &Ix, o: &OpV, tr: &IxTrace) -> Option<Amts> {
        let c = &self.st.pools[o.pool];
        let d = |a: Aid| self.amount_of(&tr.post, a) - self.amount_of(&tr.pre, a);
        let s = find(&tr.post, c.pm).map(tok::supply).unwrap_or(0) as i128 - find(&tr.pre, c.pm).map(tok::supply).unwrap_or(0) as i128;
        let (va, vb) = (d(c.va), d(c.vb));
        let (a, b, k, f) = match o.req {
            Req::Swap { a2b, .. } => {
                let (x, y) = if a2b { (va, -vb) } else { (vb, -va) };
                let f = match o.host {
                    Some(h) if s > 0 && h != c.fee && h != ix.metas[3].aid && h != ix.metas[6].aid => d(h),
                    Some(_) => {
                        if s > 0 {
                            host_fee(&c.fees, s as u128) as i128
                        } else {
                            0
                        }
                    }
                    None => 0,
                };
                (x, y, s, f)
            }
            Req::DepAll { .. } => (va, vb, s, 0),
            Req::WdAll { from_fee, .. } => (-va, -vb, -s, if from_fee { 0 } else { d(c.fee) }),
            Req::DepOne { a2b, .. } => (if a2b { va } else { vb }, 0, s, 0),
            Req::WdOne { a2b, from_fee, .. } => (-(if a2b { va } else { vb }), 0, -s, if from_fee { 0 } else { d(c.fee) }),
        };
        if a < 0 || b < 0 || k < 0 || f < 0 {
            return None;
        }
        Some(Amts { a: a as u128, b: b as u128, c: k as u128, f: f as u128 })
    }

    fn check_op(&mut self, ix: &Ix, o: &OpV, tr: &IxTrace, signers: &[Aid], writable: &[Aid]) {
        let ok = tr.ok();
        let c = self.st.pools[o.pool].clone();
        let p = op_prop(&ix.op, c.kind);
        let legacy = self.is_legacy(c.swap);
        if self.on("C26") && (legacy || o.must_succeed) {
            self.stats.judged += 1;
            if legacy && ok {
                self.stats.nontrivial += 1;
                self.stats.inc("probe:operation-on-legacy-pool");
            }
        }
        let what = |w: &World| format!("{} on {} pool {} ({:?})", ix.op.short(), kind_name(c.kind), w.names.names[c.swap as usize], o.req);
        if let Some((why, props)) = &o.must_fail {
            for q in *props {
                if self.on(q) {
                    self.stats.judged += 1;
                    self.stats.nontrivial += 1;
                }
            }
            if ok {
                let m = format!("{} succeeded although it must be refused: {}", what(self), why);
                for q in *props {
                    self.bad(q, m.clone());
                }
                if *props == ["C05"] {
                    // none of the exchanges the request could come to is affordable: it came to another one
                    self.bad(crate::judge::op_prop(&ix.op, c.kind), m.clone());
                }
                if legacy {
                    self.bad("C26", m);
                }
            }
            self.stats.inc(&format!("refuse:{}", props[0]));
        }
        if !ok {
            if o.must_succeed && !tr.fault_fired {
                let m = format!("{} was refused ({}) although nothing stands in its way; expected {:?}", what(self), tr.err.clone().unwrap_or_default(), o.alts);
                self.bad(p, m.clone());
                self.bad("C26", m.clone());
                if self.epi {
                    self.bad("C16", m.clone());
                }
                if c.fees.iter().any(|f| *f > 1) {
                    self.bad("C13", m);
                }
            }
            if self.epi && self.on("C16") && o.must_succeed {
                self.stats.judged += 1;
            }
            return;
        }
        if self.epi && self.on("C16") {
            self.stats.judged += 1;
            self.stats.nontrivial += 1;
        }
        let obs = match self.observed(ix, o, tr) {
            Some(x) => x,
            None => {
                let m = format!("{} moved tokens in the wrong direction", what(self));
                self.bad("C04", m.clone());
                self.bad(p, m);
                return;
            }
        };
        // C04: the whole ledger is as if exactly these amounts had been moved
        {
            let mut ids: Vec<Aid> = tr.pre.iter().map(|x| x.0).collect();
            ids.extend([c.va, c.vb, c.pm, c.fee]);
            ids.sort();
            ids.dedup();
            let saved: Vec<(Aid, Acct)> = ids.iter().map(|i| (*i, self.shadow[*i as usize].clone())).collect();
            let privs = tok::Privs { names: &self.names, signers, writable, pda: Some(self.names.keys[c.auth as usize]) };
            let mut msg = None;
            // movements of nothing may be carried out or left out
            for lenient in [true, false] {
                let r = moves(&mut self.shadow, &privs, ix, &c, &o.req, &obs, o.host, lenient);
                let m = match r {
                    Err(e) => Some(format!("{} exchanged amounts {:?}, which the accounts do not permit: {}", what(self), obs, e)),
                    Ok(()) => tr
                        .post
                        .iter()
                        .find(|(a, y)| self.shadow[*a as usize] != *y)
                        .map(|(a, _)| format!("{} exchanged {:?} but left account {} otherwise", what(self), obs, self.names.names[*a as usize])),
                };
                for (a, x) in &saved {
                    self.shadow[*a as usize] = x.clone();
                }
                match m {
                    None => {
                        msg = None;
                        break;
                    }
                    Some(m) if msg.is_none() => msg = Some(m),
                    _ => {}
                }
            }
            if self.on("C04") {
                self.stats.judged += 1;
                self.stats.nontrivial += 1;
            }
            if let Some(m) = msg {
                self.bad("C04", m);
            }
        }
        // fees
        let fee_bearing = c.fees[0] > 0 || c.fees[2] > 0 || c.fees[4] > 0 || c.fees[6] > 0;
        if self.on("C13") {
            self.stats.judged += 1;
            if fee_bearing {
                self.stats.nontrivial += 1;
            }
        }
        match o.req {
            Req::Swap { .. } => {
                if let Some(h) = o.host {
                    if h != c.fee {
                        let want = host_fee(&c.fees, obs.c);
                        if want != obs.f {
                            let m = format!("{}: of {} pool tokens issued for the owner fee the host got {}, not {}", what(self), obs.c, obs.f, want);
                            if legacy {
                                self.bad("C26", m.clone());
                            }
                            self.bad("C13", m);
                        }
                    }
                }
            }
            Req::WdAll { pt, from_fee } => {
                let want = if from_fee { 0 } else { withdraw_fee(&c.fees, pt as u128) };
                if want != obs.f || obs.c + obs.f != pt as u128 {
                    let m = format!("{}: {} pool tokens were burned and {} paid as withdrawal fee, not {}", what(self), obs.c, obs.f, want);
                    if legacy {
                        self.bad("C26", m.clone());
                    }
                    self.bad("C13", m);
                }
            }
            Req::WdOne { from_fee, .. } => {
                let want = if from_fee { 0 } else { withdraw_fee(&c.fees, obs.c) };
                if want != obs.f {
                    let m = format!("{}: {} pool tokens were burned and {} paid as withdrawal fee, not {}", what(self), obs.c, obs.f, want);
                    if legacy {
                        self.bad("C26", m.clone());
                    }
                    self.bad("C13", m);
                }
            }
            _ => {}
        }
        // amounts
        let mut known = 0u8;
        if let Some(alts) = &o.alts {
            if self.on(p) {
                self.stats.judged += 1;
                self.stats.nontrivial += 1;
            }
            let within = |r: R128, x: u128| r.0 <= x && x <= r.1;
            let fits = |x: &Alt| within(x.a, obs.a) && within(x.b, obs.b) && within(x.c, obs.c);
            let ab = alts.iter().any(|x| within(x.a, obs.a) && within(x.b, obs.b));
            let all = alts.iter().any(|x| x.known == 0 && fits(x));
            if !all {
                let m = format!("{} exchanged a={} b={} pool tokens={} but should exchange {:?} (reserves before: A={} B={}, supply {}; fees {:?}; curve {:?})", what(self), obs.a, obs.b, obs.c, alts, self.amount_of(&tr.pre, c.va), self.amount_of(&tr.pre, c.vb), find(&tr.pre, c.pm).map(tok::supply).unwrap_or(0), c.fees, c.p);
                known = alts.iter().find(|x| fits(x)).map(|x| x.known).unwrap_or(0);
                if legacy && known == 0 {
                    self.bad("C26", m.clone());
                }
                let rep = |w: &mut World, p: &str| if known > 0 { w.known(p, known, m.clone()) } else { w.bad(p, m.clone()) };
                match o.req {
                    Req::Swap { .. } => {
                        if !ab {
                            rep(self, p);
                        }
                        if !ab && fee_bearing || ab {
                            rep(self, "C13");
                        }
                    }
                    _ => {
                        rep(self, "C20");
                    }
                }
                let missing = |f: &dyn Fn(&Alt) -> R128, x: u128| known == 0 && x == 0 && alts.iter().all(|a| f(a).0 > 0);
                if missing(&|a| a.a, obs.a) || missing(&|a| a.b, obs.b) || missing(&|a| a.c, obs.c) {
                    self.bad("C05", format!("{}: a token movement did not take place", m));
                }
            }
            for x in alts {
                if !x.tag.is_empty() && within(x.a, obs.a) && within(x.b, obs.b) {
                    self.stats.inc(&format!("branch:{}", x.tag));
                }
            }
        }
        // never more than offered
        let over = match o.req {
            Req::Swap { amt, .. } => obs.a > amt as u128,
            Req::DepOne { amt, .. } | Req::WdOne { amt, .. } => obs.a != amt as u128,
            _ => false,
        };
        if over {
            let m = format!("{} took {}", what(self), obs.a);
            self.bad("C03", m.clone());
            self.bad(p, m);
        }
        if let (Req::WdAll { .. }, CP | STABLE | OFFSET) = (o.req, c.kind) {
            let s1 = find(&tr.post, c.pm).map(tok::supply).unwrap_or(0);
            let (a1, b1) = (self.amount_of(&tr.post, c.va), self.amount_of(&tr.post, c.vb));
            if s1 == 0 {
                self.stats.inc("state:last-holder-left");
                if a1 != 0 || b1 != 0 {
                    let m = format!("{}: the last pool token was redeemed but A={} B={} stay behind", what(self), a1, b1);
                    self.bad("C16", m);
                }
            }
        }
        if c.kind != LINEAR && self.on("C12") && self.corrupt == 0 {
            self.share_value(ix, o, &c, tr, known);
        }
        if known > 0 {
            self.st.finding[o.pool] = known;
        } else if o.alts.iter().flatten().any(|x| x.c.1 > x.c.0 + 1) {
            self.st.finding[o.pool] = COARSE;
        }
    }

    /// C12: value per pool token before and after.
    fn share_value(&mut self, ix: &Ix, o: &OpV, c: &Cfg, tr: &IxTrace, known: u8) {
        let g = |l: &[(Aid, Acct)]| -> (u64, u64, u64) { (self.amount_of(l, c.va) as u64, self.amount_of(l, c.vb) as u64, find(l, c.pm).map(tok::supply).unwrap_or(0)) };
        let (a0, b0, s0) = g(&tr.pre);
        let (a1, b1, s1) = g(&tr.post);
        if s0 == 0 || s1 == 0 {
            return;
        }
        self.stats.judged += 1;
        self.stats.nontrivial += 1;
        let single = matches!(o.req, Req::DepOne { .. } | Req::WdOne { .. });
        let fee_lp = matches!(o.req, Req::Swap { .. }) && c.fees[2] > 0;
        let swap = matches!(o.req, Req::Swap { .. });
        // `true`: lowered, when the supply afterwards counts as `s1 - less` and the reserves as
        // `more` larger
        let lowered: Box<dyn Fn(u64, (u64, u64)) -> bool> = if c.kind == STABLE {
            let lev = c.p[0].saturating_mul(2) as u128;
            // the curve is computed in whole units
            let u = if swap { 2 } else { 0 };
            let (x0, y0) = (a0 as u128, b0 as u128);
            if !stable_ok(lev, x0, y0) || !stable_ok(lev, a1 as u128 + u, b1 as u128 + u) {
                return;
            }
            let exact = !(single || swap);
            Box::new(move |less, more| {
                let (x1, y1) = (a1 as u128 + u + more.0 as u128, b1 as u128 + u + more.1 as u128);
                let err = |x: u128, y: u128| (stable_err(lev, x, y, stable_d(lev, x, y, true)).max(stable_err(lev, x, y, stable_d(lev, x, y, false))) + 2) << 16;
                let t = if single || fee_lp {
                    err(x0, y0) + err(x1, y1)
                } else if swap {
                    2 << 16
                } else {
                    1
                };
                let s1 = s1.saturating_sub(less) as u128;
                [false, true].iter().take(if exact { 1 } else { 2 }).all(|p| {
                    let (d0, d1) = (stable_d_fx(lev, x0, y0, *p), stable_d_fx(lev, x1, y1, *p));
                    w(d1 + t) * w(s0 as u128) < w(d0.saturating_sub(t)) * w(s1)
                })
            })
        } else {
            let v0 = match invariant(c.kind, &c.p, a0, b0) {
                Some(x) => x,
                _ => return,
            };
            // values in 2^-64 fixed point
            let fx = |v: (U512, bool)| if v.1 { isqrt512(v.0 << 128) } else { v.0 << 64 };
            let (kind, p) = (c.kind, c.p);
            let f0 = fx(v0);
            // the precision of the roots, in pool tokens
            let slack = move |f1: U512| {
                if kind == PRICE || !(single || fee_lp) {
                    0
                } else {
                    let den = if f1 < f0 && !f1.is_zero() { to_u128(w(1_000_000) * f0 / f1).min(600_000_000_000) } else { 1_000_000 };
                    1 + to_u128(w(s0.max(s1) as u128) * w(10 * 1_000_000 + 3 * den) / w(1_000_000_000_000_000_000))
                }
            };
            Box::new(move |less, more| {
                let f1 = match invariant(kind, &p, a1.saturating_add(more.0), b1.saturating_add(more.1)) {
                    Some(v) => fx(v),
                    None => return false,
                };
                (f1 + w(2)) * w(s0 as u128) < f0 * w((s1.saturating_sub(less) as u128).saturating_sub(slack(f1)))
            })
        };
        if lowered(0, (0, 0)) {
            // finding 1: the owner's fee is rounded up to a whole pool token
            let known = if known > 0 {
                known
            } else if fee_lp && s1 > s0 && !lowered(1, (0, 0)) {
                1
            } else if let Req::WdOne { amt, a2b, .. } = o.req {
                // finding 2: half the fee is taken off the amount paid for
                let hf = half_fee(&c.fees, amt as u128) as u64;
                if hf > 0 && !lowered(0, if a2b { (hf, 0) } else { (0, hf) }) {
                    2
                } else {
                    0
                }
            } else {
                0
            };
            let m = format!(
                "{} on {} pool {} lowered the value per pool token: A {} -> {}, B {} -> {}, supply {} -> {} (fees {:?}, curve {:?})",
                ix.op.short(),
                kind_name(c.kind),
                self.names.names[c.swap as usize],
                a0,
                a1,
                b0,
                b1,
                s0,
                s1,
                c.fees,
                c.p
            );
            if known > 0 {
                self.known("C12", known, m);
            } else {
                self.bad("C12", m);
            }
        }
    }

    /// C03: the same request without limits.
    fn limits(&mut self, tx: &Tx, ix: &Ix, o: &OpV, tr: &IxTrace) {
        let loose = match ix.op.unlimited() {
            Some(x) => x,
            None => return,
        };
        if loose == ix.op {
            return;
        }
        let mut tx2 = tx.clone();
        tx2.ixs[0].op = loose;
        let r = self.probe(&tx2, Fault::None, &tr.pre);
        self.stats.judged += 1;
        self.stats.inc("probe:no-limit");
        let ok = tr.ok();
        if !r.ok {
            if ok {
                let m = format!("{} succeeds with the limit {:?} but fails without one", ix.op.short(), ix.op);
                self.bad("C03", m);
            }
            return;
        }
        self.stats.nontrivial += 1;
        let t2 = &r.ixs[0];
        let x = match self.observed(ix, o, t2) {
            Some(x) => x,
            None => return,
        };
        let lp_spent = |w: &World| -> u128 { (w.amount_of(&t2.pre, ix.metas[4].aid) - w.amount_of(&t2.post, ix.metas[4].aid)).max(0) as u128 };
        let want = match ix.op {
            Op::Swap { min, .. } | Op::SwapHost { min, .. } => x.b >= min as u128,
            Op::DepAll { ma, mb, .. } => x.a <= ma as u128 && x.b <= mb as u128,
            Op::WdAll { ma, mb, .. } => x.a >= ma as u128 && x.b >= mb as u128,
            Op::DepOne { min, .. } => x.c >= min as u128,
            Op::WdOne { max, .. } => lp_spent(self) <= max as u128,
            _ => true,
        };
        if want != ok {
            let m = format!("{:?} would exchange {:?}: the limit is {}, yet it {}", ix.op, x, if want { "satisfied" } else { "violated" }, if ok { "succeeded" } else { "was refused" });
            self.bad("C03", m);
        } else if ok && t2.post != tr.post {
            let m = format!("the limit of {:?} changes what is exchanged", ix.op);
            self.bad("C03", m);
        }
    }

    /// C05: each token-program call of a successful operation, made to fail in turn.
    fn fail_each_call(&mut self, tx: &Tx, tr: &IxTrace) {
        for k in 0..tr.cpis.len() as u32 {
            let r = self.probe(tx, Fault::CpiFail(k), &tr.pre);
            self.stats.judged += 1;
            self.stats.nontrivial += 1;
            self.stats.inc("fault:token-call-failure");
            if r.ok {
                let m = format!("{} reports success although its token-program call {} failed", tx.ixs[0].op.short(), k + 1);
                self.bad("C05", m);
            }
        }
    }

}
