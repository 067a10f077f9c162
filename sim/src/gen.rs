//! Workload, client, network and fault generation. One seed decides everything.
use crate::bank::*;
use crate::big::*;
use crate::model::*;
use crate::pool::*;
use crate::prng::Rng;
use crate::tok;
use crate::types::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

/// What a run for one property emphasises. Percentages unless said otherwise.
#[derive(Clone, Debug)]
pub struct Prof {
    /// weights of CP, PRICE, STABLE, OFFSET, LINEAR
    pub kinds: [u32; 5],
    pub pools: (u64, u64),
    pub users: (u64, u64),
    pub steps: (u64, u64),
    /// swap, dep_all, wd_all, dep_one, wd_one, transfer, approve, burn, mint, freeze/close/setauth, init, raw
    pub w: [u32; 12],
    /// requests made Byzantine
    pub byz: u64,
    pub fault: u64,
    /// events per thousand steps
    pub fork: u64,
    pub crash: u64,
    pub corrupt: u64,
    /// how often the network misbehaves
    pub chaos: u64,
    /// requests with a limit at the quoted amount, one off, or with slippage
    pub limits: u64,
    pub fees: u64,
    /// genesis accounts prepared wrongly for a creation
    pub badgen: u64,
    pub con: u64,
    pub epi: bool,
    pub multi: u64,
    /// runs that drive the pool-token supply to zero and back
    pub drain: u64,
    pub bursts: u64,
    /// transactions that declare more accounts writable than needed
    pub lavish: u64,
    /// amounts, parameters and balances from the edges of the 64-bit range
    pub wild: u64,
    /// pools that an earlier deployment left on the ledger
    pub legacy: u64,
}

pub fn profile(prop: &str) -> Prof {
    let mut p = Prof {
        kinds: [3, 3, 3, 2, 4],
        pools: (1, 3),
        users: (2, 4),
        steps: (20, 70),
        w: [40, 10, 10, 8, 8, 5, 3, 2, 1, 2, 2, 1],
        byz: 3,
        fault: 4,
        fork: 15,
        crash: 10,
        corrupt: 4,
        chaos: 30,
        limits: 25,
        fees: 60,
        badgen: 0,
        con: 0,
        epi: false,
        multi: 5,
        drain: 15,
        bursts: 20,
        lavish: 6,
        wild: 5,
        legacy: 10,
    };
    match prop {
        "C01" => {
            p.kinds = [0, 0, 0, 0, 1];
            p.pools = (1, 2);
            p.steps = (40, 120);
            p.w = [85, 1, 1, 1, 1, 4, 2, 0, 0, 0, 0, 0];
            p.fees = 0;
            p.byz = 1;
            p.fault = 3;
            p.corrupt = 0;
            p.bursts = 40;
        }
        "C02" => {
            p.kinds = [0, 0, 0, 0, 1];
            p.pools = (1, 1);
            p.w = [90, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0, 0];
            p.byz = 1;
            p.fault = 2;
            p.corrupt = 0;
        }
        "C03" => {
            p.limits = 85;
            p.chaos = 60;
            p.corrupt = 0;
            p.byz = 1;
        }
        "C04" => {
            p.w = [40, 12, 12, 10, 10, 8, 4, 3, 2, 2, 2, 0];
            p.byz = 5;
            p.corrupt = 0;
        }
        "C05" => {
            p.fault = 30;
            p.w = [30, 12, 12, 10, 10, 6, 8, 3, 1, 10, 2, 0];
            p.corrupt = 0;
        }
        "C06" => {
            p.byz = 60;
            p.pools = (2, 3);
            p.w = [35, 14, 14, 14, 14, 2, 6, 1, 0, 1, 1, 1];
            p.corrupt = 2;
        }
        "C07" => {
            p.legacy = 30;
            p.pools = (2, 4);
            p.byz = 15;
            p.corrupt = 0;
            p.steps = (30, 90);
        }
        "C08" => {
            p.pools = (3, 7);
            p.badgen = 60;
            p.steps = (6, 25);
            p.w = [6, 2, 2, 2, 2, 2, 0, 1, 0, 1, 80, 1];
            p.byz = 15;
            p.fees = 70;
        }
        "C09" => {
            p.w = [25, 6, 8, 5, 5, 4, 4, 10, 1, 14, 25, 1];
            p.byz = 12;
            p.drain = 60;
            p.lavish = 30;
            p.corrupt = 0;
            p.steps = (30, 90);
        }
        "C10" => {
            p.fork = 90;
            p.crash = 90;
            p.fault = 8;
            p.corrupt = 0;
        }
        "C11" => {
            p.corrupt = 130;
            p.byz = 10;
            p.w = [35, 12, 12, 10, 10, 2, 1, 1, 0, 2, 6, 12];
        }
        "C12" => {
            p.kinds = [3, 3, 3, 3, 0];
            p.pools = (1, 2);
            p.w = [40, 12, 12, 14, 14, 2, 0, 2, 0, 0, 0, 0];
            p.fees = 75;
            p.corrupt = 0;
            p.byz = 1;
        }
        "C13" => {
            p.fees = 100;
            p.w = [50, 2, 16, 8, 16, 1, 1, 1, 0, 0, 0, 0];
            p.kinds = [4, 4, 2, 3, 1];
            p.corrupt = 0;
            p.byz = 1;
        }
        "C14" => {
            p.kinds = [0, 1, 0, 0, 0];
            p.pools = (1, 1);
            p.w = [80, 3, 3, 2, 2, 3, 0, 0, 0, 0, 0, 0];
            p.corrupt = 0;
            p.byz = 1;
        }
        "C15" => {
            p.kinds = [1, 1, 1, 6, 6];
            p.w = [20, 14, 14, 14, 14, 4, 1, 14, 0, 1, 1, 0];
            p.drain = 70;
            p.byz = 6;
        }
        "C16" => {
            p.epi = true;
            p.steps = (10, 60);
            p.corrupt = 2;
            p.byz = 4;
            p.w[9] = 6;
        }
        "C17" => {
            p.pools = (3, 7);
            p.con = 75;
            p.steps = (6, 20);
            p.w = [4, 1, 1, 1, 1, 1, 0, 0, 0, 0, 90, 0];
            p.byz = 3;
            p.kinds = [4, 5, 2, 2, 2];
            p.fees = 90;
        }
        "C18" => {
            p.kinds = [1, 0, 0, 1, 0];
            p.pools = (1, 1);
            p.w = [80, 3, 3, 2, 2, 3, 0, 0, 0, 0, 0, 0];
            p.corrupt = 0;
            p.byz = 1;
        }
        "C19" => {
            p.kinds = [0, 0, 1, 0, 0];
            p.pools = (1, 1);
            p.w = [80, 3, 3, 3, 3, 3, 0, 0, 0, 0, 0, 0];
            p.corrupt = 0;
            p.byz = 1;
        }
        "C20" => {
            p.kinds = [3, 3, 3, 2, 0];
            p.pools = (1, 2);
            p.w = [16, 18, 18, 18, 18, 3, 1, 4, 0, 0, 0, 0];
            p.drain = 40;
            p.corrupt = 0;
            p.byz = 1;
        }
        "C21" => {
            p.kinds = [4, 4, 0, 3, 4];
            p.pools = (1, 1);
            p.steps = (60, 160);
            p.w = [45, 12, 12, 14, 14, 3, 0, 2, 0, 0, 0, 0];
            p.corrupt = 0;
            p.byz = 1;
            p.fault = 2;
            p.bursts = 50;
            p.fees = 45;
        }
        "C24" => {
            p.kinds = [3, 4, 4, 4, 5];
            p.users = (2, 3);
            p.w = [45, 12, 12, 14, 14, 3, 1, 2, 0, 1, 2, 1];
            p.wild = 55;
            p.byz = 12;
            p.corrupt = 20;
            p.fault = 3;
            p.badgen = 6;
            p.limits = 15;
        }
        "C25" => {
            p.users = (2, 3);
            p.steps = (15, 50);
            p.w = [30, 12, 12, 14, 14, 3, 1, 1, 0, 1, 3, 0];
            p.byz = 45;
            p.badgen = 30;
            p.con = 25;
            p.limits = 40;
            p.corrupt = 1;
            p.fault = 1;
        }
        "C26" => {
            p.legacy = 70;
            p.users = (2, 4);
            p.steps = (20, 60);
            p.w = [30, 12, 12, 14, 14, 5, 3, 2, 1, 2, 4, 1];
            p.byz = 10;
            p.wild = 10;
            p.badgen = 2;
            p.limits = 15;
            p.corrupt = 1;
        }
        _ => {}
    }
    p
}

pub const OWNER_KEY: [u8; 32] = [0x77; 32];
pub const PRODUCTION_FEES: [u64; 8] = [0, 10000, 5, 10000, 0, 0, 20, 100];

#[derive(Clone, Debug)]
pub struct User {
    pub key: Aid,
    /// token accounts by mint
    pub tok: Vec<Vec<Aid>>,
    /// pool-token accounts by plan
    pub lp: Vec<Vec<Aid>>,
}

#[derive(Clone, Debug)]
struct PlanX {
    plan: Plan,
    kind: u8,
    p: [u64; 4],
    fees: [u64; 8],
    ma: usize,
    mb: usize,
    tried: bool,
    legacy: bool,
    /// accounts of token A, token B and the pool token that belong to the pool authority without being vaults
    stray: Vec<Aid>,
}

struct Msg {
    at: u64,
    seq: u64,
    tx: Tx,
    fault: Fault,
    note: String,
    expires: u64,
}

pub struct Gen {
    pub r: Rng,
    pub pf: Prof,
    pub w: World,
    pub trace: Vec<Event>,
    users: Vec<User>,
    plans: Vec<PlanX>,
    bank: Aid,
    mints: Vec<Aid>,
    tp: Aid,
    tbc: Aid,
    evil: Aid,
    fake: Aid,
    forged: Option<Cfg>,
    queue: Vec<Msg>,
    seq: u64,
    now: u64,
    last_amt: u64,
    scale: u64,
    stop_on_violation: bool,
}

struct Build {
    names: Names,
    accts: Vec<Acct>,
}
impl Build {
    fn add(&mut self, name: &str, key: Pubkey, a: Acct) -> Aid {
        self.names.add(name, key);
        self.accts.push(a);
        (self.accts.len() - 1) as Aid
    }
    fn key(&self, a: Aid) -> Pubkey {
        self.names.keys[a as usize]
    }
}

fn rkey(r: &mut Rng) -> Pubkey {
    let mut k = [0u8; 32];
    for c in k.chunks_mut(8) {
        c.copy_from_slice(&r.u64().to_le_bytes());
    }
    Pubkey::new_from_array(k)
}
fn system(lamports: u64) -> Acct {
    Acct { lamports, owner: solana_program::system_program::id(), exec: false, data: vec![] }
}
fn program() -> Acct {
    Acct { lamports: 1, owner: solana_program::bpf_loader::id(), exec: true, data: vec![] }
}

/// a rational close to x (given as num/den in u128), as 64-bit numerator and denominator
fn ratio(r: &mut Rng, num: u128, den: u128) -> (u64, u64) {
    let (num, den) = (num.max(1), den.max(1));
    if num >= den {
        let q = (num / den).max(1);
        let d = r.log_range(1, 1_000_000).min((u64::MAX as u128 / q).max(1) as u64);
        let n = (to_u128(w(num) * w(d as u128) / w(den))).clamp(1, u64::MAX as u128) as u64;
        (n, d)
    } else {
        let q = (den / num).max(1);
        let n = r.log_range(1, 1_000_000).min((u64::MAX as u128 / q).max(1) as u64);
        let d = (to_u128(w(den) * w(n as u128) / w(num))).clamp(1, u64::MAX as u128) as u64;
        (n, d)
    }
}

/// a number from the edges of the 64-bit range
fn edge(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(4),
        1 => u64::MAX - r.below(4),
        2 | 3 => (1u64 << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1),
        4 => r.range(0, u64::MAX),
        _ => r.log_range(1, u64::MAX),
    }
}

fn rand_fees(r: &mut Rng, kind: u8, on: bool) -> [u64; 8] {
    let mut f = [0u64; 8];
    if kind == LINEAR || !on {
        // unset or zero
        if r.pct(50) {
            for i in 0..4 {
                f[2 * i + 1] = r.log_range(1, 10_000);
            }
        }
        return f;
    }
    match r.below(10) {
        0..=2 => [25, 10000, 5, 10000, 1, 1000, 20, 100],
        3 => PRODUCTION_FEES,
        4..=7 => {
            for i in 0..4 {
                if r.pct(75) {
                    let d = r.log_range(2, 1_000_000);
                    let n = if r.pct(80) { r.range(0, d / 10 + 1) } else { r.range(0, d - 1) };
                    f[2 * i] = n.min(d - 1);
                    f[2 * i + 1] = d;
                }
            }
            f
        }
        8 => {
            // tiny fractions of a huge denominator, or nearly everything
            for i in 0..4 {
                let d = r.log_range(2, u64::MAX);
                f[2 * i + 1] = d;
                f[2 * i] = match r.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => r.below(d / 2 + 1),
                    _ => d - 1,
                };
            }
            f
        }
        _ => {
            f = [0; 8];
            let i = r.idx(4);
            let d = r.log_range(2, 10_000);
            f[2 * i] = r.range(1, d - 1);
            f[2 * i + 1] = d;
            f
        }
    }
}

impl Gen {
    pub fn new(prop: &str, seed: u64) -> Gen {
        let pf = profile(prop);
        let mut r = Rng::new(seed);
        let mut b = Build { names: Names::default(), accts: vec![] };
        let tp = b.add("token-program", spl_token::id(), program());
        let tbc = b.add("program", token_bonding_curve_id(), program());
        let evil = b.add("evil-program", evil_prog_id(), program());
        let fake = b.add("fake-token-program", fake_token_id(), program());
        let bank = b.add("issuer", rkey(&mut r), system(1 << 40));

        // magnitude of this run
        let scale = match r.below(8) {
            0 => r.range(20, 3_000),
            1..=4 => r.log_range(1_000, 1 << 42),
            5 | 6 => r.log_range(1 << 36, 1 << 58),
            _ => r.log_range(1 << 56, 1 << 62),
        };
        let n_mints = r.range(2, 4) as usize;
        let n_users = r.range(pf.users.0, pf.users.1) as usize + 1;
        let n_pools = r.range(pf.pools.0, pf.pools.1) as usize;
        let freezable = r.pct(40);
        let mut mints = vec![];
        // one of the traded tokens may be the chain's own coin, wrapped
        let native = r.pct(15);
        for i in 0..n_mints {
            let mut k = rkey(&mut r);
            let bk = b.key(bank);
            let mut m = tok::new_mint(Some(&bk), 0, if freezable { Some(&bk) } else { None });
            if native && i == 0 {
                k = spl_token::native_mint::id();
                m = tok::new_mint(None, 0, None);
            }
            mints.push(b.add(&format!("M{}", i), k, m));
        }
        let mut users: Vec<User> = vec![];
        for u in 0..n_users {
            let key = if u == 0 { Pubkey::new_from_array(OWNER_KEY) } else { rkey(&mut r) };
            let nm = if u == 0 { "owner".to_string() } else { format!("user{}", u) };
            let k = b.add(&nm, key, system(1 << 32));
            users.push(User { key: k, tok: vec![vec![]; n_mints], lp: vec![] });
        }
        // budgets: everything of one mint fits 64 bits
        let mut issued = vec![0u64; n_mints];
        if native {
            issued[0] = 1 << 40; // room for rent
        }
        let give = |issued: &mut Vec<u64>, m: usize, x: u64| -> u64 {
            let x = x.min(u64::MAX - issued[m]);
            issued[m] += x;
            x
        };
        let mut plans: Vec<PlanX> = vec![];
        let rec_len = REC_LEN;
        for i in 0..n_pools {
            let kind = [CP, PRICE, STABLE, OFFSET, LINEAR][r.weighted(&pf.kinds)];
            // a pool may trade the pool tokens of an older one
            let ma = r.idx(mints.len());
            let mut mb = r.idx(mints.len() - 1);
            if mb >= ma {
                mb += 1;
            }
            let sk = rkey(&mut r);
            let (ak, bump) = authority(&sk);
            let mut legacy = pf.legacy > 0 && r.below(100) < pf.legacy;
            let swap = b.add(&format!("{}{}", if legacy { LEGACY } else { "pool" }, i), sk, Acct { lamports: 3_000_000, owner: token_bonding_curve_id(), exec: false, data: vec![0; rec_len] });
            let auth = b.add(&format!("pool{}.authority", i), ak, system(0));
            // balances and parameters
            let skew = r.pct(60);
            let rs = |r: &mut Rng| -> u64 {
                if skew {
                    r.log_range(1, scale)
                } else {
                    r.range(scale / 2 + 1, scale)
                }
            };
            let (mut a, mut bb) = (rs(&mut r), rs(&mut r));
            let mut p = [0u64; 4];
            match kind {
                PRICE => {
                    p[0] = match r.below(6) {
                        0 => 1,
                        1 => r.range(2, 20),
                        2..=4 => r.log_range(1, scale.max(2)),
                        _ => r.log_range(1, u64::MAX),
                    };
                    if r.pct(70) {
                        bb = bb.min((scale as u128 * 4 / p[0] as u128).max(3) as u64);
                    }
                    if r.pct(15) {
                        bb = 0;
                    }
                }
                STABLE => {
                    p[0] = match r.below(8) {
                        0 => r.range(1, 5),
                        1 => r.log_range(1, u64::MAX / 2),
                        2 => r.log_range(1, 1_000_000),
                        _ => r.range(1, 1_000),
                    };
                    if r.pct(70) {
                        bb = r.range(a / 3 + 1, (a as u128 * 3).min(u64::MAX as u128 / 4) as u64);
                    }
                }
                OFFSET => {
                    p[0] = match r.below(4) {
                        0 => r.range(1, 20),
                        1 => r.log_range(1, u64::MAX),
                        _ => r.log_range(1, scale.max(2)),
                    };
                    if r.pct(30) {
                        bb = 0;
                    }
                    if r.pct(5) {
                        // reserves whose product does not fit 128 bits
                        p[0] = u64::MAX - r.log_range(0, u64::MAX / 2);
                        a = u64::MAX - r.log_range(1, u64::MAX / 3);
                        bb = u64::MAX - r.log_range(1, u64::MAX / 2);
                    }
                }
                LINEAR => {
                    a = 0;
                    bb = bb.max(2);
                    if r.pct(80) {
                        // total price about a chosen size
                        let t = r.log_range(1, scale).max(2) as u128;
                        let share = r.range(0, 100) as u128; // of the price due to the slope
                        let (n, d) = ratio(&mut r, (t * share / 50).max(1), (bb as u128).saturating_mul(bb as u128));
                        p[0] = n;
                        p[1] = d;
                        if share < 100 && r.pct(85) {
                            let (n, d) = ratio(&mut r, t * (100 - share) / 100 + 1, bb as u128);
                            p[2] = n;
                            p[3] = d;
                        } else {
                            p[2] = 0;
                            p[3] = r.log_range(1, 1000);
                        }
                    } else {
                        for x in p.iter_mut() {
                            let hi = [100, 1 << 20, 1 << 40, u64::MAX][r.idx(4)];
                            *x = r.log_range(1, hi);
                        }
                        if r.pct(30) {
                            p[2] = 0;
                        }
                    }
                    // the smallest slope the published precision can express
                    if (p[0] as u128) * 1_000_000_000_000_000_000 < p[1] as u128 {
                        p[1] = (p[0] as u128 * 1_000_000_000_000_000_000).min(u64::MAX as u128) as u64;
                    }
                }
                _ => {}
            }
            if pf.wild > 0 && r.below(100) < pf.wild {
                for x in p.iter_mut() {
                    if *x != 0 && r.pct(60) {
                        *x = edge(&mut r);
                    }
                }
                if r.pct(50) {
                    a = if kind == LINEAR { 0 } else { edge(&mut r) };
                }
                if r.pct(50) {
                    bb = edge(&mut r);
                }
            }
            let a = give(&mut issued, ma, a);
            let bb = give(&mut issued, mb, bb);
            let mk = |b: &Build, m: usize| b.key(mints[m]);
            let (kma, kmb) = (mk(&b, ma), mk(&b, mb));
            let va = b.add(&format!("pool{}.vaultA", i), rkey(&mut r), tok::new_acct(&kma, &ak, a));
            let vb = b.add(&format!("pool{}.vaultB", i), rkey(&mut r), tok::new_acct(&kmb, &ak, bb));
            let pmk = rkey(&mut r);
            let pm = b.add(&format!("pool{}.mint", i), pmk, tok::new_mint(Some(&ak), 0, None));
            let fo = b.key(users[if r.pct(80) { 0 } else { r.idx(n_users) }].key);
            let fee = b.add(&format!("pool{}.fee", i), rkey(&mut r), tok::new_acct(&pmk, &fo, 0));
            for (u, us) in users.iter_mut().enumerate() {
                let uk = b.names.keys[us.key as usize];
                let mut v = vec![b.add(&format!("{}.lp{}", b.names.names[us.key as usize].clone(), i), rkey(&mut r), tok::new_acct(&pmk, &uk, 0))];
                if u == 0 {
                    v.push(fee);
                }
                us.lp.push(v);
            }
            let holder = r.idx(n_users);
            let dest = users[holder].lp[i][0];
            let fees_on = pf.fees > r.below(100);
            let fees = rand_fees(&mut r, kind, fees_on);
            legacy &= kind == CP || kind == LINEAR || p[0] != 0;
            legacy &= kind != LINEAR || p[0] != 0 && p[1] != 0 && p[3] != 0;
            if legacy {
                // as an earlier deployment wrote it, over whatever the account held before
                let rec = Rec { bump, token_program: spl_token::id(), va: b.key(va), vb: b.key(vb), pm: pmk, ma: kma, mb: kmb, fee: b.key(fee), fees, kind, p };
                let mut data = pack_record(&rec);
                if r.pct(50) {
                    for x in data[292 + 8 * n_params(kind)..].iter_mut() {
                        *x = r.below(256) as u8;
                    }
                }
                b.accts[swap as usize].data = data;
                if kind == LINEAR && r.pct(60) {
                    // bonded tokens are out already
                    let a = r.log_range(1, scale);
                    let a = give(&mut issued, ma, a);
                    tok::set_amount(&mut b.accts[va as usize], a);
                }
                let s = match r.below(4) {
                    0 | 1 => INITIAL_SUPPLY,
                    2 if pf.wild > 0 => edge(&mut r).max(1),
                    _ => r.log_range(1, 1 << 50),
                };
                // the pool tokens are spread over some holders
                let mut left = s;
                for (u, us) in users.iter().enumerate() {
                    let x = if u == holder || r.pct(50) { 0 } else { r.log_range(0, left / 2 + 1).min(left) };
                    let to = *r.pick(&us.lp[i]);
                    let n = tok::amount(&b.accts[to as usize]);
                    tok::set_amount(&mut b.accts[to as usize], n + x);
                    left -= x;
                }
                let n = tok::amount(&b.accts[dest as usize]);
                tok::set_amount(&mut b.accts[dest as usize], n + left);
                tok::set_supply(&mut b.accts[pm as usize], s);
                if i + 1 < n_pools && r.pct(40) {
                    mints.push(pm);
                    issued.push(s);
                    for us in users.iter_mut() {
                        let v = us.lp[i].clone();
                        us.tok.push(v);
                    }
                }
            }
            let mut stray = vec![];
            if r.pct(25) {
                for (k, n) in [(kma, "A"), (kmb, "B"), (pmk, "lp")] {
                    stray.push(b.add(&format!("pool{}.stray-{}", i, n), rkey(&mut r), tok::new_acct(&k, &ak, 0)));
                }
            }
            plans.push(PlanX { plan: Plan { swap, auth, va, vb, pm, fee, dest, ma: mints[ma], mb: mints[mb] }, kind, p, fees, ma, mb, tried: false, legacy, stray });
        }
        // a self-consistent pool record that belongs to another program
        let mut forged = None;
        if pf.byz > 2 && r.pct(40) {
            let mut x = plans[0].clone();
            x.p.iter_mut().for_each(|v| *v = (*v).max((x.kind != CP) as u64));
            let sk = rkey(&mut r);
            let (ak, bump) = authority(&sk);
            let (kma, kmb) = (b.key(x.plan.ma), b.key(x.plan.mb));
            let (vak, vbk, pmk, fk) = (rkey(&mut r), rkey(&mut r), rkey(&mut r), rkey(&mut r));
            let rec = Rec { bump, token_program: spl_token::id(), va: vak, vb: vbk, pm: pmk, ma: kma, mb: kmb, fee: fk, fees: x.fees, kind: x.kind, p: x.p };
            let data = pack_record(&rec);
            let swap = b.add("forged", sk, Acct { lamports: 3_000_000, owner: evil_prog_id(), exec: false, data: data.clone() });
            let auth = b.add("forged.authority", ak, system(0));
            let va_n = give(&mut issued, x.ma, scale / 3 + 1);
            let vb_n = give(&mut issued, x.mb, scale / 3 + 1);
            let va = b.add("forged.vaultA", vak, tok::new_acct(&kma, &ak, va_n));
            let vb = b.add("forged.vaultB", vbk, tok::new_acct(&kmb, &ak, vb_n));
            let pm = b.add("forged.mint", pmk, tok::new_mint(Some(&ak), INITIAL_SUPPLY, None));
            let ok = b.key(users[n_users - 1].key);
            let fee = b.add("forged.fee", fk, tok::new_acct(&pmk, &ok, 0));
            let lp = b.add("forged.lp", rkey(&mut r), tok::new_acct(&pmk, &ok, INITIAL_SUPPLY));
            forged = Some(Cfg { swap, auth, va, vb, pm, fee, dest: lp, ma: x.plan.ma, mb: x.plan.mb, kind: x.kind, p: x.p, fees: x.fees, record: data, lamports: 0 });
        }
        // users' funds
        let rich = [1u64, 3, 10, 100][r.idx(4)];
        for m in 0..mints.len() {
            let mk = b.key(mints[m]);
            for us in users.iter_mut() {
                let uk = b.names.keys[us.key as usize];
                let un = b.names.names[us.key as usize].clone();
                let n = 1 + r.pct(25) as usize;
                for k in 0..n {
                    let want = if r.pct(85) { r.log_range(1, scale.saturating_mul(rich)) } else { 0 };
                    let amt = give(&mut issued, m, want);
                    let nm = format!("{}.M{}{}", un, m, if k == 0 { "" } else { "b" });
                    us.tok[m].push(b.add(&nm, rkey(&mut r), tok::new_acct(&mk, &uk, amt)));
                }
            }
            if m > 0 || !native {
                tok::set_supply(&mut b.accts[mints[m] as usize], issued[m]);
            }
        }
        for x in &plans {
            if x.legacy {
                continue;
            }
            // creations go wrong in as many ways as there are requirements
            if pf.badgen > 0 && r.below(100) < pf.badgen {
                for _ in 0..1 + r.pct(15) as u64 {
                    bad_genesis(&mut r, &mut b, x, &users, &mints);
                }
            }
            if pf.badgen + pf.con > 0 && r.pct(25) {
                bystander_rights(&mut r, &mut b, x, &users);
            }
        }
        for a in b.accts.iter_mut() {
            if tok::mint(a).is_some() && r.pct(40) {
                a.data[44] = *r.pick(&[0u8, 1, 2, 6, 8, 12, 18, 255]);
            }
        }
        if native {
            let nk = spl_token::native_mint::id();
            for a in b.accts.iter_mut() {
                if tok::acct(a).map(|t| t.mint == nk).unwrap_or(false) {
                    tok::make_native(a);
                }
            }
        }
        let production = if cfg!(feature = "production") { Some(Con { fees: PRODUCTION_FEES, types: vec![PRICE, CP], owner: users[0].key }) } else { None };
        let g = Genesis { names: b.names, accts: b.accts, tp, tbc, production };
        let w = World::new(g, prop);
        Gen { r, pf, w, trace: vec![], users, plans, bank, mints, tp, tbc, evil, fake, forged, queue: vec![], seq: 0, now: 10, last_amt: 1, scale, stop_on_violation: true }
    }

    pub fn run(&mut self) {
        let steps = self.r.range(self.pf.steps.0, self.pf.steps.1);
        // creations first, mostly
        for i in 0..self.plans.len() {
            if self.r.pct(if self.plans[i].legacy { 5 } else { 90 }) {
                let ix = self.init_ix(i, self.pf.badgen == 0 && self.pf.con == 0);
                self.plans[i].tried = true;
                let fault = self.pick_fault();
                self.send(vec![ix], fault);
                self.deliver(true);
            }
            if self.done() {
                return;
            }
        }
        if self.r.below(100) < self.pf.drain {
            let at = self.r.below(steps);
            self.steps(at);
            self.drain_some();
            self.steps(steps - at);
        } else {
            self.steps(steps);
        }
        self.deliver_all();
        if self.pf.epi && !self.done() {
            self.epilogue();
        }
    }

    fn done(&self) -> bool {
        self.stop_on_violation && !self.w.viol.is_empty()
    }

    fn emit(&mut self, e: Event) {
        if self.done() {
            return;
        }
        self.w.apply(&e);
        self.trace.push(e);
    }

    fn steps(&mut self, n: u64) {
        let mut left = n;
        while left > 0 && !self.done() {
            left -= 1;
            self.now += if self.r.pct(3) { self.r.range(5, 200) } else { self.r.range(0, 2) };
            self.deliver(false);
            let k = self.r.below(1000);
            let (f, c, x) = (self.pf.fork, self.pf.crash, self.pf.corrupt);
            if k < f {
                self.fork();
            } else if k < f + c {
                if self.r.pct(50) {
                    self.emit(Event::Checkpoint);
                } else {
                    self.emit(Event::Crash);
                }
            } else if k < f + c + x {
                self.corruption();
            }
            self.client();
        }
    }

    // ------------------------------------------------------------------ network

    fn send(&mut self, ixs: Vec<Ix>, fault: Fault) {
        let tx = self.sign(ixs);
        self.send_tx(tx, fault);
    }
    /// The signatures the wallet of an honest client provides.
    fn sign(&mut self, mut ixs: Vec<Ix>) -> Tx {
        // wallets may declare more accounts writable than needed
        if self.r.below(100) < self.pf.lavish {
            self.w.stats.inc("fault:extra-writable");
            let all = self.r.pct(50);
            for m in ixs.iter_mut().flat_map(|i| i.metas.iter_mut()) {
                if all || self.r.pct(40) {
                    m.w = true;
                }
            }
        }
        // ... and more accounts than needed
        if self.r.pct(4) {
            for ix in ixs.iter_mut() {
                if ix.prog == self.tbc && !ix.metas.is_empty() {
                    self.w.stats.inc("fault:extra-account");
                    for _ in 0..self.r.range(1, 3) {
                        let a = match self.plans.iter().position(|p| p.plan.swap == ix.metas[0].aid) {
                            Some(i) if self.r.pct(70) => {
                                let u = self.r.idx(self.users.len());
                                *self.r.pick(&self.users[u].lp[i])
                            }
                            _ => self.any_account(),
                        };
                        let w = self.r.pct(70);
                        ix.metas.push(Meta { aid: a, s: false, w });
                    }
                }
            }
        }
        let mut signers = vec![];
        for ix in &ixs {
            for m in &ix.metas {
                if m.s && !signers.contains(&m.aid) {
                    signers.push(m.aid);
                }
            }
        }
        Tx { ixs, signers }
    }
    fn send_tx(&mut self, tx: Tx, fault: Fault) {
        let mut at = self.now;
        let mut note = vec![];
        let mut copies = 1;
        let mut expires = self.now + 150;
        if self.r.below(100) < self.pf.chaos {
            match self.r.below(7) {
                0 => {
                    copies = 0;
                    self.w.stats.inc("net:dropped");
                }
                1 => {
                    // the client times out, signs again, and both arrive
                    copies = 2;
                    note.push("resent");
                }
                2 => {
                    at += self.r.range(20, 200);
                    note.push("partitioned");
                }
                3 => {
                    expires = at + self.r.range(0, 4);
                    at += self.r.range(0, 6);
                    note.push("late");
                }
                _ => {
                    at += self.r.range(1, 8);
                    note.push("delayed");
                }
            }
        }
        for k in 0..copies {
            self.seq += 1;
            let d = if k == 0 { 0 } else { self.r.range(0, 6) };
            self.queue.push(Msg { at: at + d, seq: self.seq, tx: tx.clone(), fault, note: note.join("+"), expires });
        }
        if copies > 0 && note.is_empty() && self.r.pct(self.pf.chaos / 8) && tx.ixs.len() == 1 && tx.ixs[0].op.is_pool_op() {
            self.attack_around(&tx, at);
        }
    }
    /// A leader that sees the transaction puts its own before and after it.
    fn attack_around(&mut self, tx: &Tx, at: u64) {
        let swap = tx.ixs[0].metas.first().map(|m| m.aid);
        let pi = match self.w.st.pools.iter().position(|c| Some(c.swap) == swap) {
            Some(i) => i,
            None => return,
        };
        let m = self.users.len() - 1;
        for k in 0..2 {
            if let Some(ix) = self.pool_request(pi, m, 0) {
                let t = self.sign(vec![ix]);
                let seq = if k == 0 { 0 } else { self.seq + 1 };
                self.queue.push(Msg { at, seq, tx: t, fault: Fault::None, note: if k == 0 { "front-run".into() } else { "back-run".into() }, expires: at + 10 });
                if self.r.pct(30) {
                    break;
                }
            }
        }
        self.seq += 1;
    }
    /// Executes what has arrived; the leader orders what is in one slot as it likes.
    fn deliver(&mut self, all: bool) {
        loop {
            if self.done() {
                return;
            }
            let now = self.now;
            let mut due: Vec<usize> = (0..self.queue.len()).filter(|i| self.queue[*i].at <= now).collect();
            if due.is_empty() {
                if all && !self.queue.is_empty() {
                    self.now = self.queue.iter().map(|m| m.at).min().unwrap();
                    continue;
                }
                return;
            }
            let chaos = self.r.below(100) < self.pf.chaos;
            if chaos && due.len() > 1 {
                self.r.shuffle(&mut due);
                self.w.stats.inc("net:reordered");
            } else {
                due.sort_by_key(|i| (self.queue[*i].at, self.queue[*i].seq));
            }
            let pick = due[0];
            let m = self.queue.remove(pick);
            if m.expires < self.now && !m.note.contains("partitioned") {
                self.w.stats.inc("net:expired");
                continue;
            }
            let (slot, tx, fault, note) = (self.now, m.tx, m.fault, m.note);
            self.emit(Event::Exec { slot, tx, fault, note });
        }
    }
    fn deliver_all(&mut self) {
        self.deliver(true);
    }

    fn pick_fault(&mut self) -> Fault {
        if self.r.below(100) < self.pf.fault {
            if self.r.pct(70) {
                Fault::CpiFail(self.r.below(5) as u32)
            } else {
                Fault::Abort(self.r.below(14) as u32)
            }
        } else {
            Fault::None
        }
    }

    // ------------------------------------------------------------------ faults

    fn fork(&mut self) {
        self.emit(Event::Fork);
        let from = self.trace.len();
        for _ in 0..self.r.range(1, 8) {
            self.now += self.r.range(0, 1);
            self.client();
            self.deliver(false);
        }
        let mut txs: Vec<(Tx, Fault)> = self.trace[from.min(self.trace.len())..]
            .iter()
            .filter_map(|e| match e {
                Event::Exec { tx, fault, .. } => Some((tx.clone(), *fault)),
                _ => None,
            })
            .collect();
        if self.r.pct(25) {
            // the fork wins
            return;
        }
        self.emit(Event::Rollback);
        // what was on the fork arrives again
        match self.r.below(3) {
            0 => {}
            1 => self.r.shuffle(&mut txs),
            _ => txs.retain(|t| t.0.ixs.len() % 2 == 1),
        }
        for (tx, fault) in txs {
            if self.r.pct(85) {
                let slot = self.now;
                self.emit(Event::Exec { slot, tx, fault, note: "after-fork".into() });
            }
        }
    }

    fn corruption(&mut self) {
        if self.w.st.pools.is_empty() {
            return;
        }
        let pi = self.r.idx(self.w.st.pools.len());
        let c = self.w.st.pools[pi].clone();
        let u = self.r.idx(self.users.len());
        let cand = [c.swap, c.swap, c.swap, c.swap, c.va, c.vb, c.pm, c.fee, self.users[u].lp.get(pi).map(|v| v[0]).unwrap_or(c.fee), self.some_tok(u, c.ma), self.some_tok(u, c.mb)];
        let aid = *self.r.pick(&cand);
        let len = self.w.st.accts[aid as usize].data.len() as u64;
        if len == 0 {
            return;
        }
        let how = match self.r.below(10) {
            0 => Corrupt::Torn(self.r.below(len) as u16),
            1 => Corrupt::Truncate(match self.r.below(6) {
                0 | 1 => len - 1,
                2 => self.r.below(3).min(len - 1),
                _ => self.r.below(len),
            } as u16),
            2 => Corrupt::Extend(self.r.range(1, 40) as u16),
            3 => Corrupt::Owner(self.r.below(5) as u8),
            4 => Corrupt::Zero,
            5 => Corrupt::Byte(self.r.below(2) as u16, self.r.pick(&[0, 2, 3, 255, 1, 128, 129, 17]).to_owned()),
            6 => {
                if aid == c.swap {
                    Corrupt::Byte(291, if self.r.pct(60) { self.r.pick(&[4, 5, 29, 31, 255, 0, 1, 2, 3, 30, 6]).to_owned() } else { [0, 1, 2, 3, 30][self.r.idx(5)] ^ 1 << self.r.below(8) })
                } else {
                    Corrupt::Byte([108, 45, 72, 129, 0, 46][self.r.idx(6)], self.r.below(4) as u8)
                }
            }
            7 => {
                let o = [c.va, c.vb, c.pm, c.fee, c.swap, self.mints[0], self.users[u].key][self.r.idx(7)];
                Corrupt::Swap(o)
            }
            _ => Corrupt::Byte(self.r.below(len) as u16, self.r.below(256) as u8),
        };
        self.emit(Event::Corrupt { aid, how });
        for _ in 0..self.r.range(1, 6) {
            let tries = if self.r.pct(80) { 4 } else { 1 };
            for _ in 0..tries {
                // requests that read the damaged account
                let u2 = if self.r.pct(60) { u } else { self.r.idx(self.users.len()) };
                if let Some(ix) = self.pool_request(pi, u2, 0) {
                    if !ix.metas.iter().any(|m| m.aid == aid) {
                        continue;
                    }
                    let tx = self.sign(vec![ix]);
                    let slot = self.now;
                    self.emit(Event::Exec { slot, tx, fault: Fault::None, note: String::new() });
                    break;
                }
            }
        }
        self.emit(Event::Restore { aid });
    }

    /// The holders of a pool's tokens leave or burn them.
    fn drain_some(&mut self) {
        if self.w.st.pools.is_empty() {
            return;
        }
        let pi = self.r.idx(self.w.st.pools.len());
        let c = self.w.st.pools[pi].clone();
        let burn = c.kind == LINEAR || self.r.pct(30);
        for u in 0..self.users.len() {
            for lp in self.lp_accounts(u, c.pm) {
                let n = self.w.bal(lp);
                if n == 0 || self.done() {
                    continue;
                }
                let ix = if burn {
                    self.tok_ix(Op::Burn(n), vec![(lp, false, true), (c.pm, false, true), (self.users[u].key, true, false)])
                } else {
                    let (da, db) = (self.some_tok(u, c.ma), self.some_tok(u, c.mb));
                    self.ix(Op::WdAll { pt: n, ma: 0, mb: 0 }, wd_all_metas(&c, self.tp, self.users[u].key, lp, da, db))
                };
                self.send(vec![ix], Fault::None);
                self.deliver(true);
            }
        }
        // the fee account's owner
        let n = self.w.bal(c.fee);
        if n > 0 {
            if let Some(u) = self.owner_of(c.fee) {
                let ix = if burn {
                    self.tok_ix(Op::Burn(n), vec![(c.fee, false, true), (c.pm, false, true), (self.users[u].key, true, false)])
                } else {
                    let (da, db) = (self.some_tok(u, c.ma), self.some_tok(u, c.mb));
                    self.ix(Op::WdAll { pt: n, ma: 0, mb: 0 }, wd_all_metas(&c, self.tp, self.users[u].key, c.fee, da, db))
                };
                self.send(vec![ix], Fault::None);
                self.deliver(true);
            }
        }
        if self.w.supply(c.pm) == 0 {
            self.w.stats.inc("state:no-pool-tokens");
        }
        // and somebody tries to take over what is there
        for _ in 0..self.r.range(0, 4) {
            let u = self.r.idx(self.users.len());
            if let Some(ix) = self.pool_request(pi, u, 0) {
                self.send(vec![ix], Fault::None);
                self.deliver(true);
            }
            if self.r.pct(20) {
                let i = self.plans.iter().position(|p| p.plan.swap == c.swap).unwrap();
                let ix = self.init_ix(i, true);
                self.send(vec![ix], Fault::None);
                self.deliver(true);
            }
        }
    }

    // ------------------------------------------------------------------ epilogue

    fn exec_now(&mut self, ix: Ix) {
        let tx = self.sign(vec![ix]);
        self.now += 1;
        let slot = self.now;
        self.emit(Event::Exec { slot, tx, fault: Fault::None, note: String::new() });
    }

    fn epilogue(&mut self) {
        // the issuer lifts its freezes
        for u in 0..self.users.len() {
            for m in 0..self.mints.len() {
                for a in self.users[u].tok[m].clone() {
                    if tok::acct(&self.w.st.accts[a as usize]).map(|t| t.frozen).unwrap_or(false) {
                        let ix = self.tok_ix(Op::Thaw, vec![(a, false, true), (self.mints[m], false, false), (self.bank, true, false)]);
                        self.exec_now(ix);
                    }
                }
            }
        }
        self.emit(Event::Epilogue);
        for pi in 0..self.w.st.pools.len() {
            let c = self.w.st.pools[pi].clone();
            let mut order: Vec<usize> = (0..self.users.len()).collect();
            self.r.shuffle(&mut order);
            if c.kind == LINEAR {
                for u in order.clone() {
                    for src in self.tok_accounts(u, c.mb) {
                        let n = self.w.bal(src);
                        if n == 0 {
                            continue;
                        }
                        let dst = self.some_tok(u, c.ma);
                        let op = Op::Swap { amt: n, min: 0 };
                        let ix = self.ix(op, swap_metas(&c, self.tp, self.users[u].key, src, dst, false, None));
                        self.exec_now(ix);
                    }
                }
                // somebody buys what is there
                for u in order {
                    for src in self.tok_accounts(u, c.ma) {
                        let n = self.w.bal(src);
                        if n == 0 || self.w.bal(c.vb) == 0 {
                            continue;
                        }
                        let dst = self.some_tok(u, c.mb);
                        let ix = self.ix(Op::Swap { amt: n, min: 0 }, swap_metas(&c, self.tp, self.users[u].key, src, dst, true, None));
                        self.exec_now(ix);
                    }
                }
            } else {
                for u in order {
                    for lp in self.lp_accounts(u, c.pm) {
                        if lp == c.fee {
                            continue;
                        }
                        self.leave(&c, u, lp);
                    }
                }
                if let Some(u) = self.owner_of(c.fee) {
                    self.leave(&c, u, c.fee);
                }
                self.w.stats.inc(if self.w.supply(c.pm) == 0 { "epilogue:pool-emptied" } else { "epilogue:pool-not-empty" });
            }
        }
    }

    fn leave(&mut self, c: &Cfg, u: usize, lp: Aid) {
        let n = self.w.bal(lp);
        if n == 0 || self.done() {
            return;
        }
        let (da, db) = (self.some_tok(u, c.ma), self.some_tok(u, c.mb));
        let ix = self.ix(Op::WdAll { pt: n, ma: 0, mb: 0 }, wd_all_metas(c, self.tp, self.users[u].key, lp, da, db));
        self.exec_now(ix);
        if !self.w.last_ok {
            for (a2b, d) in [(true, da), (false, db)] {
                let v = self.w.bal(if a2b { c.va } else { c.vb });
                if v == 0 || self.done() {
                    continue;
                }
                let share = (v as u128 * n as u128 / (self.w.supply(c.pm).max(1)) as u128).max(1).min(u64::MAX as u128) as u64;
                let ix = self.ix(Op::WdOne { amt: share, max: n }, wd_one_metas(c, self.tp, self.users[u].key, lp, d));
                self.exec_now(ix);
            }
        }
    }

    // ------------------------------------------------------------------ clients

    fn ix(&self, op: Op, metas: Vec<Meta>) -> Ix {
        Ix { op, prog: self.tbc, metas, cut: None }
    }
    fn tok_ix(&self, op: Op, m: Vec<(Aid, bool, bool)>) -> Ix {
        Ix { op, prog: self.tp, metas: m.into_iter().map(|(aid, s, w)| Meta { aid, s, w }).collect(), cut: None }
    }
    fn mint_ix(&self, m: Aid) -> usize {
        self.mints.iter().position(|x| *x == m).unwrap_or(0)
    }
    fn tok_accounts(&self, u: usize, m: Aid) -> Vec<Aid> {
        self.users[u].tok[self.mint_ix(m)].clone()
    }
    fn some_tok(&mut self, u: usize, m: Aid) -> Aid {
        let i = self.mint_ix(m);
        let v = &self.users[u].tok[i];
        let k = if v.len() > 1 { self.r.idx(v.len()) } else { 0 };
        v[k]
    }
    fn plan_of(&self, pm: Aid) -> Option<usize> {
        self.plans.iter().position(|p| p.plan.pm == pm)
    }
    fn lp_accounts(&self, u: usize, pm: Aid) -> Vec<Aid> {
        match self.plan_of(pm) {
            Some(i) => self.users[u].lp[i].iter().copied().filter(|a| u == 0 || *a != self.plans[i].plan.fee).collect(),
            None => vec![],
        }
    }
    fn owner_of(&self, a: Aid) -> Option<usize> {
        let o = tok::acct(&self.w.st.accts[a as usize])?.owner;
        self.users.iter().position(|u| self.w.names.keys[u.key as usize] == o)
    }

    fn client(&mut self) {
        if self.done() {
            return;
        }
        let u = self.r.idx(self.users.len());
        if self.w.st.pools.is_empty() || self.r.weighted(&[97, 3]) == 1 && self.plans.iter().any(|p| !p.tried) {
            let i = self.r.idx(self.plans.len());
            let honest = self.r.pct(30);
            let ix = self.init_ix(i, honest);
            self.plans[i].tried = true;
            let f = self.pick_fault();
            self.send(vec![ix], f);
            return;
        }
        let kind = self.r.weighted(&self.pf.w.clone());
        match kind {
            0..=4 => {
                let pi = self.r.idx(self.w.st.pools.len());
                if kind == 0 && self.r.below(100) < self.pf.bursts {
                    self.burst(pi, u);
                    return;
                }
                let ix = match self.request(pi, u, kind) {
                    Some(i) => i,
                    None => return,
                };
                if self.r.below(100) < self.pf.byz {
                    let tx = self.byzantine(ix, u);
                    let f = self.pick_fault();
                    self.send_tx(tx, f);
                    return;
                }
                let mut ixs = vec![ix];
                if self.r.below(100) < self.pf.multi {
                    let p2 = self.r.idx(self.w.st.pools.len());
                    let k2 = self.r.weighted(&self.pf.w[..5].to_vec());
                    if let Some(x) = self.request(p2, u, k2) {
                        ixs.push(x);
                    }
                }
                let f = self.pick_fault();
                self.send(ixs, f);
            }
            5 => self.op_transfer(u),
            6 => self.op_approve(u),
            7 => self.op_burn(u),
            8 => {
                let m = self.r.idx(self.mints.len());
                let d = self.some_tok(u, self.mints[m]);
                let room = u64::MAX - self.w.supply(self.mints[m]);
                let n = self.r.log_range(1, self.scale).min(room);
                let ix = self.tok_ix(Op::MintTo(n), vec![(self.mints[m], false, true), (d, false, true), (self.bank, true, false)]);
                self.send(vec![ix], Fault::None);
            }
            9 => self.op_authority(u),
            10 => {
                let i = self.r.idx(self.plans.len());
                let ok = self.r.pct(40);
                let ix = self.init_ix(i, ok);
                self.plans[i].tried = true;
                if self.r.below(100) < self.pf.byz {
                    let tx = self.byzantine(ix, u);
                    self.send_tx(tx, Fault::None);
                } else {
                    let f = self.pick_fault();
                    self.send(vec![ix], f);
                }
            }
            _ => self.op_raw(u),
        }
    }

    /// A sequence of related trades by one client: round trips, repeated small amounts.
    fn burst(&mut self, pi: usize, u: usize) {
        let n = self.r.range(2, 8);
        let c = self.w.st.pools[pi].clone();
        let style = self.r.below(4);
        let dir0 = self.r.pct(50);
        let mut dir = dir0;
        let ma = if dir0 { c.ma } else { c.mb };
        let mb = if dir0 { c.mb } else { c.ma };
        let sa = self.some_tok(u, ma);
        let sb = self.some_tok(u, mb);
        let amt0 = self.swap_amount(&c, dir0, sa);
        let mut last_gain = amt0;
        for k in 0..n {
            if self.done() {
                return;
            }
            let (src, dst) = if dir == dir0 { (sa, sb) } else { (sb, sa) };
            let amt = match style {
                0 => last_gain,                               // round trips with what was gained
                1 => amt0,                                    // the same again
                2 => (amt0 / (k + 1)).max(1),                 // splitting
                _ => last_gain.saturating_sub(self.r.below(2)), // almost everything back
            };
            let before = self.w.bal(dst);
            let ix = self.ix(Op::Swap { amt, min: 0 }, swap_metas(&c, self.tp, self.users[u].key, src, dst, dir, None));
            let tx = self.sign(vec![ix]);
            let slot = self.now;
            let fault = self.pick_fault();
            self.emit(Event::Exec { slot, tx, fault, note: String::new() });
            let g = self.w.bal(dst).saturating_sub(before);
            if style == 0 || style == 3 {
                if g > 0 {
                    last_gain = g;
                    dir = !dir;
                }
            }
            if self.r.pct(10) {
                self.deliver(false);
            }
        }
    }

    /// Any liquidity or trade request on a pool.
    fn pool_request(&mut self, pi: usize, u: usize, _x: u32) -> Option<Ix> {
        let k = self.r.weighted(&[40, 15, 15, 15, 15]);
        self.request(pi, u, k)
    }

    fn request(&mut self, pi: usize, u: usize, kind: usize) -> Option<Ix> {
        let c = if self.forged.is_some() && self.r.below(100) < self.pf.byz / 12 { self.forged.clone().unwrap() } else { self.w.st.pools.get(pi)?.clone() };
        let plan = self.plan_of(c.pm);
        let lp = match plan {
            Some(i) => {
                let v = self.users[u].lp[i].clone();
                let mut a = *self.r.pick(&v);
                if a == c.fee && self.owner_of(a) != Some(u) {
                    a = v[0];
                }
                if self.r.pct(3) && self.owner_of(c.fee) == Some(u) {
                    a = c.fee;
                }
                a
            }
            None => c.dest,
        };
        let mut key = self.users[u].key;
        let sup = self.w.supply(c.pm);
        let mut ix = match kind {
            0 => {
                let a2b = self.r.pct(if c.kind == LINEAR { 60 } else { 50 });
                let (mi, mo) = if a2b { (c.ma, c.mb) } else { (c.mb, c.ma) };
                let mut src = self.some_tok(u, mi);
                let dst = self.some_tok(u, mo);
                if self.r.pct(3) {
                    if let Some((s, k)) = self.delegated(mi) {
                        src = s;
                        key = k;
                    }
                }
                let amt = self.swap_amount(&c, a2b, src);
                let host = if self.r.pct(if c.fees[2] > 0 { 40 } else { 10 }) {
                    let hu = self.r.idx(self.users.len());
                    Some(match self.r.below(18) {
                        0 => c.fee,
                        1 => dst,
                        2 => c.pm,
                        3 => self.users[hu].key,
                        4 => {
                            let k = self.r.idx(self.plans.len());
                            [self.plans[k].plan.fee, self.users[hu].lp[k][0]][self.r.idx(2)]
                        }
                        5 if self.r.pct(50) => [c.auth, c.swap, c.va, c.vb, self.tp][self.r.idx(5)],
                        _ => match plan {
                            Some(i) => self.users[hu].lp[i][0],
                            None => c.dest,
                        },
                    })
                } else {
                    None
                };
                let metas = swap_metas(&c, self.tp, key, src, dst, a2b, host);
                if host.is_some() || self.r.pct(15) {
                    self.ix(Op::SwapHost { amt, min: 0 }, metas)
                } else {
                    self.ix(Op::Swap { amt, min: 0 }, metas)
                }
            }
            1 => {
                let (sa, sb) = (self.some_tok(u, c.ma), self.some_tok(u, c.mb));
                let (ba, bb) = (self.w.bal(sa), self.w.bal(sb));
                // pool tokens the user can pay for
                let cap = {
                    let f = |bal: u64, v: u64| -> u64 {
                        if v == 0 {
                            u64::MAX
                        } else {
                            ((bal as u128 * sup as u128) / v as u128).min(u64::MAX as u128) as u64
                        }
                    };
                    f(ba, self.w.bal(c.va)).min(f(bb, self.w.bal(c.vb)))
                };
                let pt = self.lp_amount(&c, cap, sup);
                self.ix(Op::DepAll { pt, ma: u64::MAX, mb: u64::MAX }, dep_all_metas(&c, self.tp, key, sa, sb, lp))
            }
            2 => {
                let (da, db) = (self.some_tok(u, c.ma), self.some_tok(u, c.mb));
                let bal = self.w.bal(lp);
                let pt = self.lp_amount(&c, bal, sup);
                self.ix(Op::WdAll { pt, ma: 0, mb: 0 }, wd_all_metas(&c, self.tp, key, lp, da, db))
            }
            3 => {
                let a2b = self.r.pct(50);
                let src = self.some_tok(u, if a2b { c.ma } else { c.mb });
                let amt = self.single_amount(&c, a2b, self.w.bal(src));
                self.ix(Op::DepOne { amt, min: 0 }, dep_one_metas(&c, self.tp, key, src, lp))
            }
            _ => {
                let a2b = self.r.pct(50);
                let dst = self.some_tok(u, if a2b { c.ma } else { c.mb });
                let v = self.w.bal(if a2b { c.va } else { c.vb });
                let bal = self.w.bal(lp);
                let cap = if sup == 0 { v } else { (v as u128 * bal as u128 / sup as u128) as u64 };
                let amt = self.single_amount(&c, a2b, cap);
                self.ix(Op::WdOne { amt, max: u64::MAX }, wd_one_metas(&c, self.tp, key, lp, dst))
            }
        };
        if self.r.pct(5) {
            // the proceeds go to somebody else
            let k: &[usize] = match ix.op {
                Op::Swap { .. } => &[6],
                Op::SwapHost { .. } => &[6, 10, 10],
                Op::DepAll { .. } => &[8],
                Op::WdAll { .. } => &[7, 8],
                _ => &[7],
            };
            let i = *self.r.pick(k);
            let mint = ix.metas.get(i).and_then(|x| tok::acct(&self.w.st.accts[x.aid as usize])).map(|t| t.mint);
            let v = self.r.idx(self.users.len());
            let mut to: Vec<Aid> = self.users[v].tok.iter().chain(self.users[v].lp.iter()).flatten().cloned().collect();
            if self.r.pct(40) {
                to = plan.map(|i| self.plans[i].stray.clone()).unwrap_or_default();
            }
            to.retain(|a| tok::acct(&self.w.st.accts[*a as usize]).map(|t| Some(t.mint) == mint).unwrap_or(false));
            if !to.is_empty() {
                ix.metas[i].aid = *self.r.pick(&to);
                self.w.stats.inc("client:proceeds-to-another");
            }
        }
        if self.pf.wild > 0 && self.r.below(200) < self.pf.wild {
            let x = edge(&mut self.r);
            match &mut ix.op {
                Op::Swap { amt, .. } | Op::SwapHost { amt, .. } | Op::DepOne { amt, .. } | Op::WdOne { amt, .. } => *amt = x,
                Op::DepAll { pt, .. } | Op::WdAll { pt, .. } => *pt = x,
                _ => {}
            }
        }
        if self.r.below(100) < self.pf.limits {
            self.set_limits(&mut ix);
        }
        Some(ix)
    }

    /// The client asks a node to simulate the request and sets its limits from the answer.
    fn set_limits(&mut self, ix: &mut Ix) {
        let tx = self.sign(vec![ix.clone()]);
        let q = self.w.simulate(&tx);
        let style = self.r.below(10);
        let r = &mut self.r;
        let mut lim = |x: u64, max_side: bool| -> u64 {
            match style {
                0..=2 => x,
                3 => x.saturating_add(1),
                4 => x.saturating_sub(1),
                5 | 6 => {
                    let s = x / [200u64, 100, 20, 1000][r.idx(4)];
                    if max_side {
                        x.saturating_add(s)
                    } else {
                        x.saturating_sub(s)
                    }
                }
                7 => 0,
                8 => u64::MAX,
                _ => r.log_range(1, x.max(1).saturating_mul(2)),
            }
        };
        match (&mut ix.op, q) {
            (Op::Swap { min, .. }, Some(q)) | (Op::SwapHost { min, .. }, Some(q)) => *min = lim(q.out, false),
            (Op::DepAll { ma, mb, .. }, Some(q)) => {
                *ma = lim(q.a, true);
                *mb = lim(q.b, true);
            }
            (Op::WdAll { ma, mb, .. }, Some(q)) => {
                *ma = lim(q.a, false);
                *mb = lim(q.b, false);
            }
            (Op::DepOne { min, .. }, Some(q)) => *min = lim(q.lp, false),
            (Op::WdOne { max, .. }, Some(q)) => *max = lim(q.lp, true),
            _ => {}
        }
        // two limits: make only one of them tight
        if style <= 4 && self.r.pct(60) {
            let first = self.r.pct(50);
            match &mut ix.op {
                Op::DepAll { ma, mb, .. } => *(if first { ma } else { mb }) = u64::MAX,
                Op::WdAll { ma, mb, .. } => *(if first { ma } else { mb }) = 0,
                _ => {}
            }
        }
    }

    fn delegated(&mut self, mint: Aid) -> Option<(Aid, Aid)> {
        let mi = self.mint_ix(mint);
        let mut v = vec![];
        for us in &self.users {
            for a in &us.tok[mi] {
                if let Some(t) = tok::acct(&self.w.st.accts[*a as usize]) {
                    if let Some(d) = t.delegate {
                        if let Some(k) = self.w.names.by_key(&d) {
                            v.push((*a, k));
                        }
                    }
                }
            }
        }
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }

    fn near(&mut self, x: u64) -> u64 {
        match self.r.below(5) {
            0 => x.saturating_sub(1),
            1 => x.saturating_add(1),
            2 => x.saturating_add(2),
            _ => x,
        }
    }

    fn swap_amount(&mut self, c: &Cfg, a2b: bool, src: Aid) -> u64 {
        let bal = self.w.bal(src);
        let (a, b) = (self.w.bal(c.va), self.w.bal(c.vb));
        let (rin, rout) = if a2b { (a, b) } else { (b, a) };
        let x = match self.r.below(14) {
            0 | 1 => self.r.log_range(1, bal.max(1)),
            2 => {
                let k = self.r.range(2, 50);
                bal / k
            }
            3 => self.r.below(21),
            4 => {
                if self.r.pct(50) {
                    bal
                } else {
                    self.near(bal)
                }
            }
            5 | 6 => self.r.log_range(1, rin.max(1)).min(bal.max(1)),
            7 => {
                if self.r.pct(15) {
                    *self.r.clone().pick(&[0, u64::MAX, u64::MAX - 1, 1u64 << 63])
                } else {
                    let l = self.last_amt;
                    self.near(l)
                }
            }
            8 => (rin as u128 * self.r.range(1, 300) as u128 / 100).min(bal.max(1) as u128) as u64,
            _ => {
                let v = self.boundary(c, a2b, a, b, rin, rout);
                self.near(v)
            }
        };
        // gross up for fees so that the remainder hits the boundary
        let x = if self.r.pct(35) && (c.fees[0] > 0 || c.fees[2] > 0) {
            let f = trade_fee(&c.fees, x as u128) + owner_fee(&c.fees, x as u128);
            let mut y = (x as u128 + f).min(u64::MAX as u128);
            let f2 = trade_fee(&c.fees, y) + owner_fee(&c.fees, y);
            y = (x as u128 + f2).min(u64::MAX as u128);
            y as u64
        } else {
            x
        };
        self.last_amt = x;
        x
    }

    fn boundary(&mut self, c: &Cfg, a2b: bool, a: u64, b: u64, rin: u64, rout: u64) -> u64 {
        let cap = |x: u128| x.min(u64::MAX as u128) as u64;
        match c.kind {
            PRICE => {
                let price = (c.p[0] as u128).max(1);
                if a2b {
                    if self.r.pct(40) {
                        cap(rout as u128 * price)
                    } else {
                        let k = self.r.log_range(1, rout.max(1)) as u128;
                        let d = if self.r.pct(50) { price - 1 } else { 0 };
                        cap(k * price + d)
                    }
                } else if self.r.pct(60) {
                    cap(rout as u128 / price)
                } else {
                    self.r.log_range(1, cap(rout as u128 / price).max(1))
                }
            }
            LINEAR => {
                if a2b {
                    let (lo, hi) = linear_exhaust(&c.p, a, b);
                    match self.r.below(3) {
                        0 => cap(lo),
                        1 => cap(hi),
                        _ => {
                            let h = cap(lo).max(1);
                            self.r.log_range(1, h)
                        }
                    }
                } else {
                    let p = linear_pos(&c.p, a);
                    let n = cap(to_u128n(p.lo_t >> 96));
                    match self.r.below(3) {
                        0 => n,
                        1 => n.saturating_add(1),
                        _ => self.r.log_range(1, n.max(1)),
                    }
                }
            }
            CP | OFFSET => {
                let off = if c.kind == OFFSET { c.p[0] as u128 } else { 0 };
                let (s, d) = if a2b { (a as u128, b as u128 + off) } else { (b as u128 + off, a as u128) };
                let k = self.r.log_range(1, rout.max(2)) as u128;
                if d > k {
                    // the amount that buys k
                    cap(to_u128(w(s) * w(k) / w(d - k)))
                } else {
                    cap(rin as u128)
                }
            }
            _ => (rin as u128 * self.r.range(1, 1000) as u128 / 500).min(u64::MAX as u128) as u64,
        }
    }

    fn lp_amount(&mut self, c: &Cfg, cap: u64, sup: u64) -> u64 {
        let (a, b) = (self.w.bal(c.va), self.w.bal(c.vb));
        match self.r.below(12) {
            0 | 1 | 2 => self.r.log_range(1, cap.max(1)),
            3 => cap,
            4 => self.near(cap),
            5 => self.r.below(20),
            6 => {
                if self.r.pct(15) {
                    u64::MAX
                } else {
                    0
                }
            }
            7 => {
                let k = self.r.range(2, 100);
                cap / k
            }
            8 => {
                // just enough for one unit of a side
                let x = if self.r.pct(50) { a } else { b };
                let v = if x == 0 { 1 } else { sup / x };
                self.near(v)
            }
            9 => self.r.log_range(1, sup.max(1)),
            10 => {
                let k = self.r.range(1, 60);
                let x = a.max(1);
                ((sup as u128 * k as u128) / x as u128).min(u64::MAX as u128) as u64
            }
            _ => {
                let l = self.last_amt;
                self.near(l)
            }
        }
    }

    fn single_amount(&mut self, c: &Cfg, a2b: bool, cap: u64) -> u64 {
        let v = self.w.bal(if a2b { c.va } else { c.vb });
        let sup = self.w.supply(c.pm);
        match self.r.below(11) {
            0 | 1 | 2 => self.r.log_range(1, cap.max(1)),
            3 => cap,
            4 => self.near(cap),
            5 => self.r.below(20),
            6 => {
                if self.r.pct(15) {
                    *self.r.clone().pick(&[0, u64::MAX, v, v.saturating_add(1)])
                } else {
                    v
                }
            }
            7 => self.r.log_range(1, v.max(1)).min(cap.max(1)),
            8 => {
                // worth about one pool token
                let x = if sup == 0 { 1 } else { (v as u128 / sup as u128 + 1).min(u64::MAX as u128) as u64 };
                self.near(x.saturating_mul(1 + self.r.clone().below(3)))
            }
            9 => {
                let k = self.r.range(2, 50);
                cap / k
            }
            _ => {
                let k = self.r.log_range(2, 1 << 20);
                (v / k).min(cap.max(1))
            }
        }
    }

    // ------------------------------------------------------------------ token operations

    fn op_transfer(&mut self, u: usize) {
        let key = self.users[u].key;
        if self.r.pct(60) || self.w.st.pools.is_empty() {
            // donation to a vault (or the pool's own fee or pool-token accounts)
            let pi = self.r.idx(self.w.st.pools.len().max(1));
            if let Some(c) = self.w.st.pools.get(pi).cloned() {
                let side = self.r.pct(50);
                let src = self.some_tok(u, if side { c.ma } else { c.mb });
                let vault = if side { c.va } else { c.vb };
                if self.w.names.keys[if side { c.ma } else { c.mb } as usize] == spl_token::native_mint::id() && self.r.pct(25) {
                    // coin unwrapped straight into the vault, which takes note of it now, later or never
                    let mut ixs = vec![];
                    if self.users[u].tok[0].len() > 1 || self.r.pct(40) {
                        ixs.push(self.tok_ix(Op::Close, vec![(src, false, true), (vault, false, true), (key, true, false)]));
                        self.w.stats.inc("client:coin-donation");
                    }
                    if ixs.is_empty() || self.r.pct(50) {
                        ixs.push(self.tok_ix(Op::Sync, vec![(vault, false, true)]));
                    }
                    self.send(ixs, Fault::None);
                    return;
                }
                let bal = self.w.bal(src);
                let v = self.w.bal(if side { c.va } else { c.vb });
                let n = match self.r.below(4) {
                    0 => self.r.below(5),
                    1 => self.r.log_range(1, v.max(1)).min(bal),
                    _ => self.r.log_range(1, bal.max(1)),
                };
                let ix = self.tok_ix(Op::Transfer(n), vec![(src, false, true), (if side { c.va } else { c.vb }, false, true), (key, true, false)]);
                self.w.stats.inc("client:donation");
                self.send(vec![ix], Fault::None);
                return;
            }
        }
        // between users
        let v = self.r.idx(self.users.len());
        let (s, d, bal) = if self.r.pct(50) {
            let m = self.r.idx(self.mints.len());
            let s = self.some_tok(u, self.mints[m]);
            let d = self.some_tok(v, self.mints[m]);
            (s, d, self.w.bal(s))
        } else {
            let i = self.r.idx(self.plans.len());
            let s = self.users[u].lp[i][0];
            let d = if self.r.pct(15) { self.plans[i].plan.fee } else { self.users[v].lp[i][0] };
            (s, d, self.w.bal(s))
        };
        let n = self.r.log_range(1, bal.max(1));
        let ix = self.tok_ix(Op::Transfer(n), vec![(s, false, true), (d, false, true), (key, true, false)]);
        self.send(vec![ix], Fault::None);
    }
    fn op_approve(&mut self, u: usize) {
        let v = self.r.idx(self.users.len());
        let a = if self.r.pct(60) {
            let m = self.r.idx(self.mints.len());
            self.some_tok(u, self.mints[m])
        } else {
            let i = self.r.idx(self.plans.len());
            self.users[u].lp[i][0]
        };
        let key = self.users[u].key;
        let ix = if self.r.pct(80) {
            let bal = self.w.bal(a);
            let n = if self.r.pct(50) { self.r.log_range(1, bal.max(1)) } else { bal };
            self.tok_ix(Op::Approve(n), vec![(a, false, true), (self.users[v].key, false, false), (key, true, false)])
        } else {
            self.tok_ix(Op::Revoke, vec![(a, false, true), (key, true, false)])
        };
        self.send(vec![ix], Fault::None);
    }
    fn op_burn(&mut self, u: usize) {
        let i = self.r.idx(self.plans.len());
        let pm = self.plans[i].plan.pm;
        let v = self.users[u].lp[i].clone();
        let a = *self.r.pick(&v);
        let bal = self.w.bal(a);
        let n = match self.r.below(4) {
            0 => bal,
            1 => bal / 2,
            _ => self.r.log_range(1, bal.max(1)),
        };
        let ix = self.tok_ix(Op::Burn(n), vec![(a, false, true), (pm, false, true), (self.users[u].key, true, false)]);
        self.send(vec![ix], Fault::None);
    }
    fn op_authority(&mut self, u: usize) {
        let key = self.users[u].key;
        match self.r.below(6) {
            0 | 1 => {
                // freeze or thaw a user's account
                let m = self.r.idx(self.mints.len());
                let v = self.r.idx(self.users.len());
                let a = self.some_tok(v, self.mints[m]);
                let op = if self.r.pct(50) { Op::Freeze } else { Op::Thaw };
                let ix = self.tok_ix(op, vec![(a, false, true), (self.mints[m], false, false), (self.bank, true, false)]);
                self.send(vec![ix], Fault::None);
            }
            2 if self.r.pct(60) => {
                // the fee owner takes its fees out of the fee account and closes it, or hands it on
                if self.w.st.pools.is_empty() {
                    return;
                }
                let pi = self.r.idx(self.w.st.pools.len());
                let c = self.w.st.pools[pi].clone();
                let o = match self.owner_of(c.fee) {
                    Some(o) => o,
                    None => return,
                };
                let ok = self.users[o].key;
                if self.r.pct(30) {
                    let v = self.r.idx(self.users.len());
                    let ix = self.tok_ix(Op::SetAuth(2, Some(self.users[v].key)), vec![(c.fee, false, true), (ok, true, false)]);
                    self.w.stats.inc("fault:fee-account-handed-on");
                    self.send(vec![ix], Fault::None);
                    return;
                }
                let mut ixs = vec![];
                let n = self.w.bal(c.fee);
                if n > 0 {
                    let to = self.lp_accounts(o, c.pm).into_iter().find(|a| *a != c.fee);
                    match to {
                        Some(a) => ixs.push(self.tok_ix(Op::Transfer(n), vec![(c.fee, false, true), (a, false, true), (ok, true, false)])),
                        None => ixs.push(self.tok_ix(Op::Burn(n), vec![(c.fee, false, true), (c.pm, false, true), (ok, true, false)])),
                    }
                }
                ixs.push(self.tok_ix(Op::Close, vec![(c.fee, false, true), (ok, false, true), (ok, true, false)]));
                self.w.stats.inc("fault:fee-account-closed");
                self.send(ixs, Fault::None);
            }
            2 => {
                let m = self.r.idx(self.mints.len());
                let a = self.some_tok(u, self.mints[m]);
                if self.w.names.keys[self.mints[m] as usize] == spl_token::native_mint::id() && self.r.pct(60) {
                    // coin unwrapped straight into a vault, which may or may not take note of it
                    let vs: Vec<Aid> = self.w.st.pools.iter().flat_map(|c| [(c.ma, c.va), (c.mb, c.vb)]).filter(|x| x.0 == self.mints[m]).map(|x| x.1).collect();
                    if !vs.is_empty() {
                        let v = *self.r.pick(&vs);
                        let mut ixs = vec![self.tok_ix(Op::Close, vec![(a, false, true), (v, false, true), (key, true, false)])];
                        if self.r.pct(70) {
                            ixs.push(self.tok_ix(Op::Sync, vec![(v, false, true)]));
                        }
                        self.w.stats.inc("client:coin-donation");
                        self.send(ixs, Fault::None);
                        return;
                    }
                }
                let ix = self.tok_ix(Op::Close, vec![(a, false, true), (key, false, true), (key, true, false)]);
                self.send(vec![ix], Fault::None);
            }
            _ => {
                // somebody tries to take control of a pool's accounts
                let i = self.r.idx(self.plans.len());
                let p = self.plans[i].plan.clone();
                let (a, t) = *self.r.pick(&[(p.va, 2u8), (p.vb, 2), (p.va, 3), (p.pm, 0), (p.pm, 1), (p.fee, 2), (p.vb, 3)]);
                let signer = if self.r.pct(50) { key } else { self.bank };
                let ix = self.tok_ix(Op::SetAuth(t, Some(key)), vec![(a, false, true), (signer, true, false)]);
                self.send(vec![ix], Fault::None);
            }
        }
    }
    fn op_raw(&mut self, u: usize) {
        let pi = self.r.idx(self.w.st.pools.len());
        let k = self.r.weighted(&[3, 1, 1, 1, 1]);
        if let Some(mut ix) = self.request(pi, u, k) {
            match self.r.below(4) {
                0 | 1 => ix.cut = Some(self.r.below(32) as u16),
                2 => {
                    // an unknown instruction: a damaged discriminator
                    let mut b = encode(&ix.op, &self.w.names.keys);
                    if b.len() < 8 || matches!(ix.op, Op::SwapHost { .. }) {
                        return;
                    }
                    let i = self.r.idx(8);
                    let v = self.r.range(1, 255) as u8;
                    b[i] ^= v;
                    ix.op = Op::Raw(b);
                }
                _ => {
                    let n = self.r.below(40);
                    let b: Vec<u8> = (0..n).map(|_| self.r.below(256) as u8).collect();
                    ix.op = Op::Raw(b);
                }
            }
            self.send(vec![ix], Fault::None);
        }
    }

    // ------------------------------------------------------------------ creation

    fn init_ix(&mut self, i: usize, honest: bool) -> Ix {
        let x = self.plans[i].clone();
        let (mut kind, mut p, mut fees) = (x.kind, x.p, x.fees);
        if !honest {
            if self.r.pct(12) {
                kind = [CP, PRICE, STABLE, OFFSET, LINEAR][self.r.idx(5)];
                if kind == STABLE && p[0] == 0 {
                    p[0] = 1;
                }
            }
            if kind != STABLE && self.r.pct(12) {
                let k = self.r.idx(4);
                p[k] = self.r.pick(&[0, 1, u64::MAX]).to_owned();
            }
            if kind == LINEAR && self.r.pct(8) {
                // around the smallest slope
                p[0] = self.r.range(1, 18);
                let lim = p[0] as u128 * 1_000_000_000_000_000_000;
                p[1] = (lim + self.r.range(0, 2) as u128 - 1).min(u64::MAX as u128) as u64;
            }
            if self.r.pct(20) {
                let k = self.r.idx(4);
                let d = fees[2 * k + 1];
                match self.r.below(6) {
                    0 => fees[2 * k] = d,
                    1 => fees[2 * k] = d.saturating_add(1),
                    2 => fees[2 * k + 1] = 0,
                    3 => {
                        fees[2 * k] = 0;
                        fees[2 * k + 1] = 1;
                    }
                    4 => {
                        fees[2 * k] = 0;
                        fees[2 * k + 1] = 0;
                    }
                    _ => fees[2 * k] = d.saturating_sub(1),
                }
            }
            if kind == LINEAR {
                // linear pools are specified without fees
                for k in 0..4 {
                    if fees[2 * k] > 0 && fees[2 * k] < fees[2 * k + 1] {
                        fees[2 * k] = 0;
                    }
                }
            }
        }
        let mut con = None;
        if self.pf.con > 0 {
            if cfg!(feature = "production") {
                self.near_terms(&mut kind, &mut fees, &PRODUCTION_FEES, &[PRICE, CP]);
            } else if self.r.below(100) < self.pf.con {
                let f = if self.r.pct(40) { PRODUCTION_FEES } else { rand_fees(&mut self.r, CP, true) };
                let all = [CP, PRICE, STABLE, OFFSET, LINEAR];
                let mask = self.r.u64();
                let mut types: Vec<u8> = all.iter().copied().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1).collect();
                if self.r.pct(60) && !types.contains(&kind) {
                    types.push(kind);
                } else if self.r.pct(20) {
                    types.clear();
                }
                let owner = self.users[if self.r.pct(75) { 0 } else { self.r.idx(self.users.len()) }].key;
                let t = types.clone();
                self.near_terms(&mut kind, &mut fees, &f, &t);
                con = Some(Con { fees: f, types, owner });
            }
        }
        if kind == STABLE && p[0] == 0 {
            p[0] = 1;
        }
        if kind == LINEAR {
            for k in 0..4 {
                if p[k] == 0 && honest {
                    p[k] = 1;
                }
            }
            if con.is_none() && fees[2] > 0 && fees[2] < fees[3] {
                fees[2] = 0;
            }
        }
        let metas = init_metas(&x.plan, self.tp);
        let public = con.is_none() && (cfg!(feature = "production") && self.pf.con > 0 || self.r.pct(50));
        let op = match kind {
            PRICE if public => Op::InitPrice { fees, price: p[0] },
            LINEAR if public => Op::InitLinear { p },
            _ => Op::InitDirect { kind, p, fees, con },
        };
        self.ix(op, metas)
    }

    /// Fees at, above or below an owner's terms.
    fn near_terms(&mut self, kind: &mut u8, fees: &mut [u64; 8], f: &[u64; 8], types: &[u8]) {
        if self.r.pct(70) && !types.is_empty() {
            *kind = *self.r.pick(types);
        }
        if self.r.pct(85) {
            *fees = *f;
            for k in 0..4 {
                if self.r.pct(15) {
                    match self.r.below(5) {
                        0 => fees[2 * k] = fees[2 * k].saturating_add(1),
                        1 => fees[2 * k] = fees[2 * k].saturating_sub(1),
                        2 => fees[2 * k + 1] = fees[2 * k + 1].saturating_mul(2),
                        3 => {
                            fees[2 * k] = fees[2 * k].saturating_mul(2);
                            fees[2 * k + 1] = fees[2 * k + 1].saturating_mul(2);
                        }
                        _ => {
                            let d = fees[2 * k + 1];
                            fees[2 * k] = self.r.below(d.max(1));
                        }
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ Byzantine clients

    fn any_account(&mut self) -> Aid {
        self.r.below(self.w.names.keys.len() as u64) as Aid
    }

    fn byzantine(&mut self, mut ix: Ix, u: usize) -> Tx {
        self.w.stats.inc("fault:byzantine-request");
        let n_pools = self.w.st.pools.len();
        let mut drop_sig = false;
        for _ in 0..1 + self.r.pct(12) as usize {
            let n = ix.metas.len();
            if n < 3 {
                break;
            }
            match self.r.below(14) {
                0 => {
                    // another pool's account in the same role
                    if n_pools > 1 && ix.op.is_pool_op() {
                        let p2 = self.r.idx(n_pools);
                        let c2 = self.w.st.pools[p2].clone();
                        let c1 = self.w.st.pools.iter().find(|c| c.swap == ix.metas[0].aid).cloned();
                        if let Some(c1) = c1 {
                            let pairs = [(c1.auth, c2.auth), (c1.va, c2.va), (c1.vb, c2.vb), (c1.pm, c2.pm), (c1.fee, c2.fee), (c1.swap, c2.swap), (c1.va, c2.vb), (c1.vb, c2.va)];
                            let (f, t) = *self.r.pick(&pairs);
                            for m in ix.metas.iter_mut() {
                                if m.aid == f {
                                    m.aid = t;
                                }
                            }
                        }
                    }
                }
                1 | 2 => {
                    let i = self.r.idx(n);
                    let a = self.any_account();
                    ix.metas[i].aid = a;
                }
                3 => {
                    let (i, j) = (self.r.idx(n), self.r.idx(n));
                    let t = ix.metas[i].aid;
                    ix.metas[i].aid = ix.metas[j].aid;
                    ix.metas[j].aid = t;
                }
                4 => {
                    let (i, j) = (self.r.idx(n), self.r.idx(n));
                    ix.metas[i].aid = ix.metas[j].aid;
                }
                5 => {
                    // a pool vault as the user's account
                    let k: &[usize] = match ix.op {
                        Op::Swap { .. } | Op::SwapHost { .. } => &[3, 6],
                        Op::DepAll { .. } => &[3, 4, 8],
                        Op::WdAll { .. } => &[4, 7, 8],
                        Op::DepOne { .. } => &[3, 7],
                        Op::WdOne { .. } => &[4, 7],
                        _ => &[2],
                    };
                    let v: Vec<Aid> = match self.w.st.pools.iter().find(|c| c.swap == ix.metas[0].aid) {
                        Some(c) => vec![c.va, c.vb, c.fee],
                        None => vec![ix.metas[2].aid],
                    };
                    let (i, a) = (*self.r.pick(k), *self.r.pick(&v));
                    match ix.metas.get_mut(i) {
                        Some(m) => m.aid = a,
                        None => continue,
                    }
                    if self.r.pct(40) {
                        // and the pool authority as the "user"
                        ix.metas[2].aid = ix.metas[1].aid;
                        ix.metas[2].s = self.r.pct(10);
                        drop_sig = true;
                    }
                }
                6 => {
                    // somebody else's accounts without their signature
                    let v = self.r.idx(self.users.len());
                    let vk = self.users[v].key;
                    if self.r.pct(50) {
                        ix.metas[2].aid = vk;
                        ix.metas[2].s = self.r.pct(30);
                        drop_sig = true;
                        let me = self.users[u].key;
                        let _ = me;
                    } else {
                        ix.metas[2].aid = self.users[u].key;
                        // a victim's account as source
                        for m in ix.metas.iter_mut() {
                            let own = self.users[u].tok.iter().flatten().any(|a| *a == m.aid);
                            if own {
                                for t in 0..self.mints.len() {
                                    if self.users[u].tok[t].contains(&m.aid) {
                                        m.aid = self.users[v].tok[t][0];
                                    }
                                }
                            }
                            for i in 0..self.plans.len() {
                                if self.users[u].lp[i].contains(&m.aid) && self.r.pct(60) {
                                    m.aid = self.users[v].lp[i][0];
                                }
                            }
                        }
                    }
                }
                7 => {
                    ix.metas[2].s = false;
                    drop_sig = true;
                }
                8 => {
                    let i = self.r.idx(n);
                    ix.metas[i].w = !ix.metas[i].w;
                }
                9 => {
                    let k = self.r.range(1, 3) as usize;
                    ix.metas.truncate(n.saturating_sub(k));
                }
                10 => {
                    // a program that pretends to be the token program
                    for m in ix.metas.iter_mut() {
                        if m.aid == self.tp {
                            m.aid = if self.r.clone().pct(70) { self.fake } else { self.evil };
                        }
                    }
                }
                11 => {
                    let i = self.r.idx(n);
                    let a = self.any_account();
                    let m = Meta { aid: a, s: false, w: self.r.pct(50) };
                    if self.r.pct(50) {
                        ix.metas.insert(i, m);
                    } else {
                        ix.metas.push(m);
                    }
                }
                12 => {
                    // the pool's own vaults in every place of the user's, under the pool's authority
                    let c = self.w.st.pools.iter().find(|c| c.swap == ix.metas[0].aid).cloned();
                    if let Some(c) = c {
                        let k: Vec<usize> = match ix.op {
                            Op::Swap { .. } | Op::SwapHost { .. } => vec![3, 6],
                            Op::DepAll { .. } => vec![3, 4],
                            Op::WdAll { .. } => vec![7, 8],
                            Op::DepOne { .. } => vec![3],
                            Op::WdOne { .. } => vec![7],
                            _ => vec![],
                        };
                        let all = self.r.pct(70);
                        for i in k {
                            let own = match ix.metas.get(i) {
                                Some(x) => tok::acct(&self.w.st.accts[x.aid as usize]).map(|t| t.mint),
                                None => None,
                            };
                            if all || self.r.pct(50) {
                                if own == Some(self.w.names.keys[c.ma as usize]) {
                                    ix.metas[i].aid = c.va;
                                } else if own == Some(self.w.names.keys[c.mb as usize]) {
                                    ix.metas[i].aid = c.vb;
                                }
                            }
                        }
                        if ix.op.is_pool_op() && self.r.pct(75) {
                            ix.metas[2].aid = c.auth;
                            ix.metas[2].s = self.r.pct(10);
                            drop_sig = true;
                        }
                    }
                }
                _ => {
                    // the wrong fee account: an own pool-token account where the fee should go
                    let c = self.w.st.pools.iter().find(|c| c.swap == ix.metas[0].aid).cloned();
                    if let Some(c) = c {
                        if let Some(i) = self.plan_of(c.pm) {
                            let lp = self.users[u].lp[i][0];
                            for m in ix.metas.iter_mut() {
                                if m.aid == c.fee {
                                    m.aid = lp;
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut signers = vec![];
        for m in &ix.metas {
            if m.s && !signers.contains(&m.aid) {
                // nobody can sign for programs, vaults or derived authorities; and not for others
                let sys = self.users.iter().any(|x| x.key == m.aid) || self.plans.iter().any(|p| p.plan.swap == m.aid) || m.aid == self.bank;
                if sys && (!drop_sig || m.aid == self.users[u].key || self.plans.iter().any(|p| p.plan.swap == m.aid)) {
                    signers.push(m.aid);
                }
            }
        }
        Tx { ixs: vec![ix], signers }
    }
}

fn to_u128n(x: crate::big::U1024) -> u128 {
    if x.bits() > 127 {
        u128::MAX
    } else {
        x.as_u128()
    }
}

pub fn token_bonding_curve_id() -> Pubkey {
    token_bonding_curve::ID
}

/// One way in which accounts prepared for a creation can be unsuitable.
fn bad_genesis(r: &mut Rng, b: &mut Build, x: &PlanX, users: &[User], mints: &[Aid]) {
    let p = &x.plan;
    let attacker = b.key(users[users.len() - 1].key);
    let owner = b.key(users[0].key);
    let auth = b.key(p.auth);
    let v = if r.pct(50) { p.va } else { p.vb };
    let acc = |b: &mut Build, a: Aid| a as usize + 0 * b.accts.len();
    match r.below(22) {
        0 => {
            let i = acc(b, v);
            let n = r.below(2) * 5;
            tok::set_delegate(&mut b.accts[i], Some(&attacker), n);
        }
        1 => {
            let i = acc(b, v);
            tok::set_close(&mut b.accts[i], Some(&attacker));
        }
        2 => {
            // vault owned by somebody else
            let i = acc(b, v);
            b.accts[i].data[32..64].copy_from_slice(attacker.as_ref());
        }
        3 => {
            let m = b.key(p.ma);
            b.accts[p.vb as usize].data[..32].copy_from_slice(m.as_ref());
        }
        4 => {
            tok::set_supply(&mut b.accts[p.pm as usize], 1);
        }
        5 => {
            let a = tok::new_mint(Some(&auth), 0, Some(&attacker));
            b.accts[p.pm as usize] = a;
        }
        6 => {
            let a = tok::new_mint(Some(&attacker), 0, None);
            b.accts[p.pm as usize] = a;
        }
        7 => {
            let a = tok::new_mint(None, 0, None);
            b.accts[p.pm as usize] = a;
        }
        8 => {
            let t = if r.pct(50) { p.fee } else { p.dest };
            b.accts[t as usize].data[32..64].copy_from_slice(auth.as_ref());
        }
        9 => {
            let t = if r.pct(50) { p.fee } else { p.dest };
            let m = b.key(mints[0]);
            b.accts[t as usize].data[..32].copy_from_slice(m.as_ref());
        }
        10 => {
            let n = match r.below(8) {
                0..=2 => REC_LEN - 1,
                3 => 0,
                4 => r.idx(REC_LEN),
                _ => REC_LEN + 1 + r.idx(30),
            };
            b.accts[p.swap as usize].data = vec![0; n];
        }
        11 => {
            b.accts[p.swap as usize].owner = if r.pct(50) { evil_prog_id() } else { spl_token::id() };
        }
        12 => {
            // an old record in the account
            let rec = Rec { bump: 255, token_program: spl_token::id(), va: attacker, vb: attacker, pm: attacker, ma: attacker, mb: attacker, fee: owner, fees: [0; 8], kind: CP, p: [0; 4] };
            b.accts[p.swap as usize].data = pack_record(&rec);
        }
        13 => {
            let s = &mut b.accts[p.swap as usize];
            let k = r.idx(REC_LEN);
            if s.data.len() > k {
                s.data[k] = r.range(1, 255) as u8;
            }
        }
        14 => {
            tok::set_amount(&mut b.accts[p.va as usize], 0);
        }
        15 => {
            tok::set_amount(&mut b.accts[p.vb as usize], 0);
        }
        16 => {
            let n = r.log_range(1, 1000);
            tok::set_amount(&mut b.accts[p.va as usize], n);
        }
        17 => {
            let i = acc(b, v);
            b.accts[i].owner = fake_token_id();
        }
        18 => {
            b.accts[p.pm as usize].owner = fake_token_id();
        }
        19 => {
            let i = [p.va, p.vb, p.fee, p.dest][r.idx(4)] as usize;
            b.accts[i].data[108] = [0u8, 2, 3][r.idx(3)];
        }
        20 => {
            b.accts[p.pm as usize].data[45] = 0;
        }
        _ => {
            // fee account of the wrong owner
            b.accts[p.fee as usize].data[32..64].copy_from_slice(attacker.as_ref());
        }
    }
}

/// Rights over the fee and receiving accounts that have no bearing on the creation.
fn bystander_rights(r: &mut Rng, b: &mut Build, x: &PlanX, users: &[User]) {
    let p = &x.plan;
    let i = if r.pct(70) { p.fee } else { p.dest } as usize;
    let who = [b.key(users[0].key), b.key(users[0].key), b.key(users[users.len() - 1].key), b.key(p.auth)][r.idx(4)];
    if r.pct(50) {
        tok::set_close(&mut b.accts[i], Some(&who));
    } else {
        let n = r.below(3) * 7;
        tok::set_delegate(&mut b.accts[i], Some(&who), n);
    }
}
