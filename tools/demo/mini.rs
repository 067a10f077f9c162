//! A miniature in-memory ledger for demonstrations: runs the real token-bonding-curve program and the
//! real SPL token program, all-or-nothing per transaction. Nothing outside this process is touched.
#![allow(dead_code)]
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, hash::hash, instruction::Instruction,
    program_error::ProgramError, program_option::COption, program_pack::Pack,
    program_stubs::{set_syscall_stubs, SyscallStubs}, pubkey::Pubkey,
};
use spl_token::state::{Account, AccountState, Mint};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use token_bonding_curve::{
    constraints::SwapConstraints,
    curve::{
        base::{CurveType, SwapCurve}, constant_price::ConstantPriceCurve,
        constant_product::ConstantProductCurve, fees::Fees, linear_price::LinearPriceCurve,
        offset::OffsetCurve, stable::StableCurve,
    },
    processor::Processor,
};

pub const MAX: u64 = u64::MAX;
pub type R = Result<(), String>;

#[derive(Clone, PartialEq, Debug)]
pub struct Acct {
    pub owner: Pubkey,
    pub data: Vec<u8>,
}

thread_local! {
    static SLOT: Cell<u64> = Cell::new(1);
    /// number of the token-program call that fails, counted from 0
    static FAIL: Cell<Option<u32>> = Cell::new(None);
    static CALLS: Cell<u32> = Cell::new(0);
    static PRIV: RefCell<(Vec<Pubkey>, Vec<Pubkey>)> = RefCell::new((vec![], vec![]));
}
struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, at: *mut u8) -> u64 {
        let c = solana_program::clock::Clock { slot: SLOT.with(|s| s.get()), ..Default::default() };
        unsafe { std::ptr::write_unaligned(at as *mut solana_program::clock::Clock, c) };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let n = CALLS.with(|c| c.replace(c.get() + 1));
        if FAIL.with(|f| f.get()) == Some(n) {
            return Err(ProgramError::Custom(77));
        }
        if ix.program_id != spl_token::id() {
            return Err(ProgramError::IncorrectProgramId);
        }
        let pdas: Vec<Pubkey> = seeds.iter().filter_map(|s| Pubkey::create_program_address(s, &token_bonding_curve::ID).ok()).collect();
        let mut sub = vec![];
        for m in &ix.accounts {
            let mut i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?.clone();
            let (s, w) = PRIV.with(|p| (p.borrow().0.contains(&m.pubkey), p.borrow().1.contains(&m.pubkey)));
            if m.is_signer && !s && !pdas.contains(&m.pubkey) || m.is_writable && !w {
                return Err(ProgramError::Custom(78));
            }
            i.is_signer = m.is_signer;
            i.is_writable = m.is_writable;
            sub.push(i);
        }
        spl_token::processor::Processor::process(&ix.program_id, &sub, &ix.data)
    }
}

#[derive(Clone)]
pub struct Ledger {
    pub m: BTreeMap<Pubkey, Acct>,
    n: u64,
}

#[derive(Clone, Copy)]
pub struct Meta(pub Pubkey, pub bool, pub bool);
pub fn s(k: Pubkey) -> Meta {
    Meta(k, true, false)
}
pub fn w(k: Pubkey) -> Meta {
    Meta(k, false, true)
}
pub fn r(k: Pubkey) -> Meta {
    Meta(k, false, false)
}

#[derive(Clone, Copy)]
pub struct Pool {
    pub swap: Pubkey,
    pub auth: Pubkey,
    pub va: Pubkey,
    pub vb: Pubkey,
    pub pm: Pubkey,
    pub fee: Pubkey,
    /// first holder's pool-token account, and the fee account's owner, and the holder
    pub lp: Pubkey,
    pub ma: Pubkey,
    pub mb: Pubkey,
    pub owner: Pubkey,
}

#[derive(Clone, Copy)]
pub struct User {
    pub key: Pubkey,
    pub a: Pubkey,
    pub b: Pubkey,
    pub lp: Pubkey,
}

pub fn fees(f: [u64; 8]) -> Fees {
    Fees {
        trade_fee_numerator: f[0],
        trade_fee_denominator: f[1],
        owner_trade_fee_numerator: f[2],
        owner_trade_fee_denominator: f[3],
        owner_withdraw_fee_numerator: f[4],
        owner_withdraw_fee_denominator: f[5],
        host_fee_numerator: f[6],
        host_fee_denominator: f[7],
    }
}
pub fn product() -> SwapCurve {
    SwapCurve { curve_type: CurveType::ConstantProduct, calculator: Box::new(ConstantProductCurve {}) }
}
pub fn price(p: u64) -> SwapCurve {
    SwapCurve { curve_type: CurveType::ConstantPrice, calculator: Box::new(ConstantPriceCurve { token_b_price: p }) }
}
pub fn stable(amp: u64) -> SwapCurve {
    SwapCurve { curve_type: CurveType::Stable, calculator: Box::new(StableCurve { amp }) }
}
pub fn offset(o: u64) -> SwapCurve {
    SwapCurve { curve_type: CurveType::Offset, calculator: Box::new(OffsetCurve { token_b_offset: o }) }
}
pub fn linear(sn: u64, sd: u64, an: u64, ad: u64) -> SwapCurve {
    SwapCurve {
        curve_type: CurveType::LinearPrice,
        calculator: Box::new(LinearPriceCurve {
            slope_numerator: sn,
            slope_denominator: sd,
            initial_token_a_price_numerator: an,
            initial_token_a_price_denominator: ad,
        }),
    }
}

pub fn ix(name: &str, args: &[u64]) -> Vec<u8> {
    let mut d = hash(format!("global:{}", name).as_bytes()).to_bytes()[..8].to_vec();
    for x in args {
        d.extend_from_slice(&x.to_le_bytes());
    }
    d
}

impl Ledger {
    pub fn new() -> Ledger {
        set_syscall_stubs(Box::new(Stubs));
        let mut l = Ledger { m: BTreeMap::new(), n: 0 };
        l.m.insert(spl_token::id(), Acct { owner: Pubkey::new_from_array([9; 32]), data: vec![] });
        l
    }
    pub fn slot(&self, n: u64) {
        SLOT.with(|s| s.set(n));
    }
    pub fn fail_call(&self, n: Option<u32>) {
        FAIL.with(|f| f.set(n));
    }
    pub fn key(&mut self) -> Pubkey {
        self.n += 1;
        Pubkey::new_from_array(hash(format!("key {}", self.n).as_bytes()).to_bytes())
    }
    pub fn person(&mut self) -> Pubkey {
        let k = self.key();
        self.m.insert(k, Acct { owner: Pubkey::default(), data: vec![] });
        k
    }
    pub fn mint(&mut self, auth: Pubkey) -> Pubkey {
        let k = self.key();
        let mut d = vec![0; Mint::LEN];
        let m = Mint { mint_authority: COption::Some(auth), supply: 0, decimals: 2, is_initialized: true, freeze_authority: COption::None };
        Mint::pack(m, &mut d).unwrap();
        self.m.insert(k, Acct { owner: spl_token::id(), data: d });
        k
    }
    pub fn token(&mut self, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
        let k = self.key();
        let mut d = vec![0; Account::LEN];
        let a = Account {
            mint,
            owner,
            amount,
            delegate: COption::None,
            state: AccountState::Initialized,
            is_native: COption::None,
            delegated_amount: 0,
            close_authority: COption::None,
        };
        Account::pack(a, &mut d).unwrap();
        self.m.insert(k, Acct { owner: spl_token::id(), data: d });
        k
    }
    pub fn get(&self, k: Pubkey) -> Account {
        Account::unpack_from_slice(&self.m[&k].data).unwrap()
    }
    pub fn edit(&mut self, k: Pubkey, f: impl FnOnce(&mut Account)) {
        let mut a = self.get(k);
        f(&mut a);
        Account::pack(a, &mut self.m.get_mut(&k).unwrap().data).unwrap();
    }
    pub fn bal(&self, k: Pubkey) -> u64 {
        self.get(k).amount
    }
    pub fn supply(&self, mint: Pubkey) -> u64 {
        Mint::unpack_from_slice(&self.m[&mint].data).unwrap().supply
    }
    pub fn freeze(&mut self, k: Pubkey, on: bool) {
        self.edit(k, |a| a.state = if on { AccountState::Frozen } else { AccountState::Initialized });
    }

    /// One transaction with one instruction: all or nothing, privileges enforced.
    pub fn call(&mut self, metas: &[Meta], f: impl FnOnce(&Pubkey, &[AccountInfo]) -> ProgramResult) -> R {
        let prog = token_bonding_curve::ID;
        let mut infos: Vec<AccountInfo> = vec![];
        for m in metas {
            if let Some(i) = infos.iter().find(|i| *i.key == m.0) {
                let i = i.clone();
                infos.push(i);
                continue;
            }
            let a = self.m.get(&m.0).cloned().unwrap_or(Acct { owner: Pubkey::default(), data: vec![] });
            let any = |p: fn(&Meta) -> bool| metas.iter().any(|x| x.0 == m.0 && p(x));
            infos.push(AccountInfo::new(
                Box::leak(Box::new(m.0)),
                any(|x| x.1),
                any(|x| x.2),
                Box::leak(Box::new(1_000_000u64)),
                Box::leak(a.data.into_boxed_slice()),
                Box::leak(Box::new(a.owner)),
                m.0 == spl_token::id(),
                0,
            ));
        }
        PRIV.with(|p| {
            *p.borrow_mut() = (
                infos.iter().filter(|i| i.is_signer).map(|i| *i.key).collect(),
                infos.iter().filter(|i| i.is_writable).map(|i| *i.key).collect(),
            )
        });
        CALLS.with(|c| c.set(0));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&prog, &infos)));
        FAIL.with(|c| c.set(None));
        match res {
            Err(_) => return Err("panicked".into()),
            Ok(Err(e)) => return Err(format!("{:?}", e)),
            Ok(Ok(())) => {}
        }
        for i in &infos {
            let data = i.data.borrow().to_vec();
            if let Some(a) = self.m.get_mut(i.key) {
                if a.data != data {
                    if !i.is_writable {
                        return Err("read-only account modified".into());
                    }
                    a.data = data;
                }
            }
        }
        Ok(())
    }
    pub fn send(&mut self, metas: &[Meta], data: Vec<u8>) -> R {
        self.call(metas, |p, i| token_bonding_curve::entry(p, i, &data))
    }
    /// A plain SPL token instruction.
    pub fn spl(&mut self, metas: &[Meta], data: Vec<u8>) -> R {
        self.call(metas, |_, i| spl_token::processor::Processor::process(&spl_token::id(), i, &data))
    }
    pub fn transfer(&mut self, from: Pubkey, to: Pubkey, by: Pubkey, n: u64) -> R {
        let mut d = vec![3];
        d.extend_from_slice(&n.to_le_bytes());
        self.spl(&[w(from), w(to), s(by)], d)
    }

    /// Accounts for a pool, not created yet; both vaults funded.
    pub fn plan(&mut self, ma: Pubkey, mb: Pubkey, a: u64, b: u64) -> Pool {
        let swap = self.key();
        self.m.insert(swap, Acct { owner: token_bonding_curve::ID, data: vec![0; token_bonding_curve::state::SwapVersion::LATEST_LEN] });
        let (auth, _) = Pubkey::find_program_address(&[&swap.to_bytes()], &token_bonding_curve::ID);
        self.m.insert(auth, Acct { owner: Pubkey::default(), data: vec![] });
        let owner = self.person();
        let pm = self.mint(auth);
        let va = self.token(ma, auth, a);
        let vb = self.token(mb, auth, b);
        let fee = self.token(pm, owner, 0);
        let lp = self.token(pm, owner, 0);
        Pool { swap, auth, va, vb, pm, fee, lp, ma, mb, owner }
    }
    pub fn init_metas(p: &Pool) -> Vec<Meta> {
        vec![Meta(p.swap, true, true), r(p.auth), r(p.va), r(p.vb), w(p.pm), r(p.fee), w(p.lp), r(spl_token::id())]
    }
    pub fn init(&mut self, p: &Pool, curve: SwapCurve, f: [u64; 8]) -> R {
        self.init_con(p, curve, f, None)
    }
    pub fn init_con(&mut self, p: &Pool, curve: SwapCurve, f: [u64; 8], con: Option<SwapConstraints>) -> R {
        self.call(&Self::init_metas(p), |id, i| Processor::process_initialize(id, fees(f), curve, i, &con))
    }
    pub fn pool(&mut self, curve: SwapCurve, f: [u64; 8], a: u64, b: u64) -> Pool {
        let x = self.person();
        let (ma, mb) = (self.mint(x), self.mint(x));
        let p = self.plan(ma, mb, a, b);
        self.init(&p, curve, f).expect("pool creation");
        p
    }
    pub fn user(&mut self, p: &Pool, a: u64, b: u64) -> User {
        let key = self.person();
        User { key, a: self.token(p.ma, key, a), b: self.token(p.mb, key, b), lp: self.token(p.pm, key, 0) }
    }
    /// The first holder (who is also the fee owner) as a user.
    pub fn first(&mut self, p: &Pool, a: u64, b: u64) -> User {
        User { key: p.owner, a: self.token(p.ma, p.owner, a), b: self.token(p.mb, p.owner, b), lp: p.lp }
    }

    pub fn swap(&mut self, p: &Pool, u: &User, a2b: bool, amt: u64, min: u64) -> R {
        let (vs, vd, us, ud) = if a2b { (p.va, p.vb, u.a, u.b) } else { (p.vb, p.va, u.b, u.a) };
        self.send(
            &[r(p.swap), r(p.auth), s(u.key), w(us), w(vs), w(vd), w(ud), w(p.pm), w(p.fee), r(spl_token::id())],
            ix("swap", &[amt, min]),
        )
    }
    pub fn swap_host(&mut self, p: &Pool, u: &User, a2b: bool, amt: u64, min: u64, host: Pubkey) -> R {
        let (vs, vd, us, ud) = if a2b { (p.va, p.vb, u.a, u.b) } else { (p.vb, p.va, u.b, u.a) };
        self.call(
            &[r(p.swap), r(p.auth), s(u.key), w(us), w(vs), w(vd), w(ud), w(p.pm), w(p.fee), r(spl_token::id()), w(host)],
            |id, i| Processor::process_swap(id, amt, min, i),
        )
    }
    pub fn dep_all(&mut self, p: &Pool, u: &User, pt: u64, xa: u64, xb: u64) -> R {
        self.send(
            &[r(p.swap), r(p.auth), s(u.key), w(u.a), w(u.b), w(p.va), w(p.vb), w(p.pm), w(u.lp), r(spl_token::id())],
            ix("deposit_all_token_types", &[pt, xa, xb]),
        )
    }
    pub fn wd_all(&mut self, p: &Pool, u: &User, pt: u64, na: u64, nb: u64) -> R {
        self.send(
            &[r(p.swap), r(p.auth), s(u.key), w(p.pm), w(u.lp), w(p.va), w(p.vb), w(u.a), w(u.b), w(p.fee), r(spl_token::id())],
            ix("withdraw_all_token_types", &[pt, na, nb]),
        )
    }
    pub fn dep_one(&mut self, p: &Pool, u: &User, a: bool, amt: u64, min: u64) -> R {
        let src = if a { u.a } else { u.b };
        self.send(
            &[r(p.swap), r(p.auth), s(u.key), w(src), w(p.va), w(p.vb), w(p.pm), w(u.lp), r(spl_token::id())],
            ix("deposit_single_token_type_exact_amount_in", &[amt, min]),
        )
    }
    pub fn wd_one(&mut self, p: &Pool, u: &User, a: bool, amt: u64, max: u64) -> R {
        let dst = if a { u.a } else { u.b };
        self.send(
            &[r(p.swap), r(p.auth), s(u.key), w(p.pm), w(u.lp), w(p.va), w(p.vb), w(dst), w(p.fee), r(spl_token::id())],
            ix("withdraw_single_token_type_exact_amount_out", &[amt, max]),
        )
    }
}
