//! The simulated Solana bank: executes transactions against an in-memory ledger, enforcing the
//! runtime's rules, with the real token-bonding-curve program and the real SPL token program.
//! Everything the program can observe (accounts, signatures, cross-program calls, log calls)
//! passes through here, so every fault is injected here.
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs::SyscallStubs, pubkey::Pubkey,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type Aid = u16;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub exec: bool,
    pub data: Vec<u8>,
}

/// Account directory: a key and a readable name for every account of a run.
#[derive(Clone, Default)]
pub struct Names {
    pub names: Vec<String>,
    pub keys: Vec<Pubkey>,
    by_key: HashMap<Pubkey, Aid>,
    by_name: HashMap<String, Aid>,
}
impl Names {
    pub fn add(&mut self, name: &str, key: Pubkey) -> Aid {
        assert!(!self.by_name.contains_key(name), "duplicate name {}", name);
        let id = self.keys.len() as Aid;
        self.names.push(name.to_string());
        self.keys.push(key);
        self.by_key.insert(key, id);
        self.by_name.insert(name.to_string(), id);
        id
    }
    pub fn by_key(&self, k: &Pubkey) -> Option<Aid> {
        self.by_key.get(k).copied()
    }
    pub fn by_name(&self, n: &str) -> Option<Aid> {
        self.by_name.get(n).copied()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Meta {
    pub aid: Aid,
    pub s: bool,
    pub w: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Fault {
    #[default]
    None,
    /// the k-th cross-program call returns an error to its caller
    CpiFail(u32),
    /// execution is cut off (compute exhausted, node killed) at the k-th system call
    Abort(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct CpiRec {
    pub program: Pubkey,
    pub data: Vec<u8>,
    pub keys: Vec<Pubkey>,
    pub ok: bool,
}

#[derive(Clone, Debug)]
pub struct IxTrace {
    pub pre: Vec<(Aid, Acct)>,
    pub post: Vec<(Aid, Acct)>,
    pub err: Option<String>,
    pub cpis: Vec<CpiRec>,
    pub panicked: bool,
    pub fault_fired: bool,
}
impl IxTrace {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
    pub fn cpi_failed(&self) -> bool {
        self.cpis.iter().any(|c| !c.ok)
    }
}

#[derive(Clone, Debug)]
pub struct TxResult {
    pub ok: bool,
    pub err: Option<String>,
    pub ixs: Vec<IxTrace>,
    pub syscalls: u32,
}

/// One instruction as the bank sees it.
#[derive(Clone, Debug)]
pub struct BankIx {
    pub prog: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

struct Ctx {
    prog: Pubkey,
    /// accounts of the running instruction as last checked
    pre: Vec<Slot>,
    privs: Vec<(Pubkey, bool, bool)>,
    fault: Fault,
    cpi_n: u32,
    sys_n: u32,
    cpis: Vec<CpiRec>,
    fired: bool,
    depth: u32,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static CLOCK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// The simulated cluster clock, as the program would see it if it asked.
pub fn set_clock(slot: u64) {
    CLOCK.with(|c| c.set(slot));
}

struct AbortSignal;

fn sys_tick() {
    let abort = CTX.with(|c| {
        let mut c = c.borrow_mut();
        match c.as_mut() {
            Some(c) => {
                c.sys_n += 1;
                if c.fault == Fault::Abort(c.sys_n - 1) {
                    c.fired = true;
                    true
                } else {
                    false
                }
            }
            None => false,
        }
    });
    if abort {
        std::panic::panic_any(AbortSignal);
    }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {
        sys_tick();
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let slot = CLOCK.with(|c| c.get());
        let k = solana_program::clock::Clock {
            slot,
            epoch_start_timestamp: 1_600_000_000,
            epoch: slot / 432_000,
            leader_schedule_epoch: slot / 432_000 + 1,
            unix_timestamp: 1_600_000_000 + (slot as i64) * 2 / 5,
        };
        unsafe {
            std::ptr::write_unaligned(var_addr as *mut solana_program::clock::Clock, k);
        }
        solana_program::entrypoint::SUCCESS
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        sys_tick();
        // privileges of the caller
        let (caller, privs, depth, inject) = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.as_mut().expect("invoke outside a transaction");
            let k = c.cpi_n;
            c.cpi_n += 1;
            let inject = c.fault == Fault::CpiFail(k);
            if inject {
                c.fired = true;
            }
            (c.prog, c.privs.clone(), c.depth, inject)
        });
        let rec_idx = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.as_mut().unwrap();
            c.cpis.push(CpiRec {
                program: ix.program_id,
                data: ix.data.clone(),
                keys: ix.accounts.iter().map(|m| m.pubkey).collect(),
                ok: false,
            });
            c.cpis.len() - 1
        });
        if inject {
            return Err(ProgramError::Custom(0xFA11));
        }
        if depth >= 4 {
            return Err(ProgramError::Custom(0xDEE9));
        }
        let mut pda = vec![];
        for s in seeds {
            match Pubkey::create_program_address(s, &caller) {
                Ok(k) => pda.push(k),
                Err(_) => return Err(ProgramError::InvalidSeeds),
            }
        }
        // the callee's program account must be among the caller's accounts
        if !privs.iter().any(|p| p.0 == ix.program_id) {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        let mut slots: Vec<Slot> = vec![];
        let mut src: Vec<usize> = vec![];
        let mut pos: Vec<usize> = vec![];
        let mut callee_privs: Vec<(Pubkey, bool, bool)> = vec![];
        for m in &ix.accounts {
            let caller_priv = privs.iter().find(|p| p.0 == m.pubkey);
            let (ps, pw) = match caller_priv {
                Some(p) => (p.1, p.2),
                None => return Err(ProgramError::NotEnoughAccountKeys),
            };
            if m.is_signer && !(ps || pda.contains(&m.pubkey)) {
                return Err(ProgramError::Custom(0x5160)); // privilege escalation: signer
            }
            if m.is_writable && !pw {
                return Err(ProgramError::Custom(0x3717)); // privilege escalation: writable
            }
            match slots.iter().position(|s| s.key == m.pubkey) {
                Some(i) => {
                    callee_privs[i].1 |= m.is_signer;
                    callee_privs[i].2 |= m.is_writable;
                    pos.push(i);
                }
                None => {
                    let i = match infos.iter().position(|a| *a.key == m.pubkey) {
                        Some(i) => i,
                        None => return Err(ProgramError::NotEnoughAccountKeys),
                    };
                    let a = &infos[i];
                    slots.push(Slot {
                        key: *a.key,
                        lamports: **a.lamports.borrow(),
                        data: a.data.borrow().to_vec(),
                        owner: *a.owner,
                        exec: a.executable,
                    });
                    src.push(i);
                    callee_privs.push((m.pubkey, m.is_signer, m.is_writable));
                    pos.push(slots.len() - 1);
                }
            }
        }
        // what the caller has changed so far must have been its to change
        let (caller_prog, caller_pre) = CTX.with(|c| {
            let c = c.borrow();
            let c = c.as_ref().unwrap();
            (c.prog, c.pre.clone())
        });
        {
            let b: Vec<Slot> = slots.iter().map(|s| caller_pre.iter().find(|p| p.key == s.key).unwrap_or(s).clone()).collect();
            let pv: Vec<(Pubkey, bool, bool)> = slots.iter().map(|s| *privs.iter().find(|p| p.0 == s.key).unwrap()).collect();
            verify_one_sided(&caller_prog, &b, &slots, &pv).map_err(|_| ProgramError::Custom(0x4171))?;
        }
        let before = slots.clone();
        let saved = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.as_mut().unwrap();
            let saved = (c.prog, std::mem::take(&mut c.privs), c.depth);
            c.prog = ix.program_id;
            c.privs = callee_privs.clone();
            c.depth += 1;
            c.pre = before.clone();
            saved
        });
        let r = run(&ix.program_id, &mut slots, &pos, &callee_privs, &ix.data);
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.as_mut().unwrap();
            c.prog = saved.0;
            c.privs = saved.1;
            c.depth = saved.2;
            c.pre = caller_pre.clone();
        });
        r?;
        verify(&ix.program_id, &before, &slots, &callee_privs).map_err(|_| ProgramError::Custom(0x4170))?;
        for (i, s) in slots.iter().enumerate() {
            let a = &infos[src[i]];
            **a.lamports.borrow_mut() = s.lamports;
            let mut d = a.data.borrow_mut();
            if d[..] != s.data[..] {
                d.copy_from_slice(&s.data);
            }
        }
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.as_mut().unwrap();
            c.cpis[rec_idx].ok = true;
            for s in slots {
                if let Some(p) = c.pre.iter_mut().find(|p| p.key == s.key) {
                    *p = s;
                }
            }
        });
        Ok(())
    }
}

#[derive(Clone)]
struct Slot {
    key: Pubkey,
    lamports: u64,
    data: Vec<u8>,
    owner: Pubkey,
    exec: bool,
}

/// Programs that exist in the simulated world.
pub fn fake_token_id() -> Pubkey {
    Pubkey::new_from_array([0xFA; 32])
}
pub fn evil_prog_id() -> Pubkey {
    Pubkey::new_from_array([0xEE; 32])
}

/// The run-time data layout of a harness-only dispatch to the program's public processor API, used
/// for what the public instruction set cannot express (pool kinds other than the two with a
/// creation instruction, the optional host account, explicit owner constraints).
pub const DIRECT: &[u8; 8] = b"\0DIRECT\0";

fn run(
    prog: &Pubkey,
    slots: &mut [Slot],
    pos: &[usize],
    privs: &[(Pubkey, bool, bool)],
    data: &[u8],
) -> ProgramResult {
    let uniq: Vec<AccountInfo> = slots
        .iter_mut()
        .enumerate()
        .map(|(i, s)| AccountInfo {
            key: &s.key,
            is_signer: privs[i].1,
            is_writable: privs[i].2,
            lamports: Rc::new(RefCell::new(&mut s.lamports)),
            data: Rc::new(RefCell::new(&mut s.data[..])),
            owner: &s.owner,
            executable: s.exec,
            rent_epoch: 0,
        })
        .collect();
    let infos: Vec<AccountInfo> = pos.iter().map(|i| uniq[*i].clone()).collect();
    if *prog == token_bonding_curve::ID {
        if data.len() > 8 && &data[..8] == DIRECT {
            crate::direct::dispatch(prog, &infos, &data[8..])
        } else {
            token_bonding_curve::entry(prog, &infos, data)
        }
    } else if *prog == spl_token::id() {
        spl_token::processor::Processor::process(prog, &infos, data)
    } else if *prog == fake_token_id() {
        // Byzantine token program: claims success and moves nothing
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

/// The runtime's account-change rules.
fn verify(prog: &Pubkey, before: &[Slot], after: &[Slot], privs: &[(Pubkey, bool, bool)]) -> Result<(), String> {
    verify_one_sided(prog, before, after, privs)?;
    let sum = |v: &[Slot]| v.iter().map(|s| s.lamports as u128).sum::<u128>();
    if sum(before) != sum(after) {
        return Err("UnbalancedInstruction".into());
    }
    Ok(())
}
fn verify_one_sided(
    prog: &Pubkey,
    before: &[Slot],
    after: &[Slot],
    privs: &[(Pubkey, bool, bool)],
) -> Result<(), String> {
    for i in 0..before.len() {
        let (b, a) = (&before[i], &after[i]);
        if b.data != a.data {
            if !privs[i].2 {
                return Err("ReadonlyDataModified".into());
            }
            if b.owner != *prog {
                return Err("ExternalAccountDataModified".into());
            }
            if b.data.len() != a.data.len() {
                return Err("AccountDataSizeChanged".into());
            }
        }
        if b.lamports != a.lamports {
            if !privs[i].2 {
                return Err("ReadonlyLamportChange".into());
            }
            if a.lamports < b.lamports && b.owner != *prog {
                return Err("ExternalAccountLamportSpend".into());
            }
        }
    }
    Ok(())
}

pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("TBCSIM_PANICS").is_ok() {
            eprintln!("panic: {}", info);
            if std::env::var("TBCSIM_BT").is_ok() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
    }));
}

/// Executes one instruction on `accts` (not committed on failure).
fn exec_ix(
    names: &Names,
    accts: &mut [Acct],
    ix: &BankIx,
    privs_tx: &dyn Fn(Aid) -> (bool, bool),
    fault: Fault,
    sys_base: &mut u32,
    cpi_base: &mut u32,
) -> IxTrace {
    let mut aids: Vec<Aid> = vec![];
    let mut pos = vec![];
    for m in &ix.metas {
        match aids.iter().position(|a| *a == m.aid) {
            Some(i) => pos.push(i),
            None => {
                aids.push(m.aid);
                pos.push(aids.len() - 1);
            }
        }
    }
    let mut slots: Vec<Slot> = aids
        .iter()
        .map(|a| {
            let x = &accts[*a as usize];
            Slot {
                key: names.keys[*a as usize],
                lamports: x.lamports,
                data: x.data.clone(),
                owner: x.owner,
                exec: x.exec,
            }
        })
        .collect();
    let privs: Vec<(Pubkey, bool, bool)> = aids
        .iter()
        .map(|a| {
            let (s, w) = privs_tx(*a);
            (names.keys[*a as usize], s, w)
        })
        .collect();
    let before = slots.clone();
    let pre: Vec<(Aid, Acct)> = aids.iter().map(|a| (*a, accts[*a as usize].clone())).collect();
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx {
            prog: ix.prog,
            pre: before.clone(),
            privs: privs.clone(),
            fault,
            cpi_n: *cpi_base,
            sys_n: *sys_base,
            cpis: vec![],
            fired: false,
            depth: 1,
        })
    });
    let r = catch_unwind(AssertUnwindSafe(|| run(&ix.prog, &mut slots, &pos, &privs, &ix.data)));
    let ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
    *sys_base = ctx.sys_n;
    *cpi_base = ctx.cpi_n;
    let mut panicked = false;
    let mut err = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(format!("{:?}", e)),
        Err(p) => {
            if p.downcast_ref::<AbortSignal>().is_some() {
                Some("aborted".to_string())
            } else {
                panicked = true;
                Some("panicked".to_string())
            }
        }
    };
    if err.is_none() {
        // changes since the last cross-program call, and lamports over all
        let sum = |v: &[Slot]| v.iter().map(|s| s.lamports as u128).sum::<u128>();
        if let Err(e) = verify_one_sided(&ix.prog, &ctx.pre, &slots, &privs) {
            err = Some(e);
        } else if sum(&before) != sum(&slots) {
            err = Some("UnbalancedInstruction".into());
        }
    }
    let post = if err.is_none() {
        let mut v = vec![];
        for (i, s) in slots.into_iter().enumerate() {
            let a = &mut accts[aids[i] as usize];
            a.lamports = s.lamports;
            a.data = s.data;
            v.push((aids[i], a.clone()));
        }
        v
    } else {
        pre.clone()
    };
    IxTrace { pre, post, err, cpis: ctx.cpis, panicked, fault_fired: ctx.fired }
}

/// Executes a transaction atomically on `accts`.
pub fn exec_tx(names: &Names, accts: &mut [Acct], ixs: &[BankIx], signers: &[Aid], fault: Fault) -> TxResult {
    // message-level privileges: the union over all instructions, signatures as really given
    let mut wr: Vec<Aid> = vec![];
    let mut need: Vec<Aid> = vec![];
    for ix in ixs {
        for m in &ix.metas {
            if m.w && !wr.contains(&m.aid) {
                wr.push(m.aid);
            }
            if m.s && !need.contains(&m.aid) {
                need.push(m.aid);
            }
        }
    }
    // a signature that is requested but missing makes the transaction invalid before execution
    for n in &need {
        if !signers.contains(n) {
            return TxResult { ok: false, err: Some("SignatureFailure".into()), ixs: vec![], syscalls: 0 };
        }
    }
    let privs = |a: Aid| (need.contains(&a), wr.contains(&a));
    let mut touched: Vec<(Aid, Acct)> = vec![];
    let mut out = TxResult { ok: true, err: None, ixs: vec![], syscalls: 0 };
    let mut cpi_base = 0;
    for ix in ixs {
        for m in &ix.metas {
            if !touched.iter().any(|t| t.0 == m.aid) {
                touched.push((m.aid, accts[m.aid as usize].clone()));
            }
        }
        let t = exec_ix(names, accts, ix, &privs, fault, &mut out.syscalls, &mut cpi_base);
        let e = t.err.clone();
        out.ixs.push(t);
        if e.is_some() {
            out.ok = false;
            out.err = e;
            break;
        }
    }
    if !out.ok {
        for (a, x) in touched {
            accts[a as usize] = x;
        }
    } else {
        // accounts drained of lamports are purged at the end of the transaction
        for (a, _) in touched {
            let x = &mut accts[a as usize];
            if x.lamports == 0 && !x.data.is_empty() && !x.exec {
                x.data = vec![];
                x.owner = solana_program::system_program::id();
            }
        }
    }
    out
}
