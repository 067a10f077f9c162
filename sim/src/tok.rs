//! An independent model of the token program: layouts, and transfer / mint / burn on a scratch ledger.
use crate::bank::{Acct, Aid, Names};
use solana_program::pubkey::Pubkey;

pub const ACCT_LEN: usize = 165;
pub const MINT_LEN: usize = 82;

fn key_at(d: &[u8], o: usize) -> Pubkey {
    let mut k = [0u8; 32];
    k.copy_from_slice(&d[o..o + 32]);
    Pubkey::new_from_array(k)
}
pub fn u64_at(d: &[u8], o: usize) -> u64 {
    let mut k = [0u8; 8];
    k.copy_from_slice(&d[o..o + 8]);
    u64::from_le_bytes(k)
}
/// optional key: tag word 0 / 1
fn opt_key(d: &[u8], o: usize) -> Result<Option<Pubkey>, ()> {
    match &d[o..o + 4] {
        [0, 0, 0, 0] => Ok(None),
        [1, 0, 0, 0] => Ok(Some(key_at(d, o + 4))),
        _ => Err(()),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TAcct {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub delegated: u64,
    pub frozen: bool,
    pub close: Option<Pubkey>,
    /// wraps the chain's own coin: the lamports move along
    pub native: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TMint {
    pub auth: Option<Pubkey>,
    pub supply: u64,
    pub freeze: Option<Pubkey>,
}

/// An intact, initialised token account of the token program (as to bytes).
pub fn parse_acct(d: &[u8]) -> Option<TAcct> {
    if d.len() != ACCT_LEN {
        return None;
    }
    let frozen = match d[108] {
        1 => false,
        2 => true,
        _ => return None,
    };
    // is_native tag must be valid too
    match &d[109..113] {
        [0, 0, 0, 0] | [1, 0, 0, 0] => {}
        _ => return None,
    }
    Some(TAcct {
        mint: key_at(d, 0),
        owner: key_at(d, 32),
        amount: u64_at(d, 64),
        delegate: opt_key(d, 72).ok()?,
        delegated: u64_at(d, 121),
        frozen,
        close: opt_key(d, 129).ok()?,
        native: d[109] == 1,
    })
}
pub fn parse_mint(d: &[u8]) -> Option<TMint> {
    if d.len() != MINT_LEN || d[45] != 1 {
        return None;
    }
    Some(TMint { auth: opt_key(d, 0).ok()?, supply: u64_at(d, 36), freeze: opt_key(d, 46).ok()? })
}
pub fn acct(a: &Acct) -> Option<TAcct> {
    if a.owner != spl_token::id() {
        return None;
    }
    parse_acct(&a.data)
}
pub fn mint(a: &Acct) -> Option<TMint> {
    if a.owner != spl_token::id() {
        return None;
    }
    parse_mint(&a.data)
}
pub fn amount(a: &Acct) -> u64 {
    acct(a).map(|t| t.amount).unwrap_or(0)
}
pub fn supply(a: &Acct) -> u64 {
    mint(a).map(|t| t.supply).unwrap_or(0)
}

pub fn new_acct(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    let mut d = vec![0u8; ACCT_LEN];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    Acct { lamports: 2_039_280, owner: spl_token::id(), exec: false, data: d }
}
pub fn new_mint(auth: Option<&Pubkey>, supply: u64, freeze: Option<&Pubkey>) -> Acct {
    let mut d = vec![0u8; MINT_LEN];
    if let Some(k) = auth {
        d[0] = 1;
        d[4..36].copy_from_slice(k.as_ref());
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = 9;
    d[45] = 1;
    if let Some(k) = freeze {
        d[46] = 1;
        d[50..82].copy_from_slice(k.as_ref());
    }
    Acct { lamports: 1_461_600, owner: spl_token::id(), exec: false, data: d }
}
/// Makes a token account one of wrapped coin, holding what it says it holds.
pub fn make_native(a: &mut Acct) {
    let rent = a.lamports;
    a.data[109..113].copy_from_slice(&[1, 0, 0, 0]);
    a.data[113..121].copy_from_slice(&rent.to_le_bytes());
    a.lamports = rent + u64_at(&a.data, 64);
}
pub fn set_amount(a: &mut Acct, v: u64) {
    a.data[64..72].copy_from_slice(&v.to_le_bytes());
}
pub fn set_supply(a: &mut Acct, v: u64) {
    a.data[36..44].copy_from_slice(&v.to_le_bytes());
}
pub fn set_delegate(a: &mut Acct, k: Option<&Pubkey>, v: u64) {
    match k {
        Some(k) => {
            a.data[72..76].copy_from_slice(&[1, 0, 0, 0]);
            a.data[76..108].copy_from_slice(k.as_ref());
        }
        None => {
            // the token program clears only the tag
            a.data[72..76].copy_from_slice(&[0, 0, 0, 0]);
        }
    }
    a.data[121..129].copy_from_slice(&v.to_le_bytes());
}
pub fn set_close(a: &mut Acct, k: Option<&Pubkey>) {
    match k {
        Some(k) => {
            a.data[129..133].copy_from_slice(&[1, 0, 0, 0]);
            a.data[133..165].copy_from_slice(k.as_ref());
        }
        None => a.data[129..133].copy_from_slice(&[0, 0, 0, 0]),
    }
}

/// Who may act and what may be written in the transaction being judged.
pub struct Privs<'a> {
    pub names: &'a Names,
    pub signers: &'a [Aid],
    pub writable: &'a [Aid],
    /// program-derived signer of the pool
    pub pda: Option<Pubkey>,
}
impl<'a> Privs<'a> {
    fn signed(&self, k: &Pubkey) -> bool {
        self.pda == Some(*k) || self.names.by_key(k).map(|a| self.signers.contains(&a)).unwrap_or(false)
    }
    fn w(&self, a: Aid) -> bool {
        self.writable.contains(&a)
    }
}

type R = Result<(), &'static str>;

fn debit_right(s: &mut TAcct, auth: &Pubkey, amt: u64, p: &Privs, self_t: bool) -> R {
    if s.delegate == Some(*auth) {
        if !p.signed(auth) {
            return Err("delegate did not sign");
        }
        if s.delegated < amt {
            return Err("allowance too small");
        }
        if !self_t {
            s.delegated -= amt;
            if s.delegated == 0 {
                s.delegate = None;
            }
        }
        Ok(())
    } else if s.owner == *auth && p.signed(auth) {
        Ok(())
    } else {
        Err("debit not authorised")
    }
}

fn put(l: &mut [Acct], id: Aid, before: &TAcct, after: &TAcct) {
    let a = &mut l[id as usize];
    set_amount(a, after.amount);
    if before.delegate != after.delegate || before.delegated != after.delegated {
        set_delegate(a, after.delegate.as_ref(), after.delegated);
    }
}

pub fn transfer(l: &mut [Acct], p: &Privs, src: Aid, dst: Aid, auth: &Pubkey, amt: u64) -> R {
    let s0 = acct(&l[src as usize]).ok_or("source is not a token account")?;
    let d0 = acct(&l[dst as usize]).ok_or("destination is not a token account")?;
    if s0.frozen || d0.frozen {
        return Err("frozen");
    }
    if s0.amount < amt {
        return Err("insufficient funds");
    }
    if s0.mint != d0.mint {
        return Err("mint mismatch");
    }
    let mut s = s0.clone();
    debit_right(&mut s, auth, amt, p, src == dst)?;
    if src == dst {
        return Ok(());
    }
    s.amount -= amt;
    let mut d = d0.clone();
    d.amount = d.amount.checked_add(amt).ok_or("destination overflow")?;
    if !p.w(src) || !p.w(dst) {
        return Err("account not writable");
    }
    if s0.native {
        let a = l[src as usize].lamports.checked_sub(amt).ok_or("lamports")?;
        let b = l[dst as usize].lamports.checked_add(amt).ok_or("lamports")?;
        l[src as usize].lamports = a;
        l[dst as usize].lamports = b;
    }
    put(l, src, &s0, &s);
    put(l, dst, &d0, &d);
    Ok(())
}

pub fn mint_to(l: &mut [Acct], p: &Privs, m: Aid, dst: Aid, auth: &Pubkey, amt: u64) -> R {
    let d0 = acct(&l[dst as usize]).ok_or("destination is not a token account")?;
    if d0.frozen {
        return Err("frozen");
    }
    if d0.native {
        return Err("wrapped coin is not minted");
    }
    if d0.mint != p.names.keys[m as usize] {
        return Err("mint mismatch");
    }
    let m0 = mint(&l[m as usize]).ok_or("not a mint")?;
    if m0.auth != Some(*auth) || !p.signed(auth) {
        return Err("minting not authorised");
    }
    let d = TAcct { amount: d0.amount.checked_add(amt).ok_or("overflow")?, ..d0.clone() };
    let s = m0.supply.checked_add(amt).ok_or("supply overflow")?;
    if !(p.w(m) && p.w(dst)) {
        return Err("account not writable");
    }
    put(l, dst, &d0, &d);
    set_supply(&mut l[m as usize], s);
    Ok(())
}

pub fn burn(l: &mut [Acct], p: &Privs, src: Aid, m: Aid, auth: &Pubkey, amt: u64) -> R {
    let s0 = acct(&l[src as usize]).ok_or("source is not a token account")?;
    let m0 = mint(&l[m as usize]).ok_or("not a mint")?;
    if s0.frozen {
        return Err("frozen");
    }
    if s0.native {
        return Err("wrapped coin is not burned");
    }
    if s0.amount < amt {
        return Err("insufficient funds");
    }
    if s0.mint != p.names.keys[m as usize] {
        return Err("mint mismatch");
    }
    let mut s = s0.clone();
    debit_right(&mut s, auth, amt, p, false)?;
    s.amount -= amt;
    let sup = m0.supply.checked_sub(amt).ok_or("supply underflow")?;
    if !(p.w(m) && p.w(src)) {
        return Err("account not writable");
    }
    put(l, src, &s0, &s);
    set_supply(&mut l[m as usize], sup);
    Ok(())
}
