//! Harness-only dispatch to the public processor API of the program (see bank::DIRECT).
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError, pubkey::Pubkey};
use token_bonding_curve::{
    constraints::SwapConstraints,
    curve::{
        base::{CurveType, SwapCurve},
        constant_price::ConstantPriceCurve,
        constant_product::ConstantProductCurve,
        fees::Fees,
        linear_price::LinearPriceCurve,
        offset::OffsetCurve,
        stable::StableCurve,
    },
    processor::Processor,
};

pub fn fees_of(f: &[u64; 8]) -> Fees {
    Fees {
        trade_fee_numerator: f[0],
        trade_fee_denominator: f[1],
        owner_trade_fee_numerator: f[2],
        owner_trade_fee_denominator: f[3],
        owner_withdraw_fee_numerator: f[4],
        owner_withdraw_fee_denominator: f[5],
        host_fee_numerator: f[6],
        host_fee_denominator: f[7],
    }
}

fn curve_type(k: u8) -> CurveType {
    match k {
        0 => CurveType::ConstantProduct,
        1 => CurveType::ConstantPrice,
        2 => CurveType::Stable,
        3 => CurveType::Offset,
        _ => CurveType::LinearPrice,
    }
}

fn curve_of(k: u8, p: &[u64; 4]) -> SwapCurve {
    SwapCurve {
        curve_type: curve_type(k),
        calculator: match k {
            0 => Box::new(ConstantProductCurve {}),
            1 => Box::new(ConstantPriceCurve { token_b_price: p[0] }),
            2 => Box::new(StableCurve { amp: p[0] }),
            3 => Box::new(OffsetCurve { token_b_offset: p[0] }),
            _ => Box::new(LinearPriceCurve {
                slope_numerator: p[0],
                slope_denominator: p[1],
                initial_token_a_price_numerator: p[2],
                initial_token_a_price_denominator: p[3],
            }),
        },
    }
}

fn u(data: &[u8], i: usize) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(&data[i * 8..i * 8 + 8]);
    u64::from_le_bytes(b)
}

pub fn dispatch(prog: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    // requests cut short by a fault never reach the processor
    let whole = match data.first() {
        Some(0) if data.len() >= 3 && data[2] == 1 => data.len() >= 164 && data.len() >= 196 + data[163] as usize,
        Some(0) => data.len() >= 99,
        _ => data.len() >= 17,
    };
    if !whole {
        return Err(ProgramError::InvalidInstructionData);
    }
    // the signer requirement of the public creation and swap instructions
    match data[0] {
        0 => {
            let kind = data[1];
            let has_con = data[2] == 1;
            let d = &data[3..];
            let mut p = [0u64; 4];
            let mut f = [0u64; 8];
            for (i, x) in p.iter_mut().enumerate() {
                *x = u(d, i);
            }
            for (i, x) in f.iter_mut().enumerate() {
                *x = u(d, 4 + i);
            }
            if infos.is_empty() || !infos[0].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if has_con {
                let mut cf = [0u64; 8];
                for (i, x) in cf.iter_mut().enumerate() {
                    *x = u(d, 12 + i);
                }
                let types = &d[160..];
                let n = types[0] as usize;
                let tys: Vec<CurveType> = types[1..1 + n].iter().map(|t| curve_type(*t)).collect();
                let mut kb = [0u8; 32];
                kb.copy_from_slice(&types[1 + n..33 + n]);
                let key = Pubkey::new_from_array(kb).to_string();
                let fees = fees_of(&cf);
                let con = Some(SwapConstraints { owner_key: &key, valid_curve_types: &tys, fees: &fees });
                Processor::process_initialize(prog, fees_of(&f), curve_of(kind, &p), infos, &con)
            } else {
                Processor::process_initialize(prog, fees_of(&f), curve_of(kind, &p), infos, &None)
            }
        }
        _ => {
            if infos.len() > 2 && !infos[2].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            Processor::process_swap(prog, u(&data[1..], 0), u(&data[1..], 1), infos)
        }
    }
}
