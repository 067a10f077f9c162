//! Big integers for the exact oracles.
#![allow(clippy::all)]
use uint::construct_uint;
construct_uint! { pub struct U512(8); }
construct_uint! { pub struct U1024(16); }

pub fn w(x: u128) -> U512 {
    U512::from(x)
}
pub fn wide(x: U512) -> U1024 {
    let mut o = [0u64; 16];
    o[..8].copy_from_slice(&x.0);
    U1024(o)
}
pub fn narrow(x: U1024) -> U512 {
    for i in 8..16 {
        assert!(x.0[i] == 0, "narrow overflow");
    }
    let mut o = [0u64; 8];
    o.copy_from_slice(&x.0[..8]);
    U512(o)
}
pub fn to_u128(x: U512) -> u128 {
    if x > U512::from(u128::MAX) {
        u128::MAX
    } else {
        x.as_u128()
    }
}
/// floor(sqrt(n))
pub fn isqrt(n: U1024) -> U1024 {
    let one = U1024::from(1u64);
    if n.is_zero() {
        return n;
    }
    let mut x = one << ((n.bits() + 1) / 2);
    loop {
        let y = (x + n / x) >> 1;
        if y >= x {
            return x;
        }
        x = y;
    }
}
pub fn isqrt512(n: U512) -> U512 {
    let one = U512::from(1u64);
    if n.is_zero() {
        return n;
    }
    let mut x = one << ((n.bits() + 1) / 2);
    loop {
        let y = (x + n / x) >> 1;
        if y >= x {
            return x;
        }
        x = y;
    }
}
pub fn ceil_div(a: U512, b: U512) -> U512 {
    let q = a / b;
    if q * b == a {
        q
    } else {
        q + U512::from(1u64)
    }
}
