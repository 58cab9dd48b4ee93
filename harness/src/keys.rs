//! Deterministic keys and cached program-derived addresses.
use solana_program::{hash::hashv, pubkey::Pubkey};
use std::cell::RefCell;
use std::collections::HashMap;
use std::str::FromStr;

pub fn ata_program() -> Pubkey {
    Pubkey::from_str("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL").unwrap()
}
pub fn native_loader() -> Pubkey {
    Pubkey::from_str("BPFLoaderUpgradeab1e11111111111111111111111").unwrap()
}
pub fn log_authority() -> Pubkey {
    Pubkey::from_str("7aDTsspkQNGKmrexAN7FLx9oxU3iPczSSvHNggyuqYkR").unwrap()
}
pub fn program() -> Pubkey {
    Pubkey::from_str("PhoeNiXZ8ByJGLkxNfZRnkUfjvmuYqLR89jjFHGqdXY").unwrap()
}
pub fn token_program() -> Pubkey {
    Pubkey::from_str("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA").unwrap()
}
/// program id of the stand-in attacker program
pub fn evil() -> Pubkey {
    key("evil program", 0)
}
pub fn system() -> Pubkey {
    Pubkey::default()
}

pub fn key(label: &str, salt: u64) -> Pubkey {
    Pubkey::new_from_array(hashv(&[b"phx-verif", label.as_bytes(), &salt.to_le_bytes()]).to_bytes())
}

thread_local! {
    static CACHE: RefCell<HashMap<(u8, Pubkey, Pubkey), (Pubkey, u8)>> = RefCell::new(HashMap::new());
}

fn cached(kind: u8, a: &Pubkey, b: &Pubkey, f: impl FnOnce() -> (Pubkey, u8)) -> (Pubkey, u8) {
    if let Some(r) = CACHE.with(|c| c.borrow().get(&(kind, *a, *b)).copied()) {
        return r;
    }
    let r = f();
    CACHE.with(|c| c.borrow_mut().insert((kind, *a, *b), r));
    r
}

pub fn vault(market: &Pubkey, mint: &Pubkey) -> (Pubkey, u8) {
    cached(0, market, mint, || Pubkey::find_program_address(&[b"vault", market.as_ref(), mint.as_ref()], &program()))
}
pub fn seat(market: &Pubkey, trader: &Pubkey) -> (Pubkey, u8) {
    cached(1, market, trader, || Pubkey::find_program_address(&[b"seat", market.as_ref(), trader.as_ref()], &program()))
}
pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    cached(2, owner, mint, || Pubkey::find_program_address(&[owner.as_ref(), token_program().as_ref(), mint.as_ref()], &ata_program())).0
}
