//! Short scenarios on one or two markets of the real program.
pub use crate::enc::*;
pub(crate) use crate::keys;
pub use crate::obs::*;
pub use crate::rt::*;
pub use crate::world::*;
pub use solana_program::pubkey::Pubkey;
pub use Side::{Ask, Bid};

pub struct S {
    pub w: World,
    pub at: usize,
}

#[macro_export]
macro_rules! want {
    ($c:expr, $($a:tt)*) => { if !$c { println!("BROKEN: {}", format!($($a)*)); std::process::exit(1); } };
}

pub fn cfg() -> Cfg {
    Cfg { salt: 3, size: 0, nm: 1, base_dec: 9, quote_dec: 6, raw: None, blpbu: 1000, qlpqu: 1_000_000, tick: 1000, fee: 0, mid: 100, rich: 0, dust: 0, active: true, deposits: false, seated: 5, reversed2: false, age: 0, crowd: 0, perm: 0 }
}

impl S {
    pub fn new(f: impl FnOnce(&mut Cfg)) -> S {
        crate::rt::init();
        let mut c = cfg();
        f(&mut c);
        match World::new(&c) {
            Ok(w) => S { w, at: 0 },
            Err(e) => {
                println!("BROKEN: {e}");
                std::process::exit(1)
            }
        }
    }
    pub fn run(&mut self, who: usize, act: Act) -> IxResult {
        let r = self.w.exec(&Op { m: self.at, who, nosign: false, act });
        if let Err(e) = self.w.refresh(self.at) {
            println!("BROKEN: {e}");
            std::process::exit(1);
        }
        r
    }
    /// must succeed
    pub fn ok(&mut self, who: usize, act: Act) -> IxResult {
        let n = format!("{act:?}");
        let r = self.run(who, act);
        want!(r.ok, "{n} failed: {}", r.err);
        r
    }
    /// must fail and change nothing
    pub fn no(&mut self, who: usize, act: Act) {
        let before = self.w.bank.accts.clone();
        let n = format!("{act:?}");
        let r = self.run(who, act);
        want!(!r.ok, "{n} was accepted");
        want!(before == self.w.bank.accts, "{n} failed but changed something");
    }
    /// a hand-made instruction must fail and change nothing
    pub fn raw_no(&mut self, ix: solana_program::instruction::Instruction) {
        let before = self.w.bank.accts.clone();
        let r = self.w.bank.exec(&ix);
        want!(!r.ok, "the instruction was accepted");
        want!(before == self.w.bank.accts, "the instruction failed but changed something");
    }
    pub fn ix(&self, who: usize, act: &Act) -> solana_program::instruction::Instruction {
        build(&self.w.mk[self.at], &self.w.actors[who], false, act)
    }
    pub fn m(&self) -> &Mkt {
        self.w.st[self.at].as_ref().unwrap()
    }
    pub fn tr(&self, who: usize) -> Tr {
        self.m().traders.get(&self.w.actors[who]).cloned().unwrap_or_default()
    }
    pub fn base(&self, who: usize) -> u64 {
        tok_amount(&self.w.bank, &keys::ata(&self.w.actors[who], &self.w.mk[self.at].base_mint)).unwrap()
    }
    pub fn quote(&self, who: usize) -> u64 {
        tok_amount(&self.w.bank, &keys::ata(&self.w.actors[who], &self.w.mk[self.at].quote_mint)).unwrap()
    }
    pub fn vaults(&self) -> (u64, u64) {
        let k = &self.w.mk[self.at];
        (tok_amount(&self.w.bank, &k.base_vault).unwrap(), tok_amount(&self.w.bank, &k.quote_vault).unwrap())
    }
    pub fn key(&self, who: usize) -> Pubkey {
        self.w.actors[who]
    }
    pub fn deposit(&mut self, who: usize, quote: u64, base: u64) {
        self.ok(who, Act::Deposit { quote, base });
    }
    pub fn status(&mut self, status: u8) {
        self.ok(AUTH, Act::ChangeStatus { status, receiver: None });
    }
    /// every event the instruction logged, in order
    pub fn evs(r: &IxResult) -> Vec<Ev> {
        r.logs.iter().flat_map(|l| decode_batch(l).unwrap().evs.into_iter().map(|e| e.1)).collect()
    }
}

pub fn po(side: Side, price: u64, base: u64) -> Pkt {
    Pkt::PostOnly { side, price, base, client: 7, reject: true, free_only: false, slot: None, ts: None, silent: false }
}
pub fn post(side: Side, price: u64, base: u64) -> Act {
    Act::Place { p: po(side, price, base), ff: false }
}
pub fn post_tif(side: Side, price: u64, base: u64, s: Option<u64>, t: Option<u64>) -> Act {
    Act::Place { p: Pkt::PostOnly { side, price, base, client: 7, reject: true, free_only: false, slot: s, ts: t, silent: false }, ff: false }
}
pub fn limit(side: Side, price: u64, base: u64, stb: Stb, ml: Option<u64>) -> Act {
    Act::Place { p: Pkt::Limit { side, price, base, stb, ml, client: 8, free_only: false, slot: None, ts: None, silent: false }, ff: false }
}
pub fn ioc(side: Side, price: Option<u64>, base: u64, quote: u64, min_base: u64, min_quote: u64) -> Pkt {
    Pkt::Ioc { side, price, base, quote, min_base, min_quote, stb: Stb::Abort, ml: None, client: 9, free_only: false, slot: None, ts: None }
}
pub fn swap(side: Side, price: Option<u64>, base: u64) -> Act {
    Act::Swap { p: ioc(side, price, base, 0, 0, 0), ff: false }
}
pub fn cond(price: u64, size: u64) -> Cond {
    Cond { price, size, slot: None, ts: None }
}
