//! A generated world: mints, wallets, one or two markets created through the program, seats.
use crate::enc::*;
use crate::keys;
use crate::obs::*;
use crate::rt::{Acct, Bank, IxResult};
use crate::tape::Src;
use solana_program::{program_option::COption, program_pack::Pack, pubkey::Pubkey, rent::Rent};

pub const NT: usize = 6; // traders 0..=4 are seated at the start, 5 is an outsider
pub const AUTH: usize = 6;
pub const SUCC: usize = 7;
pub const SUCC2: usize = 8;
pub const FEE: usize = 9;
pub const FEE2: usize = 10;
pub const RECV: usize = 11;
pub const NACT: usize = 12;
pub const SIZES: [(u64, u64, u64); 12] = [
    (512, 512, 128),
    (512, 512, 1025),
    (512, 512, 1153),
    (1024, 1024, 128),
    (1024, 1024, 2049),
    (1024, 1024, 2177),
    (2048, 2048, 128),
    (2048, 2048, 4097),
    (2048, 2048, 4225),
    (4096, 4096, 128),
    (4096, 4096, 8193),
    (4096, 4096, 8321),
];

#[derive(Clone, Debug)]
pub struct Cfg {
    pub salt: u64,
    pub size: usize,
    pub nm: usize,
    pub base_dec: u8,
    pub quote_dec: u8,
    pub raw: Option<u32>,
    pub blpbu: u64,
    pub qlpqu: u64,
    pub tick: u64,
    pub fee: u16,
    pub mid: u64,
    /// wallet sizes in lots (base, quote); leftovers below one lot are added on top
    pub rich: u8,
    pub dust: u64,
    pub active: bool,
    pub deposits: bool,
    pub seated: usize,
    pub reversed2: bool,
    /// index into AGES: how much lies behind the market when the history starts
    pub age: u8,
    /// traders registered between T1 and T2 who never act (moves the later table indices up)
    pub crowd: u16,
    /// order in which the traders are seated: 0 as numbered, 1 reversed, else rotated
    pub perm: u8,
}

/// (next order sequence number, header sequence number, slot, unix time)
pub const AGES: [(u64, u64, u64, i64); 9] = [
    (0, 0, 1000, 1_700_000_000),
    ((1 << 8) - 3, (1 << 8) - 9, (1 << 16) - 3, 1_700_000_000),
    ((1 << 16) - 3, (1 << 16) - 9, (1 << 32) - 3, (1 << 31) - 3),
    ((1 << 32) - 3, (1 << 32) - 9, 1 << 40, (1 << 32) - 3),
    (123_456_789_012, 987_654_321_098, 250_000_123, 1_900_000_007),
    ((1 << 31) - 3, (1 << 31) - 9, (1 << 31) - 3, (1 << 31) - 9),
    ((1 << 53) - 3, (1 << 53) - 9, (1 << 53) - 3, 1 << 33),
    ((1 << 62) - 3, (1 << 63) - 9, 3_000_000_000, 1_800_000_000),
    ((u64::MAX >> 1) - 12, (1 << 60) - 9, 300_000_000, 1_700_000_123),
];

impl Cfg {
    pub fn base_lot(&self) -> u64 {
        10u64.pow(self.base_dec as u32) * self.raw.unwrap_or(1) as u64 / self.blpbu
    }
    pub fn quote_lot(&self) -> u64 {
        10u64.pow(self.quote_dec as u32) / self.qlpqu
    }
    pub fn init(&self, fee_collector: Pubkey) -> InitP {
        InitP { size: SIZES[self.size], quote_lots_per_quote_unit: self.qlpqu, tick: self.tick, base_lots_per_base_unit: self.blpbu, fee_bps: self.fee, fee_collector, raw: self.raw }
    }
}

pub struct CfgOpts {
    pub two: u64, // chance out of 8 of a second market
    pub big: bool,
    pub nofee: u64, // chance out of 8 of a zero fee
}

pub fn gen_cfg(s: &mut Src, o: &CfgOpts) -> Cfg {
    let salt = s.draw(6);
    let size = if o.big && s.chance(1, 6) { s.draw(6) as usize } else { 0 };
    let nm = if s.chance(o.two, 8) { 2 } else { 1 };
    let (base_dec, quote_dec) = *s.pick(&[(9u8, 6u8), (6, 6), (0, 6), (5, 9), (9, 0)]);
    let raw = *s.pick(&[None, Some(1u32), Some(10), Some(1000)]);
    let mut blpbu = *s.pick(&[10u64, 1, 100, 1000, 7]);
    let atoms = 10u64.pow(base_dec as u32) * raw.unwrap_or(1) as u64;
    if atoms % blpbu != 0 {
        blpbu = 1;
    }
    let mut qlpqu = *s.pick(&[1000u64, 1_000_000, 1, 20]);
    if 10u64.pow(quote_dec as u32) % qlpqu != 0 {
        qlpqu = 1;
    }
    let k = *s.pick(&[1u64, 10, 3, 100, 7, 1000]);
    let tick = blpbu * k;
    let fee = if s.chance(o.nofee, 8) {
        0
    } else {
        match s.draw(8) {
            0 | 1 => 2,
            2 => 5,
            3 => 1,
            4 => 30,
            5 => 333,
            6 => 5000,
            _ => s.draw(10001) as u16,
        }
    };
    let mid = *s.pick(&[10u64, 100, 3, 1000, 12345]);
    let rich = s.weighted(&[6, 3, 2]) as u8;
    let mid = if rich == 2 && s.chance(1, 4) { *s.pick(&[(1u64 << 32) - 4, (1 << 33) + 7, 65_533]) } else { mid };
    let dust = if s.chance(1, 2) { s.draw(1 << 20) } else { 0 };
    let active = !s.chance(1, 10);
    let deposits = s.chance(1, 2);
    let seated = if s.chance(1, 5) { s.draw(5) as usize } else { 4 } + 1;
    let reversed2 = s.chance(1, 2);
    let age = s.weighted(&[24, 3, 6, 5, 5, 2, 2, 2, 1]) as u8;
    let crowd = *s.pick(&[0u16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 254, 254, 126, 100]);
    let size = if crowd > 110 && SIZES[size].2 < 300 { size + 1 } else { size };
    Cfg { salt, size, nm, base_dec, quote_dec, raw, blpbu, qlpqu, tick, fee, mid, rich, dust, active, deposits, seated, reversed2, age, crowd, perm: 0 }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub m: usize,
    pub who: usize,
    pub nosign: bool,
    pub act: Act,
}

#[derive(Clone)]
pub struct World {
    pub bank: Bank,
    pub cfg: Cfg,
    pub actors: Vec<Pubkey>,
    pub mk: Vec<MktKeys>,
    pub st: Vec<Option<Mkt>>,
}

pub fn mint_acct(dec: u8, init: bool) -> Acct {
    let mut data = vec![0u8; 82];
    let m = spl_token::state::Mint { mint_authority: COption::None, supply: u64::MAX / 2, decimals: dec, is_initialized: init, freeze_authority: COption::None };
    m.pack_into_slice(&mut data);
    Acct { lamports: Rent::default().minimum_balance(82), data, owner: keys::token_program(), exec: false }
}
pub fn tok_acct(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    let mut data = vec![0u8; 165];
    let t = spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        delegate: COption::None,
        state: spl_token::state::AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    };
    t.pack_into_slice(&mut data);
    Acct { lamports: Rent::default().minimum_balance(165), data, owner: keys::token_program(), exec: false }
}

pub fn market_space(size: (u64, u64, u64)) -> Option<usize> {
    phoenix::program::get_market_size(&phoenix::program::MarketSizeParams { bids_size: size.0, asks_size: size.1, num_seats: size.2 }).ok().map(|x| x + HDR)
}

pub fn mkt_keys(salt: u64, idx: u64, base_mint: Pubkey, quote_mint: Pubkey) -> MktKeys {
    let key = keys::key(&format!("market{idx}"), salt);
    MktKeys { key, base_mint, quote_mint, base_vault: keys::vault(&key, &base_mint).0, quote_vault: keys::vault(&key, &quote_mint).0 }
}

pub fn crowd_keys(n: u16) -> Vec<Pubkey> {
    (0..n).map(|i| keys::key("crowd", i as u64)).collect()
}

impl World {
    /// Accounts and wallets only; no market yet.
    pub fn bare(cfg: &Cfg) -> World {
        let mut bank = Bank::new();
        let s = cfg.salt;
        let names = ["t0", "t1", "t2", "t3", "t4", "t5", "auth", "succ", "succ2", "fee", "fee2", "recv"];
        let actors: Vec<Pubkey> = names.iter().map(|n| keys::key(n, s)).collect();
        let bm = keys::key("basemint", s);
        let qm = keys::key("quotemint", s);
        bank.put(bm, mint_acct(cfg.base_dec, true));
        bank.put(qm, mint_acct(cfg.quote_dec, true));
        let (wb, wq) = match cfg.rich {
            0 => (1_000_000u64, 1_000_000_000u64),
            1 => (60, 60 * cfg.mid * (cfg.tick / cfg.blpbu).max(1)),
            _ => (1 << 40, 1 << 44),
        };
        for (i, a) in actors.iter().enumerate() {
            bank.put(*a, Acct { lamports: 100_000_000_000, data: vec![], owner: Pubkey::default(), exec: false });
            let (b, q) = if i < NT { (wb.saturating_mul(cfg.base_lot()).min(1 << 60), wq.saturating_mul(cfg.quote_lot()).min(1 << 60)) } else { (0, 0) };
            let d = if i < NT { cfg.dust * (i as u64 + 1) } else { 0 };
            bank.put(keys::ata(a, &bm), tok_acct(&bm, a, b + d % cfg.base_lot()));
            bank.put(keys::ata(a, &qm), tok_acct(&qm, a, q + d % cfg.quote_lot()));
        }
        World { bank, cfg: cfg.clone(), actors, mk: vec![], st: vec![] }
    }

    pub fn add_market_account(&mut self, idx: u64, size: (u64, u64, u64), base_mint: Pubkey, quote_mint: Pubkey) -> usize {
        let k = mkt_keys(self.cfg.salt, idx, base_mint, quote_mint);
        let space = market_space(size).unwrap_or(HDR);
        self.bank.put(k.key, Acct { lamports: Rent::default().minimum_balance(space), data: vec![0; space], owner: keys::program(), exec: false });
        self.mk.push(k);
        self.st.push(None);
        self.mk.len() - 1
    }

    pub fn exec(&mut self, op: &Op) -> IxResult {
        let ix = build(&self.mk[op.m], &self.actors[op.who], op.nosign, &op.act);
        self.bank.exec(&ix)
    }

    pub fn refresh(&mut self, m: usize) -> Result<(), String> {
        let r = match self.bank.get(&self.mk[m].key) {
            Some(a) if a.owner == keys::program() && a.data.len() > HDR && g64(&a.data, 0) != 0 => Some(read_market(a)?),
            _ => None,
        };
        self.st[m] = r;
        Ok(())
    }

    /// Creates the markets and seats through the program. `Err` names the setup instruction that
    /// the program refused (the caller decides what that means for its property).
    pub fn new(cfg: &Cfg) -> Result<World, String> {
        let mut w = World::bare(cfg);
        let bm = keys::key("basemint", cfg.salt);
        let qm = keys::key("quotemint", cfg.salt);
        for i in 0..cfg.nm {
            let (b, q) = if i == 1 && cfg.reversed2 && cfg.base_dec == cfg.quote_dec && cfg.raw.is_none() && 1_000_000 % cfg.blpbu == 0 { (qm, bm) } else { (bm, qm) };
            let m = w.add_market_account(i as u64, SIZES[cfg.size], b, q);
            let p = cfg.init(w.actors[FEE]);
            let mut setup = vec![(AUTH, Act::Init(p))];
            if cfg.active {
                setup.push((AUTH, Act::ChangeStatus { status: 1, receiver: None }));
            }
            let mut seating: Vec<usize> = (0..cfg.seated).collect();
            match cfg.perm {
                0 => {}
                1 => seating.reverse(),
                n => seating.rotate_left(n as usize % cfg.seated),
            }
            for t in seating {
                setup.push((t, Act::RequestSeat));
                setup.push((AUTH, Act::ChangeSeat { trader: w.actors[t], status: 1 }));
            }
            let crowd_at = if cfg.crowd > 0 { setup.iter().rposition(|x| matches!(x.1, Act::ChangeSeat { trader, .. } if trader == w.actors[cfg.seated.min(2) - 1])) } else { None };
            if cfg.deposits {
                for t in 0..cfg.seated {
                    let n = if cfg.rich == 1 { 30 } else { 500 };
                    setup.push((t, Act::Deposit { quote: n * cfg.mid * (cfg.tick / cfg.blpbu).max(1), base: n }));
                }
            }
            for (n, (who, act)) in setup.into_iter().enumerate() {
                let r = w.exec(&Op { m, who, nosign: false, act: act.clone() });
                if !r.ok && !matches!(act, Act::Deposit { .. }) {
                    return Err(format!("setup {} refused: {}", act.name(), r.err));
                }
                if crowd_at == Some(n) {
                    let k = w.mk[m].key;
                    if let Some(a) = w.bank.get(&k) {
                        let mut a = (**a).clone();
                        crowd_market(&mut a, &crowd_keys(cfg.crowd));
                        w.bank.put(k, a);
                    }
                }
            }
            if cfg.age != 0 {
                let (order, log, slot, ts) = AGES[cfg.age as usize];
                w.bank.slot = slot;
                w.bank.ts = ts;
                let k = w.mk[m].key;
                if let Some(a) = w.bank.get(&k) {
                    let mut a = (**a).clone();
                    age_market(&mut a, order, log);
                    w.bank.put(k, a);
                }
            }
            w.refresh(m)?;
            if w.st[m].is_none() {
                return Err("market missing after setup".into());
            }
        }
        Ok(w)
    }

    pub fn actor_of(&self, k: &Pubkey) -> Option<usize> {
        self.actors.iter().position(|a| a == k)
    }
    pub fn label(&self, k: &Pubkey) -> String {
        if let Some(i) = self.actor_of(k) {
            return ["T0", "T1", "T2", "T3", "T4", "T5", "AUTH", "SUCC", "SUCC2", "FEE", "FEE2", "RECV"][i].into();
        }
        for (i, m) in self.mk.iter().enumerate() {
            for (n, x) in [("market", &m.key), ("base_vault", &m.base_vault), ("quote_vault", &m.quote_vault), ("base_mint", &m.base_mint), ("quote_mint", &m.quote_mint)] {
                if x == k {
                    return format!("{n}{i}");
                }
            }
            for (j, a) in self.actors.iter().enumerate() {
                if keys::ata(a, &m.base_mint) == *k {
                    return format!("{}.base", self.label(&self.actors[j]));
                }
                if keys::ata(a, &m.quote_mint) == *k {
                    return format!("{}.quote", self.label(&self.actors[j]));
                }
                if keys::seat(&m.key, a).0 == *k {
                    return format!("seat{i}({})", self.label(&self.actors[j]));
                }
            }
        }
        k.to_string()
    }
}
