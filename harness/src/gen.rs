//! Book-aware generator of instruction histories, driven by the choice tape.
use crate::enc::*;
use crate::keys;
use crate::model::Out;
use crate::obs::*;
use crate::step::{predict_on, seat_status, Hist};
use crate::tape::Src;
use crate::world::*;
use solana_program::pubkey::Pubkey;

/// operation kinds (indices into `Prof::w`)
pub const PO: usize = 0;
pub const LIM: usize = 1;
pub const IOC: usize = 2;
pub const MULTI: usize = 3;
pub const RED: usize = 4;
pub const CALL: usize = 5;
pub const CUP: usize = 6;
pub const CIDS: usize = 7;
pub const DEP: usize = 8;
pub const WD: usize = 9;
pub const SEATRQ: usize = 10;
pub const SEATCH: usize = 11;
pub const EVICT: usize = 12;
pub const FORCE: usize = 13;
pub const SUCCESS: usize = 14;
pub const STATUS: usize = 15;
pub const COLLECT: usize = 16;
pub const FEEREC: usize = 17;
pub const TICK: usize = 18;
pub const DONATE: usize = 19;
pub const DRAIN: usize = 20;
pub const FILL: usize = 21;
pub const REINIT: usize = 22;
pub const OUST: usize = 23;
/// many short-lived (or plain) orders in one stroke at the front of a side, then a probe through them
pub const WALL: usize = 24;
pub const NK: usize = 25;

pub type Wts = [u32; NK];
/// everything a market sees in normal life
pub const BASEW: Wts = [14, 16, 16, 8, 4, 2, 3, 4, 4, 5, 1, 2, 1, 1, 1, 2, 3, 1, 6, 1, 0, 0, 0, 1, 1];

#[derive(Clone)]
pub struct Prof {
    pub w: Wts,
    pub len: (u64, u64),
    pub two: u64,
    pub big: bool,
    pub nofee: u64,
    /// chances out of 1000
    pub extreme: u64,
    pub odd: u64,
    /// chance (out of 8) that an order carries an expiry
    pub tif: u64,
    /// chance (out of 8) that a taker aims at its own orders
    pub own: u64,
    /// chance (out of 8) of filling a side to its capacity at the start
    pub fill: u64,
    pub tight: u64,
    /// Some(true/false) forces free-funds variants
    pub ff: u64,
}
impl Default for Prof {
    fn default() -> Self {
        Prof { w: BASEW, len: (6, 60), two: 1, big: false, nofee: 1, extreme: 8, odd: 30, tif: 1, own: 1, fill: 0, tight: 1, ff: 3 }
    }
}
impl Prof {
    pub fn set(mut self, l: &[(usize, u32)]) -> Self {
        for (i, v) in l {
            self.w[*i] = *v;
        }
        self
    }
    pub fn only(mut self, l: &[(usize, u32)]) -> Self {
        self.w = [0; NK];
        self.set2(l);
        self
    }
    fn set2(&mut self, l: &[(usize, u32)]) {
        for (i, v) in l {
            self.w[*i] = *v;
        }
    }
    pub fn opts(&self) -> CfgOpts {
        CfgOpts { two: self.two, big: self.big, nofee: self.nofee }
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    Op(Op),
    Clock { slots: u64, secs: u64 },
    Donate { m: usize, base: bool, amt: u64 },
    /// lamports sent to an address by anyone
    Gift { to: Pubkey, amt: u64 },
}

#[derive(Clone, Debug)]
enum Plan {
    /// move the market towards deletion
    Drain { m: usize, left: u32 },
    /// bring a side to `target` orders
    Fill { m: usize, side: Side, target: usize, left: u32 },
    /// unseat, force-cancel, evict one trader
    Oust { m: usize, t: usize, left: u32 },
    /// build a wall of orders on one side, let it expire (or not), then go through it
    Wall { m: usize, side: Side, n: u64, life: u64, left: u32 },
}

pub struct Gen {
    pub prof: Prof,
    plans: Vec<Plan>,
}

const EXT: [u64; 12] = [0, u64::MAX, 1, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, u64::MAX / 10, u64::MAX / 3, 1 << 53, u64::MAX / 10_000];

pub fn expiry(s: &mut Src, now: u64) -> Option<u64> {
    match s.draw(8) {
        0 => Some(now + 1),
        1 => Some(now),
        2 => Some(now.saturating_sub(1)),
        3 | 4 => Some(now + 2 + s.draw(3)),
        5 => Some(now + 8),
        6 => Some(0),
        _ => Some(*s.pick(&[u64::MAX, now.saturating_add(1 << 32), now.saturating_add(1 << 16), now ^ 1 << 32])),
    }
}

impl Gen {
    pub fn new(prof: Prof) -> Self {
        Gen { prof, plans: vec![] }
    }
    fn ext(&self, s: &mut Src) -> bool {
        self.prof.extreme > 0 && s.chance(self.prof.extreme, 1000)
    }
    fn odd(&self, s: &mut Src) -> bool {
        self.prof.odd > 0 && s.chance(self.prof.odd, 1000)
    }
    pub fn tif(&self, s: &mut Src, w: &World) -> (Option<u64>, Option<u64>) {
        if !s.chance(self.prof.tif, 8) {
            return (None, None);
        }
        let now = w.bank.ts as u64;
        match s.draw(3) {
            0 => (expiry(s, w.bank.slot), None),
            1 => (None, expiry(s, now)),
            _ => (expiry(s, w.bank.slot), expiry(s, now)),
        }
    }
    pub fn client(&self, s: &mut Src) -> u128 {
        match s.draw(4) {
            0 => 0,
            1 => s.draw(100) as u128,
            2 => u128::MAX,
            _ => (s.draw(0) as u128) << 64 | 7,
        }
    }
    fn trader(&self, s: &mut Src, w: &World) -> usize {
        if self.odd(s) {
            return s.draw(NACT as u64) as usize;
        }
        s.draw(w.cfg.seated as u64) as usize
    }
    fn authority(&self, s: &mut Src, w: &World, m: usize) -> usize {
        if self.odd(s) {
            return s.draw(NACT as u64) as usize;
        }
        w.st[m].as_ref().and_then(|x| w.actor_of(&x.hdr.authority())).unwrap_or(AUTH)
    }
    pub fn price(&self, s: &mut Src, st: &Mkt, cfg: &Cfg, side: Side) -> u64 {
        if self.ext(s) {
            let e = *s.pick(&EXT);
            return if s.chance(1, 2) { e / cfg.tick.max(1) } else { e };
        }
        let own = st.book(side);
        let opp = st.book(side.opp());
        let mid = cfg.mid;
        let off = |p: u64, d: u64, up: bool| if up { p.saturating_add(d) } else { p.saturating_sub(d) };
        match s.weighted(&[6, 3, 4, 3, 3]) {
            0 => {
                // passive side of the midpoint
                let d = 1 + s.draw(6);
                match side {
                    Side::Bid => mid.saturating_sub(d).max(1),
                    Side::Ask => mid + d,
                }
            }
            1 => match own.len() {
                0 => off(mid, s.draw(3), side == Side::Ask),
                n => {
                    let i = s.draw(n.min(6) as u64) as usize;
                    own[i].price
                }
            },
            2 => match opp.first() {
                None => mid,
                Some(o) => {
                    let k = s.draw(4);
                    match k {
                        0 => o.price,
                        1 => off(o.price, 1, side == Side::Bid),
                        2 => off(o.price, 1, side == Side::Ask),
                        _ => off(o.price, 2, side == Side::Bid),
                    }
                }
            },
            3 => match opp.len() {
                0 => mid,
                n => {
                    let i = s.draw(n.min(8) as u64) as usize;
                    let k = s.draw(3);
                    match k {
                        0 => opp[i].price,
                        1 => off(opp[i].price, 1, side == Side::Bid),
                        _ => off(opp[i].price, 1, side == Side::Ask),
                    }
                }
            },
            _ => {
                let d = s.draw(21);
                (mid + d).saturating_sub(10).max(1)
            }
        }
    }
    pub fn size(&self, s: &mut Src, w: &World, m: usize, who: usize, side: Side, price: u64, ff: bool) -> u64 {
        if self.ext(s) {
            return *s.pick(&EXT);
        }
        let st = w.st[m].as_ref().unwrap();
        let opp = st.book(side.opp());
        let jit = |s: &mut Src, v: u64| match s.draw(3) {
            0 => v,
            1 => v.saturating_add(1),
            _ => v.saturating_sub(1),
        };
        let poor = w.cfg.rich == 1;
        match s.weighted(&[6, 3, 3, 2, 1 + self.prof.tight as u32]) {
            0 => {
                let v = 1 + s.draw(if poor { 8 } else { 20 });
                if w.cfg.rich == 2 && s.chance(1, 3) {
                    v.saturating_mul(*s.pick(&[1u64 << 32, 1 << 16, (1 << 31) + 1, 1 << 24])).min(self.afford(w, m, who, side, price, ff).max(v))
                } else {
                    v
                }
            }
            1 => match opp.len() {
                0 => 1 + s.draw(5),
                n => {
                    let i = s.draw(n.min(6) as u64) as usize;
                    let v = opp[i].size;
                    jit(s, v)
                }
            },
            2 => match opp.len() {
                0 => 2 + s.draw(5),
                n => {
                    let i = s.draw(n.min(8) as u64) as usize;
                    let v = opp[..=i].iter().fold(0u64, |a, o| a.saturating_add(o.size));
                    jit(s, v)
                }
            },
            3 => 1 + s.draw(if poor { 30 } else { 300 }),
            _ => {
                let v = self.afford(w, m, who, side, price, ff);
                if v > 1 << 40 {
                    1 + s.draw(1000)
                } else {
                    jit(s, v)
                }
            }
        }
    }
    /// largest size the trader can fund at this price
    fn afford(&self, w: &World, m: usize, who: usize, side: Side, price: u64, ff: bool) -> u64 {
        let st = w.st[m].as_ref().unwrap();
        let k = &w.mk[m];
        let a = w.actors[who];
        let t = st.traders.get(&a).cloned().unwrap_or_default();
        let (mut q, mut b) = (t.qf, t.bf);
        if !ff {
            q = q.saturating_add(tok_amount(&w.bank, &keys::ata(&a, &k.quote_mint)).unwrap_or(0) / st.hdr.quote_lot());
            b = b.saturating_add(tok_amount(&w.bank, &keys::ata(&a, &k.base_mint)).unwrap_or(0) / st.hdr.base_lot());
        }
        match side {
            Side::Ask => b,
            Side::Bid => ((q as u128 * st.blpbu as u128) / (price as u128 * st.tick as u128).max(1)).min(u64::MAX as u128) as u64,
        }
    }
    fn stb(&self, s: &mut Src) -> Stb {
        *s.pick(&[Stb::CancelProvide, Stb::DecrementTake, Stb::DecrementTake, Stb::CancelProvide, Stb::Abort])
    }
    fn ml(&self, s: &mut Src) -> Option<u64> {
        match s.draw(6) {
            0 | 1 | 2 => None,
            3 => Some(1 + s.draw(4)),
            4 => Some(u64::MAX),
            _ => Some(s.draw(3)),
        }
    }
    /// trader and price for a taker that should meet its own resting order
    fn aim_own(&self, s: &mut Src, st: &Mkt, w: &World, side: Side) -> Option<(usize, u64)> {
        let opp = st.book(side.opp());
        if opp.is_empty() || !s.chance(self.prof.own, 8) {
            return None;
        }
        let i = s.draw(opp.len().min(6) as u64) as usize;
        let t = w.actor_of(&opp[i].tr)?;
        let d = s.draw(3);
        Some((t, if side == Side::Bid { opp[i].price.saturating_add(d) } else { opp[i].price.saturating_sub(d) }))
    }

    pub fn packet(&self, s: &mut Src, w: &World, m: usize, kind: usize) -> (usize, Pkt, bool) {
        let st = w.st[m].as_ref().unwrap();
        let cfg = &w.cfg;
        let side = if s.chance(1, 2) { Side::Ask } else { Side::Bid };
        let mut who = self.trader(s, w);
        let mut ff = s.chance(self.prof.ff, 16);
        let mut price = self.price(s, st, cfg, side);
        if kind != PO {
            if let Some((t, p)) = self.aim_own(s, st, w, side) {
                who = t;
                price = p;
            }
        }
        if kind == IOC && !ff && s.chance(1, 6) {
            who = 5;
        }
        let base = self.size(s, w, m, who, side, price, ff);
        let (slot, ts) = self.tif(s, w);
        let client = self.client(s);
        let silent = s.chance(1, 8);
        let p = match kind {
            PO => Pkt::PostOnly { side, price, base, client, reject: s.chance(1, 2), free_only: ff, slot, ts, silent },
            LIM => Pkt::Limit { side, price, base, stb: self.stb(s), ml: self.ml(s), client, free_only: ff, slot, ts, silent },
            _ => {
                let mut price = Some(price);
                if s.chance(1, 3) {
                    price = None;
                }
                let mut base = base;
                let mut quote = 0;
                if s.chance(3, 8) {
                    // budget in quote lots near the cost of a prefix of the book
                    let opp = st.book(side.opp());
                    let i = s.draw(opp.len().min(8) as u64 + 1) as usize;
                    let n = opp.iter().take(i).fold(0u64, |a, o| a.saturating_add(st.quote(o.price, o.size).unwrap_or(0)));
                    let part = opp.get(i).map(|o| s.upto(o.size.min(30)).saturating_mul(st.quote(o.price, 1).unwrap_or(0))).unwrap_or(0);
                    let n = n.saturating_add(part);
                    let fee = (n as u128 * st.fee_bps as u128 / 10000).min(1 << 62) as u64;
                    quote = match s.draw(6) {
                        0 => n,
                        1 => n.saturating_add(fee),
                        2 => n.saturating_add(fee).saturating_add(s.draw(4)),
                        3 => n.saturating_sub(fee),
                        4 => n.saturating_add(fee).saturating_sub(s.draw(4)),
                        _ => 1 + s.draw(500),
                    };
                    if self.ext(s) {
                        quote = *s.pick(&EXT);
                    }
                    if quote == 0 {
                        quote = 1;
                    }
                    base = 0;
                    if self.odd(s) {
                        base = 1;
                    }
                }
                let mut pk = Pkt::Ioc { side, price, base, quote, min_base: 0, min_quote: 0, stb: self.stb(s), ml: self.ml(s), client, free_only: ff, slot, ts };
                if s.chance(1, 3) {
                    // minimum fills around what the order can actually get
                    let op = Op { m, who, nosign: false, act: Act::Swap { p: pk.clone(), ff } };
                    let pr = predict_on(w, &op).unwrap();
                    let (fb, fq) = pr.evs.iter().find_map(|e| if let Ev::Summary { base, quote, .. } = e { Some((*base, *quote)) } else { None }).unwrap_or((1, 1));
                    let j = |s: &mut Src, v: u64| match s.draw(5) {
                        0 | 1 => v,
                        2 => v.saturating_add(1),
                        3 => v.saturating_sub(1),
                        _ => s.upto(v),
                    };
                    if let Pkt::Ioc { min_base, min_quote, .. } = &mut pk {
                        let k = s.draw(3);
                        if k != 1 {
                            *min_base = j(s, fb);
                        }
                        if k != 0 {
                            *min_quote = j(s, fq);
                        }
                    }
                }
                pk
            }
        };
        if self.odd(s) {
            ff = !ff;
        }
        (who, p, ff)
    }

    fn multi(&self, s: &mut Src, w: &World, m: usize) -> (usize, Act) {
        let st = w.st[m].as_ref().unwrap();
        let cfg = &w.cfg;
        let who = self.trader(s, w);
        let ff = s.chance(self.prof.ff, 16);
        let mut lists: [Vec<Cond>; 2] = [vec![], vec![]];
        for (i, side) in [Side::Bid, Side::Ask].iter().enumerate() {
            let n = match s.draw(8) {
                0 | 1 => 0,
                2 | 3 => 1,
                4 | 5 => 2 + s.draw(2),
                6 => 3 + s.draw(4),
                _ if s.chance(1, 4) => 12 + s.draw(30),
                _ => s.draw(14),
            };
            for _ in 0..n {
                // mostly the one before, sometimes any earlier one
                let last = match lists[i].len() {
                    0 => None,
                    l if s.chance(1, 5) => Some(lists[i][s.draw(l as u64) as usize].clone()),
                    l => Some(lists[i][l - 1].clone()),
                };
                let c: Cond = match (&last, s.draw(4)) {
                    (Some(l), 3) => {
                        // same terms again, or almost the same
                        let mut c: Cond = l.clone();
                        c.size = 1 + s.draw(10);
                        if s.chance(1, 4) {
                            c.slot = expiry(s, w.bank.slot);
                        }
                        c
                    }
                    (Some(l), 2) => Cond { price: if *side == Side::Bid { l.price.saturating_sub(1) } else { l.price.saturating_add(1) }, ..l.clone() },
                    _ => {
                        let mut price = self.price(s, st, cfg, *side);
                        if i == 1 && s.chance(7, 8) {
                            // keep the batch from crossing itself most of the time
                            let hb = lists[0].iter().map(|c: &Cond| c.price).max().unwrap_or(0);
                            price = price.max(hb.saturating_add(1));
                        } else if i == 1 && !lists[0].is_empty() && s.chance(1, 3) {
                            // at or next to some bid of the batch
                            let b = lists[0][s.draw(lists[0].len() as u64) as usize].price;
                            price = b.saturating_add(s.draw(2));
                        }
                        let size = self.size(s, w, m, who, *side, price, ff);
                        let (slot, ts) = self.tif(s, w);
                        Cond { price, size, slot, ts }
                    }
                };
                lists[i].push(c);
            }
        }
        let [bids, asks] = lists;
        let client = if s.chance(1, 2) { Some(self.client(s)) } else { None };
        let beh = if self.odd(s) { s.draw(256) as u8 } else { s.draw(4) as u8 };
        (who, Act::Multi { bids, asks, client, beh, ff })
    }

    fn any_order(&self, s: &mut Src, st: &Mkt) -> Option<(Side, Ord)> {
        let n = st.bids.len() + st.asks.len();
        if n == 0 {
            return None;
        }
        let i = s.draw(n as u64) as usize;
        Some(if i < st.bids.len() { (Side::Bid, st.bids[i].clone()) } else { (Side::Ask, st.asks[i - st.bids.len()].clone()) })
    }
    /// mostly to a seat address that is still free
    fn gift(&self, s: &mut Src, w: &World, m: usize) -> Step {
        let k = &w.mk[m];
        let free: Vec<Pubkey> = w.actors.iter().filter(|a| seat_status(&w.bank, &k.key, a).is_none()).cloned().collect();
        let to = match s.draw(8) {
            0 => k.key,
            1 => k.base_vault,
            2 => w.actors[s.draw(NACT as u64) as usize],
            3 => keys::seat(&k.key, &w.actors[s.draw(NACT as u64) as usize]).0,
            _ => match free.is_empty() {
                true => k.quote_vault,
                false => keys::seat(&k.key, s.pick(&free)).0,
            },
        };
        let rent = crate::step::seat_rent();
        Step::Gift { to, amt: *s.pick(&[890_880u64, rent, rent - 1, rent + 1, 10 * rent, 1]) }
    }
    fn limits(&self, s: &mut Src, st: &Mkt) -> (Side, Option<u64>, Option<u32>, Option<u32>) {
        let side = if s.chance(1, 2) { Side::Ask } else { Side::Bid };
        let tick = match s.draw(3) {
            0 => None,
            _ => match st.book(side).len() {
                0 => Some(s.draw(20)),
                n => {
                    let i = s.draw(n as u64) as usize;
                    let d = s.draw(3);
                    Some(st.book(side)[i].price.saturating_add(d).saturating_sub(1))
                }
            },
        };
        let lim = |s: &mut Src| match s.draw(4) {
            0 | 1 => None,
            2 => Some(s.draw(6) as u32),
            _ => Some(*s.pick(&[0, 1, u32::MAX, 100, 255, 256, 257, 1 << 16, 1 << 31, (1 << 24) + 1])),
        };
        let a = lim(s);
        let b = lim(s);
        (side, tick, a, b)
    }

    fn op(&mut self, s: &mut Src, w: &World, m: usize, kind: usize) -> Step {
        let st = w.st[m].as_ref().unwrap();
        let (who, act) = match kind {
            PO | LIM => {
                let (who, p, ff) = self.packet(s, w, m, kind);
                if self.odd(s) && s.chance(1, 4) {
                    (who, Act::Swap { p, ff })
                } else {
                    (who, Act::Place { p, ff })
                }
            }
            IOC => {
                let (who, p, ff) = self.packet(s, w, m, kind);
                if self.odd(s) && s.chance(1, 4) {
                    (who, Act::Place { p, ff })
                } else {
                    (who, Act::Swap { p, ff })
                }
            }
            MULTI => self.multi(s, w, m),
            RED | CIDS => {
                let ff = s.chance(self.prof.ff, 8);
                let mut who = self.trader(s, w);
                let n = if kind == RED {
                    1
                } else if s.chance(1, 12) {
                    6 + s.draw(60)
                } else {
                    s.draw(6)
                };
                let mut ids = vec![];
                let mut size = 1 + s.draw(30);
                for i in 0..n {
                    let mut id = match self.any_order(s, st) {
                        Some((sd, o)) => {
                            if i == 0 && s.chance(7, 8) {
                                who = w.actor_of(&o.tr).unwrap_or(who);
                            }
                            if s.chance(1, 2) {
                                size = match s.draw(4) {
                                    0 => o.size,
                                    1 => o.size.saturating_sub(1),
                                    2 => o.size.saturating_add(1),
                                    _ => 1,
                                };
                            }
                            (sd, o.price, o.seq)
                        }
                        None => (Side::Bid, w.cfg.mid, !s.draw(20)),
                    };
                    if i > 0 && s.chance(5, 8) {
                        // mostly the signer's own orders
                        let own: Vec<(Side, u64, u64)> =
                            [Side::Bid, Side::Ask].iter().flat_map(|sd| st.book(*sd).iter().filter(|o| o.tr == w.actors[who]).map(|o| (*sd, o.price, o.seq)).collect::<Vec<_>>()).collect();
                        if !own.is_empty() {
                            id = *s.pick(&own);
                        }
                    }
                    match s.draw(24) {
                        20 => id.0 = id.0.opp(),
                        21 => id.1 = id.1.saturating_add(1),
                        22 => id.2 = id.2.wrapping_add(1),
                        23 => id.2 = !id.2,
                        _ => {}
                    }
                    ids.push(id);
                }
                if self.ext(s) {
                    size = *s.pick(&EXT);
                }
                if self.odd(s) {
                    size = 0;
                }
                if kind == RED {
                    let (side, price, seq) = ids[0];
                    (who, Act::Reduce { side, price, seq, size, ff })
                } else {
                    (who, Act::CancelIds { ids, ff })
                }
            }
            CALL => (self.trader(s, w), Act::CancelAll { ff: s.chance(self.prof.ff, 8) }),
            CUP => {
                let (side, tick, search, cancel) = self.limits(s, st);
                (self.trader(s, w), Act::CancelUpTo { side, tick, search, cancel, ff: s.chance(self.prof.ff, 8) })
            }
            DEP => {
                let who = self.trader(s, w);
                let k = &w.mk[m];
                let hq = tok_amount(&w.bank, &keys::ata(&w.actors[who], &k.quote_mint)).unwrap_or(0) / st.hdr.quote_lot();
                let hb = tok_amount(&w.bank, &keys::ata(&w.actors[who], &k.base_mint)).unwrap_or(0) / st.hdr.base_lot();
                let ext = self.ext(s);
                let mut f = |have: u64, unit: u64| match s.draw(6) {
                    0 => 0,
                    1 | 2 => s.draw(30).saturating_mul(unit).saturating_add(1),
                    3 => have.min(1 << 50),
                    4 => have.saturating_add(1),
                    _ => {
                        if ext {
                            *s.pick(&EXT)
                        } else {
                            s.draw(100)
                        }
                    }
                };
                let unit = st.quote(w.cfg.mid, 1).unwrap_or(1);
                let quote = f(hq, unit);
                let base = f(hb, 1);
                (who, Act::Deposit { quote, base })
            }
            WD => {
                let who = self.trader(s, w);
                let t = st.traders.get(&w.actors[who]).cloned().unwrap_or_default();
                let mut f = |have: u64| match s.draw(6) {
                    0 => None,
                    1 => Some(have),
                    2 => Some(have.saturating_add(1)),
                    3 => Some(have.saturating_sub(1)),
                    4 => Some(s.draw(40)),
                    _ => Some(*s.pick(&EXT)),
                };
                let quote = f(t.qf);
                let base = f(t.bf);
                (who, Act::Withdraw { quote, base })
            }
            SEATRQ => {
                if s.chance(1, 5) {
                    return self.gift(s, w, m);
                }
                let t = if s.chance(1, 2) { s.draw(NACT as u64) } else { w.cfg.seated as u64 % NT as u64 } as usize;
                if s.chance(1, 2) {
                    let a = self.authority(s, w, m);
                    let payer = *s.pick(&[AUTH, SUCC, 0, 5]);
                    (a, Act::RequestSeatAuth { trader: w.actors[t], payer: w.actors[payer] })
                } else {
                    (t, Act::RequestSeat)
                }
            }
            SEATCH => {
                let t = s.draw(NT as u64) as usize;
                let status = if self.odd(s) { s.draw(256) as u8 } else { s.weighted(&[4, 6, 1]) as u8 };
                let status = match status {
                    0 => 1,
                    1 => 0,
                    x => x,
                };
                (self.authority(s, w, m), Act::ChangeSeat { trader: w.actors[t], status })
            }
            EVICT => (self.authority(s, w, m), Act::Evict { trader: w.actors[s.draw(NT as u64) as usize] }),
            FORCE => {
                let (mut side, tick, search, cancel) = self.limits(s, st);
                let mut t = s.draw(NT as u64) as usize;
                // prefer someone whose seat is not approved
                if s.chance(3, 4) {
                    if let Some(i) = (0..NT).find(|i| matches!(seat_status(&w.bank, &w.mk[m].key, &w.actors[*i]), Some(0) | Some(2)) && st.traders.contains_key(&w.actors[*i])) {
                        t = i;
                        if !st.book(side).iter().any(|o| o.tr == w.actors[i]) {
                            side = side.opp();
                        }
                    }
                }
                (self.authority(s, w, m), Act::ForceCancel { trader: w.actors[t], side, tick, search, cancel })
            }
            SUCCESS => {
                if s.chance(1, 2) {
                    let su = w.actor_of(&st.hdr.successor()).unwrap_or(SUCC);
                    let who = if s.chance(1, 3) { s.draw(NACT as u64) as usize } else { su };
                    (who, Act::Claim)
                } else {
                    let to = *s.pick(&[SUCC, SUCC2, AUTH, 0]);
                    let to = if s.chance(1, 5) { odd_key(s, w, m) } else { w.actors[to] };
                    (self.authority(s, w, m), Act::NameSuccessor { to })
                }
            }
            STATUS => {
                let cur = st.hdr.status();
                let status = match s.draw(8) {
                    0 => 1,
                    1 => 2,
                    2 => 3,
                    3 | 4 => {
                        if cur == 4 {
                            2
                        } else {
                            1
                        }
                    }
                    5 => 4,
                    6 => 5,
                    _ => s.draw(256) as u8,
                };
                let receiver = if s.chance(1, 4) { Some(rent_receiver(s, w)) } else { None };
                (self.authority(s, w, m), Act::ChangeStatus { status, receiver })
            }
            COLLECT => {
                let rec = w.actor_of(&st.hdr.fee_recipient()).unwrap_or(FEE);
                let to = if self.odd(s) { s.draw(NACT as u64) as usize } else { rec };
                let who = *s.pick(&[rec, 0, AUTH, 5]);
                (who, Act::CollectFees { to: w.actors[to] })
            }
            FEEREC => {
                let new = *s.pick(&[FEE2, FEE, 0]);
                let rec = w.actor_of(&st.hdr.fee_recipient()).unwrap_or(FEE);
                let prev = match s.draw(4) {
                    0 | 1 => None,
                    2 => Some(w.actors[rec]),
                    _ => Some(w.actors[*s.pick(&[FEE2, FEE, AUTH])]),
                };
                let new = if s.chance(1, 8) { odd_key(s, w, m) } else { w.actors[new] };
                (self.authority(s, w, m), Act::ChangeFeeRecipient { new, prev })
            }
            TICK => {
                let slots = *s.pick(&[1u64, 0, 1, 2, 3, 9]);
                let secs = *s.pick(&[0u64, 1, 1, 2, 3, 9]);
                return Step::Clock { slots, secs };
            }
            DONATE => {
                if s.chance(1, 3) {
                    return self.gift(s, w, m);
                }
                return Step::Donate { m, base: s.chance(1, 2), amt: 1 + s.draw(1000) };
            }
            DRAIN => {
                let left = 40 + s.draw(20) as u32;
                self.plans.push(Plan::Drain { m, left });
                return self.planned(s, w);
            }
            WALL => {
                let side = if s.chance(1, 2) { Side::Ask } else { Side::Bid };
                let n = match s.draw(3) {
                    0 => 3 + s.draw(6),
                    1 => 8 + s.draw(10),
                    _ => 16 + s.draw(30),
                };
                let life = *s.pick(&[1, 2, 3, 0]);
                self.plans.push(Plan::Wall { m, side, n, life, left: 4 });
                return self.planned(s, w);
            }
            OUST => {
                let t = s.draw(NT as u64) as usize;
                self.plans.push(Plan::Oust { m, t, left: 6 });
                return self.planned(s, w);
            }
            FILL => {
                let side = if s.chance(1, 2) { Side::Ask } else { Side::Bid };
                let target = st.cap(side).saturating_sub(s.draw(3) as usize);
                self.plans.push(Plan::Fill { m, side, target, left: 40 });
                return self.planned(s, w);
            }
            _ => {
                let mut i = w.cfg.init(w.actors[FEE]);
                if s.chance(1, 2) {
                    i.fee_bps = 0;
                }
                (*s.pick(&[AUTH, 0]), Act::Init(i))
            }
        };
        let nosign = self.prof.odd > 0 && s.chance(self.prof.odd, 4000);
        // a signature covers every mention of the key
        let nosign = nosign && !metas(&w.mk[m], &w.actors[who], true, &act).iter().any(|(x, _)| x.pubkey == w.actors[who] && x.is_signer);
        Step::Op(Op { m, who, nosign, act })
    }

    fn planned(&mut self, s: &mut Src, w: &World) -> Step {
        let noop = Step::Clock { slots: 0, secs: 0 };
        let Some(p) = self.plans.last_mut() else { return noop };
        let (m, left) = match p {
            Plan::Drain { m, left } | Plan::Fill { m, left, .. } | Plan::Oust { m, left, .. } | Plan::Wall { m, left, .. } => (*m, left),
        };
        if *left == 0 || w.st[m].is_none() {
            self.plans.pop();
            return noop;
        }
        *left -= 1;
        let p = p.clone();
        let st = w.st[m].as_ref().unwrap();
        let au = w.actor_of(&st.hdr.authority()).unwrap_or(AUTH);
        let mk = |who: usize, act: Act| Step::Op(Op { m, who, nosign: false, act });
        match p {
            Plan::Fill { side, target, .. } => {
                let n = target.saturating_sub(st.book(side).len());
                if n == 0 || st.hdr.status() > 2 {
                    self.plans.pop();
                    return noop;
                }
                let k = n.min(48) as u64;
                // spread the orders over traders and over a band of prices behind the midpoint
                let who = s.draw(w.cfg.seated as u64) as usize;
                let start = s.draw(3);
                let shape = s.draw(3);
                let band: u64 = w.cfg.mid.saturating_sub(2).clamp(1, 600);
                let l: Vec<Cond> = (0..k)
                    .map(|i| {
                        let d = match shape {
                            0 => i,
                            1 => i / 5,
                            _ => 0,
                        };
                        let d = (start + d) % band.max(1);
                        let price = if side == Side::Bid { w.cfg.mid.saturating_sub(1 + d).max(1) } else { w.cfg.mid + 1 + d };
                        // distinct expiries keep equal prices from merging
                        Cond { price, size: 1 + i % 3, slot: Some(w.bank.slot + 5000 + i), ts: None }
                    })
                    .collect();
                let (bids, asks) = if side == Side::Bid { (l, vec![]) } else { (vec![], l) };
                mk(who, Act::Multi { bids, asks, client: None, beh: 0, ff: false })
            }
            Plan::Wall { side, n, life, left, .. } => {
                if st.hdr.status() > 2 {
                    self.plans.pop();
                    return noop;
                }
                let opp = side.opp();
                // right in front of the other side
                let r = st.book(opp).first().map(|o| o.price).unwrap_or(w.cfg.mid);
                let away = |d: u64| if side == Side::Bid { r.saturating_sub(1 + d).max(1) } else { r.saturating_add(1 + d) };
                // an order behind it, the wall, time passes, a probe
                match left {
                    3 => {
                        let p = Pkt::PostOnly { side, price: away(n.min(12) + s.draw(2)), base: 1 + s.draw(5), client: self.client(s), reject: true, free_only: false, slot: None, ts: None, silent: false };
                        mk(s.draw(w.cfg.seated as u64) as usize, Act::Place { p, ff: false })
                    }
                    2 => {
                        let shape = s.draw(3);
                        let by_ts = s.chance(1, 2);
                        let far = *s.pick(&[5000u64, 1 << 32, 1 << 16]);
                        let l: Vec<Cond> = (0..n)
                            .map(|i| {
                                let d = [i.min(12), i / 4, 0][shape as usize];
                                let (slot, ts) = match life {
                                    0 => (None, None),
                                    // distinct far slots keep equal prices from merging
                                    k if by_ts => (Some(w.bank.slot + far + i), Some(w.bank.ts as u64 + k)),
                                    k => (Some(w.bank.slot + k), Some(w.bank.ts as u64 + far + i)),
                                };
                                Cond { price: away(d), size: 1 + i % 2, slot: if life == 0 { Some(w.bank.slot + far + i) } else { slot }, ts }
                            })
                            .collect();
                        let (bids, asks) = if side == Side::Bid { (l, vec![]) } else { (vec![], l) };
                        mk(s.draw(w.cfg.seated as u64) as usize, Act::Multi { bids, asks, client: None, beh: s.draw(2) as u8, ff: false })
                    }
                    1 => Step::Clock { slots: s.draw(2) + if life > 0 { life } else { 0 }, secs: life + s.draw(2) },
                    _ => {
                        self.plans.pop();
                        let who = s.draw(w.cfg.seated as u64) as usize;
                        let base = if s.chance(1, 2) { 1 + s.draw(4) } else { n + s.draw(n) };
                        // through the front order of the wall's side, or all of it
                        let back = st.book(side).iter().rev().map(|o| o.price).next().unwrap_or(w.cfg.mid);
                        let probe = match s.draw(3) {
                            0 => st.book(side).get(n as usize).map(|o| o.price).unwrap_or(back),
                            1 => back,
                            _ => st.book(side).first().map(|o| if side == Side::Bid { o.price.saturating_sub(14).max(1) } else { o.price.saturating_add(14) }).unwrap_or(w.cfg.mid),
                        };
                        let ml = match s.draw(4) {
                            0 => Some(n),
                            1 => Some(n + 1),
                            2 => Some(s.draw(n + 2)),
                            _ => None,
                        };
                        let stb = self.stb(s);
                        let client = self.client(s);
                        match s.draw(4) {
                            0 | 1 => mk(who, Act::Place { p: Pkt::PostOnly { side: opp, price: probe, base, client, reject: s.chance(1, 2), free_only: false, slot: None, ts: None, silent: false }, ff: false }),
                            2 => mk(who, Act::Place { p: Pkt::Limit { side: opp, price: probe, base, stb, ml, client, free_only: false, slot: None, ts: None, silent: false }, ff: false }),
                            _ => mk(who, Act::Swap { p: Pkt::Ioc { side: opp, price: Some(probe), base, quote: 0, min_base: 0, min_quote: 0, stb, ml, client, free_only: false, slot: None, ts: None }, ff: false }),
                        }
                    }
                }
            }
            Plan::Oust { t, left, .. } => {
                let k = w.actors[t];
                match seat_status(&w.bank, &w.mk[m].key, &k) {
                    None => {
                        self.plans.pop();
                        noop
                    }
                    Some(1) if left >= 4 => mk(au, Act::ChangeSeat { trader: k, status: if s.chance(1, 4) { 2 } else { 0 } }),
                    _ => {
                        if let Some(sd) = [Side::Bid, Side::Ask].iter().find(|sd| st.book(**sd).iter().any(|o| o.tr == k)) {
                            if s.chance(1, 8) {
                                return mk(au, Act::Evict { trader: k });
                            }
                            let cancel = if s.chance(1, 3) { Some(1 + s.draw(2) as u32) } else { None };
                            mk(au, Act::ForceCancel { trader: k, side: *sd, tick: None, search: None, cancel })
                        } else if st.traders.contains_key(&k) {
                            mk(au, Act::Evict { trader: k })
                        } else {
                            self.plans.pop();
                            mk(au, Act::ChangeSeat { trader: k, status: 1 })
                        }
                    }
                }
            }
            Plan::Drain { .. } => {
                if s.chance(1, 10) {
                    // too early on purpose
                    let status = *s.pick(&[5u8, 4, 1]);
                    return mk(au, Act::ChangeStatus { status, receiver: None });
                }
                for (k, _) in st.traders.iter() {
                    if seat_status(&w.bank, &w.mk[m].key, k) == Some(1) {
                        return mk(au, Act::ChangeSeat { trader: *k, status: 0 });
                    }
                    if let Some(sd) = [Side::Bid, Side::Ask].iter().find(|sd| st.book(**sd).iter().any(|o| o.tr == *k)) {
                        return mk(au, Act::ForceCancel { trader: *k, side: *sd, tick: None, search: None, cancel: None });
                    }
                    return mk(au, Act::Evict { trader: *k });
                }
                // sometimes the fees are left for last
                if st.unclaimed > 0 && s.chance(1, if st.hdr.status() == 4 { 2 } else { 3 }) {
                    return mk(0, Act::CollectFees { to: st.hdr.fee_recipient() });
                }
                match st.hdr.status() {
                    1 => mk(au, Act::ChangeStatus { status: 2 + s.draw(2) as u8, receiver: None }),
                    2 | 3 => mk(au, Act::ChangeStatus { status: 4, receiver: None }),
                    _ => mk(au, Act::ChangeStatus { status: 5, receiver: if s.chance(1, 2) { Some(rent_receiver(s, w)) } else { None } }),
                }
            }
        }
    }

    pub fn next(&mut self, s: &mut Src, w: &World) -> Step {
        if !self.plans.is_empty() && !s.chance(1, 12) {
            return self.planned(s, w);
        }
        let m = if w.mk.len() > 1 { s.draw(w.mk.len() as u64) as usize } else { 0 };
        if w.st[m].is_none() {
            return self.dead_op(s, w, m);
        }
        let wts = self.prof.w;
        let kind = s.weighted(&wts);
        self.op(s, w, m, kind)
    }

    /// something aimed at a market that is gone
    fn dead_op(&mut self, s: &mut Src, w: &World, m: usize) -> Step {
        let t = w.actors[0];
        let pk = Pkt::Ioc { side: Side::Bid, price: None, base: 1, quote: 0, min_base: 0, min_quote: 0, stb: Stb::Abort, ml: None, client: 0, free_only: false, slot: None, ts: None };
        let acts = [
            (0, Act::Swap { p: pk, ff: false }),
            (0, Act::Withdraw { quote: None, base: None }),
            (0, Act::Deposit { quote: 1, base: 1 }),
            (0, Act::CancelAll { ff: true }),
            (AUTH, Act::ChangeStatus { status: 1, receiver: None }),
            (AUTH, Act::ChangeSeat { trader: t, status: 1 }),
            (0, Act::CollectFees { to: w.actors[FEE] }),
            (AUTH, Act::NameSuccessor { to: t }),
            (0, Act::RequestSeat),
        ];
        let (who, act) = s.pick(&acts).clone();
        Step::Op(Op { m, who, nosign: false, act })
    }

    /// pushes the start-of-case macros
    pub fn open(&mut self, s: &mut Src, w: &World) {
        if self.prof.fill > 0 && s.chance(self.prof.fill, 8) && w.cfg.size < 3 {
            let st = w.st[0].as_ref().unwrap();
            let side = if s.chance(1, 2) { Side::Ask } else { Side::Bid };
            let target = st.cap(side).saturating_sub(s.draw(3) as usize);
            self.plans.push(Plan::Fill { m: 0, side, target, left: 40 });
        }
    }
}

/// a key that no actor holds
fn odd_key(s: &mut Src, w: &World, m: usize) -> Pubkey {
    match s.draw(6) {
        0 => Pubkey::default(),
        1 => w.mk[m].key,
        2 => keys::program(),
        3 => keys::token_program(),
        4 => keys::log_authority(),
        _ => keys::key("nobody", s.draw(4)),
    }
}

pub fn donate(w: &mut World, h: &mut Hist, m: usize, base: bool, amt: u64) {
    let k = w.mk[m].clone();
    let (mint, vault) = if base { (k.base_mint, k.base_vault) } else { (k.quote_mint, k.quote_vault) };
    let from = keys::ata(&w.actors[5], &mint);
    let have = tok_amount(&w.bank, &from).unwrap_or(0);
    let n = amt.min(have);
    if n == 0 || tok_amount(&w.bank, &vault).is_none() {
        return;
    }
    for (key, d) in [(from, -(n as i128)), (vault, n as i128)] {
        let mut a = (**w.bank.get(&key).unwrap()).clone();
        let v = (g64(&a.data, 64) as i128 + d) as u64;
        a.data[64..72].copy_from_slice(&v.to_le_bytes());
        w.bank.put(key, a);
    }
    // the vault may be shared with no one: each market has its own
    if let Some(s) = &mut h.m[m].surplus {
        if base {
            s.0 += n as i128;
        } else {
            s.1 += n as i128;
        }
    }
}

pub fn wanted(o: Out) -> bool {
    o == Out::Ok
}

/// Who gets a deleted market's rent: somebody known, or a wallet that does not exist yet (nothing in it).
fn rent_receiver(s: &mut Src, w: &World) -> Pubkey {
    match s.draw(6) {
        0 | 1 => w.actors[RECV],
        2 => w.actors[AUTH],
        3 => w.actors[0],
        n => keys::key("new wallet", n),
    }
}
