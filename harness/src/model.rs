//! Reference model: given the observed state before an instruction, what the instruction must do.
//! Written from the documented semantics with plain vectors and 128-bit arithmetic; it shares no
//! code with the program.
use crate::enc::*;
use crate::obs::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    Ok,
    Err,
    /// arithmetic leaves 64 bits: either a refusal or any state that keeps the invariants
    Any,
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub fills: u32,
    pub makers: u32,
    pub partial_last: bool,
    pub self_hits: u32,
    pub expired: u32,
    pub evicted: u32,
    pub posted: u32,
    pub removed: u32,
    pub fee: u64,
    pub matched_adj: u128,
    pub filled_base: u64,
    pub amended: u32,
    pub merged: u32,
    pub skipped: u32,
    pub dead_on_arrival: bool,
    pub silent_skip: bool,
    pub used_free: bool,
    pub drew_wallet: bool,
    pub paid_out: bool,
    pub book_full: bool,
    pub limit_hit: bool,
    pub min_checked: bool,
    pub queue_jump: bool,
}

#[derive(Clone, Debug)]
pub struct Pred {
    pub out: Out,
    pub why: &'static str,
    /// market afterwards; None = the account is gone
    pub mkt: Option<Mkt>,
    pub tok: BTreeMap<Pubkey, i128>,
    pub lam: BTreeMap<Pubkey, i128>,
    pub seats: Vec<(Pubkey, u64)>,
    pub evs: Vec<Ev>,
    pub ret: Vec<(u64, u64)>,
    pub info: Info,
}

pub enum Fail {
    No(&'static str),
    Ovf,
}
type R<T> = Result<T, Fail>;
fn mul(a: u64, b: u64) -> R<u64> {
    a.checked_mul(b).ok_or(Fail::Ovf)
}
fn add(a: u64, b: u64) -> R<u64> {
    a.checked_add(b).ok_or(Fail::Ovf)
}
fn sub(a: u64, b: u64) -> R<u64> {
    a.checked_sub(b).ok_or(Fail::Ovf)
}

pub struct Ctx<'a> {
    pub who: Pubkey,
    pub nosign: bool,
    pub slot: u64,
    pub ts: u64,
    pub keys: &'a MktKeys,
    pub wallet: &'a dyn Fn(&Pubkey, &Pubkey) -> Option<u64>,
    pub seat: &'a dyn Fn(&Pubkey) -> Option<u64>,
    pub seat_lamports: &'a dyn Fn(&Pubkey) -> u64,
    pub mkt_lamports: u64,
    pub seat_rent: u64,
}

#[derive(Default)]
struct Resp {
    q_in: u64,
    b_in: u64,
    q_out: u64,
    b_out: u64,
    q_posted: u64,
    b_posted: u64,
    q_free: u64,
    b_free: u64,
    id: Option<(u64, u64)>,
    traded: bool,
}

fn release(m: &mut Mkt, side: Side, o: &Ord, size: u64) -> R<(u64, u64)> {
    let q = if side == Side::Bid { mul(mul(o.price, m.tick)?, size)? / m.blpbu } else { 0 };
    let t = m.traders.get_mut(&o.tr).ok_or(Fail::Ovf)?;
    if side == Side::Bid {
        t.ql = sub(t.ql, q)?;
        t.qf = add(t.qf, q)?;
        Ok((q, 0))
    } else {
        t.bl = sub(t.bl, size)?;
        t.bf = add(t.bf, size)?;
        Ok((0, size))
    }
}

fn insert_sorted(book: &mut Vec<Ord>, side: Side, o: Ord) {
    let pos = book
        .iter()
        .position(|x| match side {
            Side::Bid => x.price < o.price,
            Side::Ask => x.price > o.price,
        })
        .unwrap_or(book.len());
    book.insert(pos, o);
}

fn fee_adj(m: &Mkt, x: u128) -> u128 {
    (x * m.fee_bps as u128 + 9999) / 10000
}

fn place(m: &mut Mkt, c: &Ctx, p: &Pkt, evs: &mut Vec<Ev>, info: &mut Info) -> R<Resp> {
    let side = p.side();
    let me = c.who;
    if m.seq == 0 || m.seq == u64::MAX >> 1 {
        return Err(Fail::No("sequence exhausted"));
    }
    let (mut price, base, quote) = match p {
        Pkt::PostOnly { price, base, .. } | Pkt::Limit { price, base, .. } => (*price, *base, 0),
        Pkt::Ioc { price, base, quote, .. } => (price.unwrap_or(if side == Side::Bid { u64::MAX } else { 0 }), *base, *quote),
    };
    if side == Side::Bid && price == 0 {
        return Err(Fail::No("bid price zero"));
    }
    if side == Side::Ask && !p.take_only() {
        price = price.max(1);
    }
    if !p.take_only() && !m.traders.contains_key(&me) {
        if m.traders.len() as u64 >= m.caps.2 {
            return Err(Fail::No("trader table full"));
        }
        m.traders.insert(me, Tr::default());
    }
    let registered = m.traders.contains_key(&me);
    if base == 0 && quote == 0 {
        return Err(Fail::No("zero size"));
    }
    if p.take_only() && base > 0 && quote > 0 {
        return Err(Fail::No("both budgets"));
    }
    let (ps, pt) = p.tif();
    if ps.map(|s| c.slot > s).unwrap_or(false) || pt.map(|t| c.ts > t).unwrap_or(false) {
        info.dead_on_arrival = true;
        return Ok(Resp::default());
    }
    let mut r = Resp::default();
    let mut remaining = base;
    if let Pkt::PostOnly { reject, .. } = p {
        // removes expired crossing orders until an unexpired crossing order or no crossing order is on top
        loop {
            let Some(top) = m.book(side.opp()).first().cloned() else { break };
            let crosses = if side == Side::Bid { top.price <= price } else { top.price >= price };
            if !crosses {
                break;
            }
            if top.expired(c.slot, c.ts) {
                m.book_mut(side.opp()).remove(0);
                release(m, side.opp(), &top, top.size)?;
                evs.push(Ev::Expired { maker: top.tr, seq: top.seq, price: top.price, removed: top.size });
                info.expired += 1;
                continue;
            }
            if *reject {
                return Err(Fail::No("post-only crosses"));
            }
            if side == Side::Bid {
                if top.price <= 1 {
                    return Err(Fail::No("post-only cannot be amended"));
                }
                price = top.price - 1;
            } else {
                price = add(top.price, 1)?;
            }
            info.amended += 1;
            break;
        }
    } else {
        let (stb, ml) = match p {
            Pkt::Limit { stb, ml, .. } | Pkt::Ioc { stb, ml, .. } => (*stb, ml.unwrap_or(u64::MAX)),
            _ => unreachable!(),
        };
        let mut ml = ml;
        let mut base_left = if base == 0 { u64::MAX } else { base };
        let mut adj_left = u64::MAX;
        if quote > 0 {
            let q = mul(quote, m.blpbu)? as u128;
            let max = u64::MAX as u128;
            let f = fee_adj(m, max) as u64 as u128;
            let d = if side == Side::Bid { max + f } else { max - f };
            if d == 0 {
                return Err(Fail::Ovf);
            }
            adj_left = u64::try_from(q * max / d).unwrap_or(u64::MAX);
        }
        let mut matched_adj: u64 = 0;
        let mut matched_base: u64 = 0;
        let mut makers: Vec<Pubkey> = vec![];
        let mut stop = false;
        while base_left > 0 && adj_left > 0 && ml > 0 && !stop {
            let Some(top) = m.book(side.opp()).first().cloned() else { break };
            let crossed = if side == Side::Bid { top.price <= price } else { top.price >= price };
            if !crossed {
                info.limit_hit = true;
                break;
            }
            if top.expired(c.slot, c.ts) {
                m.book_mut(side.opp()).remove(0);
                release(m, side.opp(), &top, top.size)?;
                evs.push(Ev::Expired { maker: top.tr, seq: top.seq, price: top.price, removed: top.size });
                info.expired += 1;
                ml -= 1;
                continue;
            }
            let unit = mul(top.price, m.tick)?;
            if registered && top.tr == me {
                info.self_hits += 1;
                match stb {
                    Stb::Abort => return Err(Fail::No("self trade abort")),
                    Stb::CancelProvide => {
                        m.book_mut(side.opp()).remove(0);
                        release(m, side.opp(), &top, top.size)?;
                        evs.push(Ev::Reduce { seq: top.seq, price: top.price, removed: top.size, remaining: 0 });
                    }
                    Stb::DecrementTake => {
                        if unit == 0 {
                            return Err(Fail::Ovf);
                        }
                        let n = base_left.min(adj_left / unit).min(top.size);
                        if n == top.size {
                            m.book_mut(side.opp()).remove(0);
                        } else {
                            m.book_mut(side.opp())[0].size -= n;
                        }
                        release(m, side.opp(), &top, n)?;
                        evs.push(Ev::Reduce { seq: top.seq, price: top.price, removed: n, remaining: top.size - n });
                        base_left -= n;
                        adj_left = adj_left.saturating_sub(mul(unit, n)?);
                        stop = n < top.size;
                    }
                }
                ml -= 1;
                continue;
            }
            let whole = mul(unit, top.size)?;
            let (n, cost) = if top.size <= base_left && whole <= adj_left {
                (top.size, whole)
            } else {
                if unit == 0 {
                    return Err(Fail::Ovf);
                }
                let n = base_left.min(adj_left / unit);
                stop = true;
                info.partial_last = true;
                (n, mul(unit, n)?)
            };
            if n == top.size {
                m.book_mut(side.opp()).remove(0);
            } else {
                m.book_mut(side.opp())[0].size -= n;
            }
            base_left -= n;
            adj_left -= cost;
            ml -= 1;
            matched_adj = add(matched_adj, cost)?;
            matched_base = add(matched_base, n)?;
            if n > 0 {
                evs.push(Ev::Fill { maker: top.tr, seq: top.seq, price: top.price, filled: n, remaining: top.size - n });
                info.fills += 1;
                r.traded = true;
                if !makers.contains(&top.tr) {
                    makers.push(top.tr);
                }
            }
            let q = cost / m.blpbu;
            let t = m.traders.get_mut(&top.tr).ok_or(Fail::Ovf)?;
            if side == Side::Bid {
                t.bl = sub(t.bl, n)?;
                t.qf = add(t.qf, q)?;
            } else {
                t.ql = sub(t.ql, q)?;
                t.bf = add(t.bf, n)?;
            }
        }
        info.makers = makers.len() as u32;
        let fa = fee_adj(m, matched_adj as u128);
        let fee = u64::try_from((fa + m.blpbu as u128 - 1) / m.blpbu as u128).map_err(|_| Fail::Ovf)?;
        if fa + m.blpbu as u128 > u64::MAX as u128 || matched_adj as u128 + m.blpbu as u128 > u64::MAX as u128 {
            return Err(Fail::Ovf);
        }
        m.unclaimed = add(m.unclaimed, fee)?;
        info.fee = fee;
        info.matched_adj = matched_adj as u128;
        info.filled_base = matched_base;
        let total_quote = if side == Side::Bid {
            let q = add((matched_adj + m.blpbu - 1) / m.blpbu, fee)?;
            r.q_in = q;
            r.b_out = matched_base;
            q
        } else {
            let q = sub(matched_adj / m.blpbu, fee)?;
            r.b_in = matched_base;
            r.q_out = q;
            q
        };
        evs.push(Ev::Summary { client: p.client(), base: matched_base, quote: total_quote, fee });
        remaining = base_left;
    }
    if let Pkt::Ioc { min_base, min_quote, .. } = p {
        info.min_checked = *min_base > 0 || *min_quote > 0;
        if r.b_in + r.b_out < *min_base || r.q_in + r.q_out < *min_quote {
            return Err(Fail::No("minimum fill not met"));
        }
    } else {
        let crosses = if matches!(p, Pkt::PostOnly { .. }) {
            false
        } else {
            let best = m.book(side.opp()).iter().find(|o| !o.expired(c.slot, c.ts)).map(|o| o.price);
            match side {
                Side::Bid => price >= best.unwrap_or(u64::MAX),
                Side::Ask => price <= best.unwrap_or(0),
            }
        };
        if remaining > 0 && !crosses {
            let seq = if side == Side::Bid { !m.seq } else { m.seq };
            let cap = m.cap(side);
            if m.book(side).len() >= cap {
                info.book_full = true;
                let worst = m.book(side).last().cloned().unwrap();
                let better = if side == Side::Bid { price > worst.price } else { price < worst.price };
                if !better {
                    return Err(Fail::No("book full"));
                }
                m.book_mut(side).pop();
                evs.push(Ev::Evict { maker: worst.tr, seq: worst.seq, price: worst.price, evicted: worst.size });
                release(m, side, &worst, worst.size)?;
                info.evicted += 1;
            }
            let to_lock = if side == Side::Bid { mul(mul(m.tick, price)?, remaining)? / m.blpbu } else { remaining };
            insert_sorted(m.book_mut(side), side, Ord { price, seq, tr: me, size: remaining, slot: ps.unwrap_or(0), ts: pt.unwrap_or(0) });
            let t = m.traders.get_mut(&me).unwrap();
            if side == Side::Bid {
                let f = to_lock.min(t.qf);
                t.qf -= f;
                t.ql = add(t.ql, to_lock)?;
                r.q_posted += to_lock;
                r.q_free += f;
            } else {
                let f = to_lock.min(t.bf);
                t.bf -= f;
                t.bl = add(t.bl, to_lock)?;
                r.b_posted += to_lock;
                r.b_free += f;
            }
            evs.push(Ev::Place { seq, client: p.client(), price, placed: remaining });
            if ps.unwrap_or(0) != 0 || pt.unwrap_or(0) != 0 {
                evs.push(Ev::Tif { seq, slot: ps.unwrap_or(0), ts: pt.unwrap_or(0) });
            }
            m.seq += 1;
            r.id = Some((price, seq));
            info.posted += 1;
        }
    }
    if registered {
        let t = m.traders.get_mut(&me).unwrap();
        if side == Side::Bid {
            let f = t.qf.min(r.q_in);
            t.qf -= f;
            r.q_free += f;
        } else {
            let f = t.bf.min(r.b_in);
            t.bf -= f;
            r.b_free += f;
        }
        if r.q_free > 0 || r.b_free > 0 {
            info.used_free = true;
        }
        if p.free_only() {
            t.bf = add(t.bf, r.b_out)?;
            t.qf = add(t.qf, r.q_out)?;
            r.b_out = 0;
            r.q_out = 0;
            if r.b_in + r.b_posted != r.b_free || r.q_in + r.q_posted != r.q_free {
                return Err(Fail::No("free funds insufficient"));
            }
        }
    }
    Ok(r)
}

fn avail(m: &Mkt, c: &Ctx, ff: bool) -> R<(u64, u64)> {
    let t = m.traders.get(&c.who).ok_or(Fail::No("trader not registered"))?;
    let mut a = (t.bf, t.qf);
    if !ff {
        a.0 = add(a.0, (c.wallet)(&c.who, &c.keys.base_mint).unwrap_or(0) / m.hdr.base_lot())?;
        a.1 = add(a.1, (c.wallet)(&c.who, &c.keys.quote_mint).unwrap_or(0) / m.hdr.quote_lot())?;
    }
    Ok(a)
}

fn covered(m: &Mkt, side: Side, price: u64, size: u64, a: (u64, u64)) -> R<bool> {
    Ok(match side {
        Side::Ask => a.0 >= size,
        Side::Bid => a.1 >= mul(mul(price, m.tick)?, size)? / m.blpbu,
    })
}

/// Takes `who`'s order identified by (side, price, seq) down by `size` (None = all of it).
/// Returns None if the order belongs to someone else, Some((quote, base)) freed otherwise.
fn reduce_one(m: &mut Mkt, who: &Pubkey, side: Side, price: u64, seq: u64, size: Option<u64>, evs: &mut Vec<Ev>, info: &mut Info) -> R<Option<(u64, u64)>> {
    let Some(i) = m.book(side).iter().position(|o| o.price == price && o.seq == seq) else { return Ok(Some((0, 0))) };
    let o = m.book(side)[i].clone();
    if o.tr != *who {
        return Ok(None);
    }
    let n = size.unwrap_or(o.size).min(o.size);
    if n == o.size {
        m.book_mut(side).remove(i);
    } else {
        m.book_mut(side)[i].size -= n;
    }
    info.removed += 1;
    evs.push(Ev::Reduce { seq, price, removed: n, remaining: o.size - n });
    Ok(Some(release(m, side, &o, n)?))
}

impl Pred {
    fn pay(&mut self, k: &MktKeys, m: &Mkt, to: &Pubkey, quote: u64, base: u64) -> R<()> {
        self.mv(k.quote_vault, crate::keys::ata(to, &k.quote_mint), mul(quote, m.hdr.quote_lot())?);
        self.mv(k.base_vault, crate::keys::ata(to, &k.base_mint), mul(base, m.hdr.base_lot())?);
        if quote > 0 || base > 0 {
            self.info.paid_out = true;
        }
        Ok(())
    }
    fn mv(&mut self, from: Pubkey, to: Pubkey, n: u64) {
        if n > 0 {
            *self.tok.entry(from).or_default() -= n as i128;
            *self.tok.entry(to).or_default() += n as i128;
        }
    }
}

fn seat_approved(c: &Ctx) -> R<()> {
    match (c.seat)(&c.who) {
        Some(1) => Ok(()),
        _ => Err(Fail::No("seat not approved")),
    }
}
fn post_ok(m: &Mkt) -> R<()> {
    match m.hdr.status() {
        1 | 2 => Ok(()),
        _ => Err(Fail::No("status forbids posting")),
    }
}
fn cross_ok(m: &Mkt) -> R<()> {
    if m.hdr.status() == 1 {
        Ok(())
    } else {
        Err(Fail::No("status forbids trading"))
    }
}
fn reduce_ok(m: &Mkt) -> R<()> {
    match m.hdr.status() {
        1..=4 => Ok(()),
        _ => Err(Fail::No("status forbids withdrawing")),
    }
}
fn auth(m: &Mkt, c: &Ctx) -> R<()> {
    if m.hdr.authority() == c.who {
        Ok(())
    } else {
        Err(Fail::No("not the authority"))
    }
}
fn has_wallets(c: &Ctx, t: &Pubkey) -> R<()> {
    if (c.wallet)(t, &c.keys.base_mint).is_some() && (c.wallet)(t, &c.keys.quote_mint).is_some() {
        Ok(())
    } else {
        Err(Fail::No("no token account"))
    }
}

/// Predicts an instruction on an initialized market.
pub fn predict(pre: &Mkt, c: &Ctx, a: &Act) -> Pred {
    let mut p = Pred { out: Out::Ok, why: "", mkt: Some(pre.clone()), tok: BTreeMap::new(), lam: BTreeMap::new(), seats: vec![], evs: vec![], ret: vec![], info: Info::default() };
    let r = go(pre, c, a, &mut p);
    // funds the wallets do not have
    let r = r.and_then(|_| {
        for (k, d) in &p.tok {
            if *d < 0 {
                let have = [c.who].iter().flat_map(|w| [(crate::keys::ata(w, &c.keys.base_mint), (c.wallet)(w, &c.keys.base_mint)), (crate::keys::ata(w, &c.keys.quote_mint), (c.wallet)(w, &c.keys.quote_mint))]).find(|x| x.0 == *k);
                if let Some((_, Some(h))) = have {
                    if (h as i128) + d < 0 {
                        return Err(Fail::No("wallet too small"));
                    }
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(()) => {
            if let Some(m) = &mut p.mkt {
                let n = m.hdr.seqno() + 1;
                m.hdr.set_seqno(n);
            }
            p
        }
        Err(f) => {
            p.mkt = Some(pre.clone());
            p.tok.clear();
            p.lam.clear();
            p.seats.clear();
            p.evs.clear();
            p.ret.clear();
            match f {
                Fail::No(w) => {
                    p.out = Out::Err;
                    p.why = w;
                }
                Fail::Ovf => {
                    p.out = Out::Any;
                    p.why = "overflow";
                }
            }
            p
        }
    }
}

fn go(pre: &Mkt, c: &Ctx, a: &Act, p: &mut Pred) -> R<()> {
    if c.nosign {
        return Err(Fail::No("signature missing"));
    }
    let mut m = pre.clone();
    let k = c.keys;
    let who = c.who;
    let (qv, bv) = (k.quote_vault, k.base_vault);
    let wq = crate::keys::ata(&who, &k.quote_mint);
    let wb = crate::keys::ata(&who, &k.base_mint);
    match a {
        Act::Place { p: pk, ff } | Act::Swap { p: pk, ff } => {
            let place_ix = matches!(a, Act::Place { .. });
            if place_ix {
                post_ok(&m)?;
                seat_approved(c)?;
            } else {
                cross_ok(&m)?;
                if *ff {
                    seat_approved(c)?;
                }
            }
            if !*ff {
                has_wallets(c, &who)?;
            }
            if pk.take_only() == place_ix || pk.free_only() != *ff {
                return Err(Fail::No("packet does not fit the instruction"));
            }
            if pk.silent() {
                let av = avail(&m, c, *ff)?;
                let (side, price, base) = match pk {
                    Pkt::PostOnly { side, price, base, .. } | Pkt::Limit { side, price, base, .. } => (*side, *price, *base),
                    _ => unreachable!(),
                };
                if !covered(&m, side, price, base, av)? {
                    p.info.silent_skip = true;
                    p.mkt = Some(m);
                    return Ok(());
                }
            }
            let r = place(&mut m, c, pk, &mut p.evs, &mut p.info)?;
            if r.traded {
                cross_ok(&m)?;
            }
            if let Some(id) = r.id {
                p.ret.push(id);
            }
            if !*ff {
                let (ql, bl) = (m.hdr.quote_lot(), m.hdr.base_lot());
                let dq = mul(sub(r.q_in + r.q_posted, r.q_free)?, ql)?;
                let db = mul(sub(r.b_in + r.b_posted, r.b_free)?, bl)?;
                p.mv(qv, wq, mul(r.q_out, ql)?);
                p.mv(bv, wb, mul(r.b_out, bl)?);
                p.mv(wq, qv, dq);
                p.mv(wb, bv, db);
                p.info.drew_wallet = dq > 0 || db > 0;
                p.info.paid_out = r.q_out > 0 || r.b_out > 0;
            }
        }
        Act::Multi { bids, asks, client, beh, ff } => {
            post_ok(&m)?;
            seat_approved(c)?;
            if !*ff {
                has_wallets(c, &who)?;
            }
            if *beh > 3 {
                return Err(Fail::No("bad behaviour"));
            }
            let hb = bids.iter().map(|o| o.price).max().unwrap_or(0);
            let la = asks.iter().map(|o| o.price).min().unwrap_or(u64::MAX);
            if hb >= la {
                return Err(Fail::No("batch crosses itself"));
            }
            let (skip, failx) = (*beh >= 2, *beh % 2 == 1);
            let mut av = avail(&m, c, *ff)?;
            let (mut dq, mut db) = (0u64, 0u64);
            for (list, side) in [(bids, Side::Bid), (asks, Side::Ask)] {
                let mut l: Vec<Cond> = list.clone();
                l.sort_by(|x, y| if side == Side::Bid { y.price.cmp(&x.price) } else { x.price.cmp(&y.price) });
                let mut merged: Vec<Cond> = vec![];
                for o in l {
                    match merged.last_mut() {
                        Some(x) if x.price == o.price && x.slot == o.slot && x.ts == o.ts => {
                            x.size = add(x.size, o.size)?;
                            p.info.merged += 1;
                        }
                        _ => merged.push(o),
                    }
                }
                for o in merged {
                    if skip && !covered(&m, side, o.price, o.size, av)? {
                        p.info.skipped += 1;
                        continue;
                    }
                    let pk = Pkt::PostOnly { side, price: o.price, base: o.size, client: client.unwrap_or(0), reject: failx, free_only: *ff, slot: o.slot, ts: o.ts, silent: skip };
                    let r = place(&mut m, c, &pk, &mut p.evs, &mut p.info)?;
                    if let Some(id) = r.id {
                        p.ret.push(id);
                    }
                    let q = sub(r.q_in + r.q_posted, r.q_free)?;
                    let b = sub(r.b_in + r.b_posted, r.b_free)?;
                    if skip {
                        av.1 = sub(av.1, q + r.q_free)?;
                        av.0 = sub(av.0, b + r.b_free)?;
                    }
                    dq = add(dq, q)?;
                    db = add(db, b)?;
                }
            }
            if *ff {
                if dq > 0 || db > 0 {
                    return Err(Fail::No("free funds insufficient"));
                }
            } else {
                p.mv(wq, qv, mul(dq, m.hdr.quote_lot())?);
                p.mv(wb, bv, mul(db, m.hdr.base_lot())?);
                p.info.drew_wallet = dq > 0 || db > 0;
            }
        }
        Act::Reduce { side, price, seq, size, ff } => {
            if !*ff {
                reduce_ok(&m)?;
                has_wallets(c, &who)?;
            }
            if !m.traders.contains_key(&who) {
                return Err(Fail::No("trader not registered"));
            }
            let (q, b) = reduce_one(&mut m, &who, *side, *price, *seq, Some(*size), &mut p.evs, &mut p.info)?.ok_or(Fail::No("not the owner"))?;
            if !*ff {
                let t = m.traders.get_mut(&who).unwrap();
                t.qf -= q;
                t.bf -= b;
                p.pay(k, &m, &who, q, b)?;
            }
        }
        Act::CancelAll { ff } | Act::CancelUpTo { ff, .. } | Act::CancelIds { ff, .. } => {
            if !*ff {
                reduce_ok(&m)?;
                has_wallets(c, &who)?;
            }
            let ids: Vec<(Side, u64, u64)> = match a {
                Act::CancelAll { .. } => [Side::Bid, Side::Ask].iter().flat_map(|s| m.book(*s).iter().filter(|o| o.tr == who).map(|o| (*s, o.price, o.seq)).collect::<Vec<_>>()).collect(),
                Act::CancelUpTo { side, tick, search, cancel, .. } => select_up_to(&m, &who, *side, *tick, *search, *cancel),
                Act::CancelIds { ids, .. } => ids.iter().filter(|(s, _, q)| (*q >> 63 == 1) == (*s == Side::Bid)).cloned().collect(),
                _ => unreachable!(),
            };
            let (mut q, mut b) = (0u64, 0u64);
            if m.traders.contains_key(&who) {
                for (s, pr, sq) in ids {
                    if let Some((x, y)) = reduce_one(&mut m, &who, s, pr, sq, None, &mut p.evs, &mut p.info)? {
                        q = add(q, x)?;
                        b = add(b, y)?;
                    }
                }
                if !*ff {
                    let t = m.traders.get_mut(&who).unwrap();
                    t.qf -= q;
                    t.bf -= b;
                    p.pay(k, &m, &who, q, b)?;
                }
            }
        }
        Act::ForceCancel { trader, side, tick, search, cancel } => {
            auth(&m, c)?;
            match (c.seat)(trader) {
                Some(0) | Some(2) => {}
                _ => return Err(Fail::No("seat missing or approved")),
            }
            has_wallets(c, trader)?;
            if m.traders.contains_key(trader) {
                let ids = select_up_to(&m, trader, *side, *tick, *search, *cancel);
                let (mut q, mut b) = (0u64, 0u64);
                for (s, pr, sq) in ids {
                    if let Some((x, y)) = reduce_one(&mut m, trader, s, pr, sq, None, &mut p.evs, &mut p.info)? {
                        q = add(q, x)?;
                        b = add(b, y)?;
                    }
                }
                let t = m.traders.get_mut(trader).unwrap();
                t.qf -= q;
                t.bf -= b;
                p.pay(k, &m, trader, q, b)?;
            }
        }
        Act::Evict { trader } => {
            auth(&m, c)?;
            match (c.seat)(trader) {
                Some(0) | Some(2) => {}
                _ => return Err(Fail::No("seat missing or approved")),
            }
            has_wallets(c, trader)?;
            let t = m.traders.get(trader).cloned().ok_or(Fail::No("trader not registered"))?;
            if t.ql > 0 || t.bl > 0 {
                return Err(Fail::No("trader still has orders"));
            }
            m.traders.remove(trader);
            p.pay(k, &m, trader, t.qf, t.bf)?;
            p.info.removed += 1;
        }
        Act::Withdraw { quote, base } => {
            reduce_ok(&m)?;
            has_wallets(c, &who)?;
            let t = m.traders.get_mut(&who).ok_or(Fail::No("trader not registered"))?;
            let q = quote.unwrap_or(t.qf).min(t.qf);
            let b = base.unwrap_or(t.bf).min(t.bf);
            t.qf -= q;
            t.bf -= b;
            p.pay(k, &m, &who, q, b)?;
        }
        Act::Deposit { quote, base } => {
            post_ok(&m)?;
            seat_approved(c)?;
            has_wallets(c, &who)?;
            if !m.traders.contains_key(&who) {
                if m.traders.len() as u64 >= m.caps.2 {
                    return Err(Fail::No("trader table full"));
                }
                m.traders.insert(who, Tr::default());
            }
            let t = m.traders.get_mut(&who).unwrap();
            t.qf = add(t.qf, *quote)?;
            t.bf = add(t.bf, *base)?;
            p.mv(wq, qv, mul(*quote, m.hdr.quote_lot())?);
            p.mv(wb, bv, mul(*base, m.hdr.base_lot())?);
        }
        Act::RequestSeat | Act::RequestSeatAuth { .. } => {
            let (t, payer) = match a {
                Act::RequestSeatAuth { trader, payer } => {
                    auth(&m, c)?;
                    (*trader, *payer)
                }
                _ => {
                    post_ok(&m)?;
                    (who, who)
                }
            };
            if (c.seat)(&t).is_some() {
                return Err(Fail::No("seat exists"));
            }
            p.seats.push((t, 0));
            let need = c.seat_rent.saturating_sub((c.seat_lamports)(&t)) as i128;
            *p.lam.entry(payer).or_default() -= need;
            *p.lam.entry(crate::keys::seat(&k.key, &t).0).or_default() += need;
        }
        Act::ChangeSeat { trader, status } => {
            auth(&m, c)?;
            let cur = (c.seat)(trader).ok_or(Fail::No("no such seat"))?;
            let new = *status as u64;
            if new > 2 {
                return Err(Fail::No("bad seat status"));
            }
            match (cur, new) {
                (x, y) if x == y => {}
                (0, 1) => {
                    if !m.traders.contains_key(trader) {
                        if m.traders.len() as u64 >= m.caps.2 {
                            return Err(Fail::No("trader table full"));
                        }
                        m.traders.insert(*trader, Tr::default());
                    }
                    p.seats.push((*trader, 1));
                }
                (1, 0) | (1, 2) | (0, 2) => p.seats.push((*trader, new)),
                _ => return Err(Fail::No("seat transition")),
            }
        }
        Act::NameSuccessor { to } => {
            auth(&m, c)?;
            m.hdr.set_successor(to);
        }
        Act::Claim => {
            if m.hdr.successor() != who {
                return Err(Fail::No("not the successor"));
            }
            m.hdr.set_authority(&who);
        }
        Act::ChangeStatus { status, receiver } => {
            auth(&m, c)?;
            let (cur, new) = (m.hdr.status(), *status as u64);
            let ok = matches!((cur, new), (1, 1) | (1, 2) | (1, 3) | (2, 1) | (2, 2) | (2, 3) | (2, 4) | (3, 1) | (3, 2) | (3, 3) | (3, 4) | (4, 2) | (4, 3) | (4, 4) | (4, 5));
            if !ok {
                return Err(Fail::No("market transition"));
            }
            if new == 5 {
                if !m.bids.is_empty() || !m.asks.is_empty() || !m.traders.is_empty() || m.unclaimed > 0 {
                    return Err(Fail::No("market not drained"));
                }
                let to = receiver.unwrap_or(who);
                *p.lam.entry(to).or_default() += c.mkt_lamports as i128;
                *p.lam.entry(k.key).or_default() -= c.mkt_lamports as i128;
                p.mkt = None;
                return Ok(());
            }
            m.hdr.set_status(new);
        }
        Act::CollectFees { to } => {
            if *to != m.hdr.fee_recipient() {
                return Err(Fail::No("not the fee recipient's account"));
            }
            if (c.wallet)(to, &k.quote_mint).is_none() {
                return Err(Fail::No("no token account"));
            }
            let f = m.unclaimed;
            m.collected = add(m.collected, f)?;
            m.unclaimed = 0;
            p.evs.push(Ev::Fee { fees: f });
            p.info.fee = f;
            p.pay(k, &m, to, f, 0)?;
        }
        Act::ChangeFeeRecipient { new, prev } => {
            auth(&m, c)?;
            if m.unclaimed > 0 && *prev != Some(m.hdr.fee_recipient()) {
                return Err(Fail::No("previous recipient must sign"));
            }
            m.hdr.set_fee_recipient(new);
        }
        Act::Init(_) => return Err(Fail::No("already initialized")),
    }
    p.mkt = Some(m);
    Ok(())
}

pub fn select_up_to(m: &Mkt, who: &Pubkey, side: Side, tick: Option<u64>, search: Option<u32>, cancel: Option<u32>) -> Vec<(Side, u64, u64)> {
    m.book(side)
        .iter()
        .take(search.map(|x| x as usize).unwrap_or(usize::MAX))
        .filter(|o| {
            o.tr == *who
                && match (side, tick) {
                    (_, None) => true,
                    (Side::Bid, Some(t)) => o.price >= t,
                    (Side::Ask, Some(t)) => o.price <= t,
                }
        })
        .take(cancel.map(|x| x as usize).unwrap_or(usize::MAX))
        .map(|o| (side, o.price, o.seq))
        .collect()
}
