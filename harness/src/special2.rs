//! Checks that are not plain histories, part two: views and conversions, instruction builders, market sizes.
use crate::enc::*;
use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::keys;
use crate::model::Out;
use crate::obs::*;
use crate::rt::Acct;
use crate::special::{any_pred, raw_packet};
use crate::step::*;
use crate::tape::Src;
use crate::world::*;
use phoenix::program as px;
use phoenix::quantities::*;
use phoenix::state as ps;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_instruction::SystemInstruction};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn pside(s: Side) -> ps::Side {
    match s {
        Side::Bid => ps::Side::Bid,
        Side::Ask => ps::Side::Ask,
    }
}
fn pstb(s: Stb) -> ps::SelfTradeBehavior {
    match s {
        Stb::Abort => ps::SelfTradeBehavior::Abort,
        Stb::CancelProvide => ps::SelfTradeBehavior::CancelProvide,
        Stb::DecrementTake => ps::SelfTradeBehavior::DecrementTake,
    }
}
pub fn ppkt(p: &Pkt) -> ps::OrderPacket {
    match p.clone() {
        Pkt::PostOnly { side, price, base, client, reject, free_only, slot, ts, silent } => ps::OrderPacket::PostOnly {
            side: pside(side),
            price_in_ticks: Ticks::new(price),
            num_base_lots: BaseLots::new(base),
            client_order_id: client,
            reject_post_only: reject,
            use_only_deposited_funds: free_only,
            last_valid_slot: slot,
            last_valid_unix_timestamp_in_seconds: ts,
            fail_silently_on_insufficient_funds: silent,
        },
        Pkt::Limit { side, price, base, stb, ml, client, free_only, slot, ts, silent } => ps::OrderPacket::Limit {
            side: pside(side),
            price_in_ticks: Ticks::new(price),
            num_base_lots: BaseLots::new(base),
            self_trade_behavior: pstb(stb),
            match_limit: ml,
            client_order_id: client,
            use_only_deposited_funds: free_only,
            last_valid_slot: slot,
            last_valid_unix_timestamp_in_seconds: ts,
            fail_silently_on_insufficient_funds: silent,
        },
        Pkt::Ioc { side, price, base, quote, min_base, min_quote, stb, ml, client, free_only, slot, ts } => ps::OrderPacket::ImmediateOrCancel {
            side: pside(side),
            price_in_ticks: price.map(Ticks::new),
            num_base_lots: BaseLots::new(base),
            num_quote_lots: QuoteLots::new(quote),
            min_base_lots_to_fill: BaseLots::new(min_base),
            min_quote_lots_to_fill: QuoteLots::new(min_quote),
            self_trade_behavior: pstb(stb),
            match_limit: ml,
            client_order_id: client,
            use_only_deposited_funds: free_only,
            last_valid_slot: slot,
            last_valid_unix_timestamp_in_seconds: ts,
        },
    }
}

// ------------------------------------------------------------------------------------------ C23
pub const R23: &str = "books produced by histories with shared price levels, expiries and moving clocks; the four ladder views at random depths (0 .. all levels, huge) and at times before, at and after each order's limits, compared with the harness' own aggregation of the orders; lot/tick/unit conversions on random and extreme operands against 128-bit arithmetic, including operands that do not fit. Non-trivial: a ladder over a non-empty book, or a conversion with a non-zero result.";

fn own_ladder(book: &[Ord], levels: u64, slot: u64, ts: u64) -> Vec<(u64, u128)> {
    let mut r: Vec<(u64, u128)> = vec![];
    for o in book.iter().filter(|o| !o.expired(slot, ts)) {
        match r.last_mut() {
            Some(l) if l.0 == o.price => l.1 += o.size as u128,
            _ => r.push((o.price, o.size as u128)),
        }
    }
    r.truncate(levels.min(usize::MAX as u64) as usize);
    r
}

fn ladders(s: &mut Src, st: &mut Stats, tr: &mut Trace, w: &World, m: usize) -> Result<(), String> {
    let Some(mk) = &w.st[m] else { return Ok(()) };
    let a = w.bank.get(&w.mk[m].key).unwrap().clone();
    let levels = match s.draw(6) {
        0 => u64::MAX,
        1 => 5,
        2 => 1,
        3 => 0,
        4 => 1 << 32,
        _ => s.draw(12),
    };
    let orders: Vec<&Ord> = mk.bids.iter().chain(mk.asks.iter()).collect();
    let some_time = |s: &mut Src, f: &dyn Fn(&Ord) -> u64, now: u64| -> Option<u64> {
        let near = |s: &mut Src, v: u64| match s.draw(3) {
            0 => v,
            1 => v.saturating_add(1),
            _ => v.saturating_sub(1),
        };
        match s.draw(6) {
            0 => None,
            1 => Some(now),
            2 => Some(0),
            3 => Some(u64::MAX),
            _ => {
                let v: Vec<u64> = orders.iter().map(|o| f(o)).filter(|x| *x != 0).collect();
                if v.is_empty() {
                    return Some(now);
                }
                let x = *s.pick(&v);
                Some(near(s, x))
            }
        }
    };
    let slot = some_time(s, &|o| o.slot, w.bank.slot);
    let ts = some_time(s, &|o| o.ts, w.bank.ts as u64);
    let typed = s.chance(1, 2);
    let sp = px::MarketSizeParams { bids_size: mk.hdr.size().0, asks_size: mk.hdr.size().1, num_seats: mk.hdr.size().2 };
    let body = &a.data[HDR..];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let v = px::load_with_dispatch(&sp, body).map_err(|e| format!("{e:?}"))?.inner;
        let un = |l: ps::markets::Ladder| (l.bids.iter().map(|o| (o.price_in_ticks, o.size_in_base_lots)).collect::<Vec<_>>(), l.asks.iter().map(|o| (o.price_in_ticks, o.size_in_base_lots)).collect::<Vec<_>>());
        let ty = |l: ps::markets::TypedLadder| (l.bids.iter().map(|o| (o.price_in_ticks.as_u64(), o.size_in_base_lots.as_u64())).collect::<Vec<_>>(), l.asks.iter().map(|o| (o.price_in_ticks.as_u64(), o.size_in_base_lots.as_u64())).collect::<Vec<_>>());
        Ok::<_, String>(if typed {
            (ty(v.get_typed_ladder(levels)), ty(v.get_typed_ladder_with_expiration(levels, slot, ts)))
        } else {
            (un(v.get_ladder(levels)), un(v.get_ladder_with_expiration(levels, slot, ts)))
        })
    }));
    let all = (own_ladder(&mk.bids, levels, 0, 0), own_ladder(&mk.asks, levels, 0, 0));
    let (sl, t) = (slot.unwrap_or(0), ts.unwrap_or(0));
    let live = (own_ladder(&mk.bids, levels, sl, t), own_ladder(&mk.asks, levels, sl, t));
    let fits = |x: &(Vec<(u64, u128)>, Vec<(u64, u128)>)| x.0.iter().chain(x.1.iter()).all(|l| l.1 <= u64::MAX as u128);
    st.evals += 1;
    let (got_all, got_live) = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return Err(format!("LADDER: market could not be loaded: {e}")),
        // a level whose total does not fit 64 bits has no ladder
        Err(_) if !fits(&all) => return Ok(()),
        Err(_) => return Err("LADDER: ladder view failed".into()),
    };
    let same = |a: &Vec<(u64, u64)>, b: &Vec<(u64, u128)>| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 as u128 == y.1);
    tr.add(|| format!("ladder levels {levels} slot {slot:?} ts {ts:?}: {got_live:?}"));
    if !same(&got_all.0, &all.0) || !same(&got_all.1, &all.1) {
        return Err(format!("LADDER: ladder of {levels} levels is {got_all:?}, orders give {all:?}"));
    }
    if !same(&got_live.0, &live.0) || !same(&got_live.1, &live.1) {
        return Err(format!("LADDER: ladder of {levels} levels at slot {slot:?} time {ts:?} is {got_live:?}, orders give {live:?}"));
    }
    if !orders.is_empty() {
        let hid = orders.iter().any(|o| o.expired(sl, t));
        let grp = all.0.len() + all.1.len() < orders.len();
        let cut = own_ladder(&mk.bids, u64::MAX, sl, t).len() > live.0.len() || own_ladder(&mk.asks, u64::MAX, sl, t).len() > live.1.len();
        let l = format!("ladder{}{}{}", if hid { ", expired orders left out" } else { "" }, if grp { ", shared levels" } else { "" }, if cut { ", depth cut" } else { "" });
        st.hit(&l, hash(&(levels, sl, t, typed, &live)), || format!("levels {levels} slot {slot:?} ts {ts:?} -> {live:?}"));
    }
    Ok(())
}

fn q(s: &mut Src) -> u64 {
    match s.draw(8) {
        0 => s.draw(100),
        1 => s.draw(1 << 20),
        2 => s.draw(1 << 32),
        3 => 1 << s.draw(64),
        4 => u64::MAX - s.draw(3),
        5 => s.draw(0),
        6 => 10u64.pow(s.draw(20) as u32),
        _ => s.draw(4),
    }
}

/// f must give `want`, or fail when there is no such value
fn exact(what: &str, want: Option<u64>, f: impl FnOnce() -> u64) -> Result<(), String> {
    match (catch_unwind(AssertUnwindSafe(f)), want) {
        (Ok(x), Some(y)) if x == y => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(x), w) => Err(format!("CONVERT: {what} gives {x}, exact value is {w:?}")),
        (Err(_), Some(y)) => Err(format!("CONVERT: {what} failed, exact value is {y}")),
    }
}

fn conversions(s: &mut Src, st: &mut Stats) -> Result<(), String> {
    let (a, b) = (q(s), q(s));
    let prod = a.checked_mul(b);
    let quot = a.checked_div(b);
    let rem = a.checked_rem(b);
    let k = s.draw(10);
    macro_rules! mulp {
        ($x:ident, $y:ident, $r:ident) => {{
            let n = concat!(stringify!($x), " * ", stringify!($y));
            exact(&format!("{n} of {a} and {b}"), prod, || ($x::new(a) * $y::new(b)).as_u64())?;
            exact(&format!("{n} reversed of {b} and {a}"), prod, || ($y::new(b) * $x::new(a)).as_u64())?;
            exact(&format!("{} / {} of {a} and {b}", stringify!($r), stringify!($x)), quot, || {
                let z: $y = $r::new(a) / $x::new(b);
                z.as_u64()
            })?;
            exact(&format!("{} / {} of {a} and {b}", stringify!($r), stringify!($y)), quot, || {
                let z: $x = $r::new(a) / $y::new(b);
                z.as_u64()
            })?;
            n
        }};
    }
    let n = match k {
        0 => mulp!(BaseUnits, BaseLotsPerBaseUnit, BaseLots),
        1 => mulp!(QuoteUnits, QuoteLotsPerQuoteUnit, QuoteLots),
        2 => mulp!(QuoteLots, QuoteAtomsPerQuoteLot, QuoteAtoms),
        3 => mulp!(BaseLots, BaseAtomsPerBaseLot, BaseAtoms),
        4 => mulp!(BaseAtomsPerBaseLot, BaseLotsPerBaseUnit, BaseAtomsPerBaseUnit),
        5 => mulp!(QuoteAtomsPerQuoteLot, QuoteLotsPerQuoteUnit, QuoteAtomsPerQuoteUnit),
        6 => mulp!(QuoteLotsPerBaseUnitPerTick, QuoteAtomsPerQuoteLot, QuoteAtomsPerBaseUnitPerTick),
        7 => mulp!(QuoteLotsPerBaseUnitPerTick, Ticks, QuoteLotsPerBaseUnit),
        8 => mulp!(QuoteLots, BaseLotsPerBaseUnit, AdjustedQuoteLots),
        _ => mulp!(QuoteLotsPerBaseUnit, BaseLots, AdjustedQuoteLots),
    };
    macro_rules! one {
        ($($x:ident),*) => {$(
            let n = stringify!($x);
            exact(&format!("{n} {a}+{b}"), a.checked_add(b), || ($x::new(a) + $x::new(b)).as_u64())?;
            exact(&format!("{n} {a}-{b}"), a.checked_sub(b), || ($x::new(a) - $x::new(b)).as_u64())?;
            exact(&format!("{n} {a}*{b}"), prod, || ($x::new(a) * $x::new(b)).as_u64())?;
            exact(&format!("{n} {a}+={b}"), a.checked_add(b), || { let mut z = $x::new(a); z += $x::new(b); z.as_u64() })?;
            exact(&format!("{n} {a}-={b}"), a.checked_sub(b), || { let mut z = $x::new(a); z -= $x::new(b); z.as_u64() })?;
            exact(&format!("{n} sum {a},{b},1"), a.checked_add(b).and_then(|z| z.checked_add(1)), || [$x::new(a), $x::new(b), $x::new(1)].into_iter().sum::<$x>().as_u64())?;
            exact(&format!("{n} saturating {a}-{b}"), Some(a.saturating_sub(b)), || $x::new(a).saturating_sub($x::new(b)).as_u64())?;
            exact(&format!("{n} {a} unchecked_div {b}"), quot, || $x::new(a).unchecked_div::<BaseLots, QuoteLots>(BaseLots::new(b)).as_u64())?;
            let (x, y) = ($x::new(a), $x::new(b));
            if (x == y) != (a == b) || (x < y) != (a < b) || (x > y) != (a > b) || x.cmp(&y) != a.cmp(&b) || (x == b) != (a == b) || u64::from(x) != a || x.as_u128() != a as u128 || x.to_string() != a.to_string() || x.max(y).as_u64() != a.max(b) {
                return Err(format!("CONVERT: comparison of {n} {a} and {b} is wrong"));
            }
            if $x::ZERO.as_u64() != 0 || $x::ONE.as_u64() != 1 || $x::MAX.as_u64() != u64::MAX || $x::MIN.as_u64() != 0 || $x::default().as_u64() != 0 {
                return Err(format!("CONVERT: constants of {n} are wrong"));
            }
        )*};
    }
    match k {
        0 => {
            one!(BaseUnits, BaseLotsPerBaseUnit);
            exact("AdjustedQuoteLots % BaseLotsPerBaseUnit", rem, || AdjustedQuoteLots::new(a) % BaseLotsPerBaseUnit::new(b))?;
        }
        1 => {
            one!(QuoteUnits, QuoteLotsPerQuoteUnit);
            exact("QuoteAtomsPerQuoteUnit % QuoteLotsPerQuoteUnit", rem, || QuoteAtomsPerQuoteUnit::new(a) % QuoteLotsPerQuoteUnit::new(b))?;
        }
        2 => {
            one!(QuoteLots, QuoteAtoms);
        }
        3 => {
            one!(BaseLots, BaseAtoms);
        }
        4 => {
            one!(BaseAtomsPerBaseLot, BaseAtomsPerBaseUnit);
            exact("BaseAtomsPerBaseUnit % BaseLotsPerBaseUnit", rem, || BaseAtomsPerBaseUnit::new(a) % BaseLotsPerBaseUnit::new(b))?;
        }
        5 => {
            one!(QuoteAtomsPerQuoteLot, QuoteAtomsPerQuoteUnit);
        }
        6 => {
            one!(QuoteLotsPerBaseUnitPerTick, QuoteAtomsPerBaseUnitPerTick);
            exact("QuoteLotsPerBaseUnitPerTick % BaseLotsPerBaseUnit", rem, || QuoteLotsPerBaseUnitPerTick::new(a) % BaseLotsPerBaseUnit::new(b))?;
        }
        7 => {
            one!(Ticks, QuoteLotsPerBaseUnit);
        }
        _ => {
            one!(AdjustedQuoteLots, Ticks);
        }
    }
    st.evals += 1;
    if a != 0 && b != 0 {
        st.hit(&format!("conversion {n}: {}", if prod.is_some() { "exact" } else { "does not fit" }), hash(&(k, a, b)), || format!("{a}, {b}"));
    }
    Ok(())
}

/// ids, their ordering and side, order expiry
fn ids(s: &mut Src, st: &mut Stats) -> Result<(), String> {
    use ps::markets::{FIFOOrderId, FIFORestingOrder, OrderId, RestingOrder};
    let side = if s.chance(1, 2) { Side::Ask } else { Side::Bid };
    let age = |s: &mut Src| if s.chance(1, 2) { 1 + s.draw(5) } else { 1 + q(s) % (u64::MAX >> 1).saturating_sub(1) };
    let (a, b) = (age(s), age(s));
    let (p, r) = if s.chance(1, 2) { (1 + s.draw(3), 1 + s.draw(3)) } else { (q(s), q(s)) };
    let f = |x: u64| if side == Side::Bid { !x } else { x };
    let (x, y) = (FIFOOrderId::new_from_untyped(p, f(a)), FIFOOrderId::new_from_untyped(r, f(b)));
    let z = FIFOOrderId::new(Ticks::new(p), f(a));
    let want = if side == Side::Bid { r.cmp(&p).then(a.cmp(&b)) } else { p.cmp(&r).then(a.cmp(&b)) };
    if x.cmp(&y) != want || x.partial_cmp(&y) != Some(want) || (x == y) != (want == std::cmp::Ordering::Equal) || x != z || OrderId::price_in_ticks(&x) != p {
        return Err(format!("ID: {side:?} orders {p}/{a} and {r}/{b} compare as {:?}, expected {want:?}", x.cmp(&y)));
    }
    if ps::Side::from_order_sequence_number(f(a)) != pside(side) || pside(side).opposite() != pside(side.opp()) {
        return Err(format!("ID: sequence number {:#x} does not name the {side:?} side", f(a)));
    }
    let (ls, lt) = (*s.pick(&[0, 5, u64::MAX]), *s.pick(&[0, 7, u64::MAX]));
    let (ns, nt) = (*s.pick(&[0, 4, 5, 6, u64::MAX]), *s.pick(&[0, 6, 7, 8, u64::MAX]));
    let o = FIFORestingOrder::new(3, BaseLots::new(p), if ls == 0 && s.chance(1, 2) { None } else { Some(ls) }, Some(lt));
    let own = Ord { price: 1, seq: 1, tr: Pubkey::default(), size: p, slot: ls, ts: lt };
    if o.is_expired(ns, nt) != own.expired(ns, nt) || RestingOrder::size(&o) != p {
        return Err(format!("EXPIRY: order valid to slot {ls} time {lt} judged {} at slot {ns} time {nt}", o.is_expired(ns, nt)));
    }
    let opt = |v: u64| if v == 0 { None } else { Some(v) };
    if RestingOrder::last_valid_slot(&o) != opt(ls) || RestingOrder::last_valid_unix_timestamp_in_seconds(&o) != opt(lt) {
        return Err("EXPIRY: limits of a resting order misreported".into());
    }
    // the other constructors set only the limit they name
    for (c, cs, ct) in [
        (FIFORestingOrder::new_default(3, BaseLots::new(p)), 0, 0),
        (FIFORestingOrder::new_with_last_valid_slot(3, BaseLots::new(p), ls), ls, 0),
        (FIFORestingOrder::new_with_last_valid_unix_timestamp(3, BaseLots::new(p), lt), 0, lt),
    ] {
        let own = Ord { price: 1, seq: 1, tr: Pubkey::default(), size: p, slot: cs, ts: ct };
        if c.trader_index != 3 || RestingOrder::size(&c) != p || RestingOrder::last_valid_slot(&c) != opt(cs) || RestingOrder::last_valid_unix_timestamp_in_seconds(&c) != opt(ct) || c.is_expired(ns, nt) != own.expired(ns, nt) {
            return Err(format!("EXPIRY: an order made with limits {cs}/{ct} has {:?}/{:?}", c.last_valid_slot, c.last_valid_unix_timestamp_in_seconds));
        }
    }
    st.evals += 1;
    st.hit("order id comparison", hash(&(side, p, r, a, b)), || format!("{side:?} {p}/{a} vs {r}/{b}: {want:?}"));
    Ok(())
}

/// what the repository's read functions say about a market must be what its bytes say
fn accessors(st: &mut Stats, w: &World, m: usize) -> Result<(), String> {
    let (Some(mk), Some(a)) = (&w.st[m], w.bank.get(&w.mk[m].key)) else { return Ok(()) };
    if !mk.broken.is_empty() {
        return Ok(());
    }
    let v = lib_views(a).map_err(|e| format!("VIEWS: {e}"))?;
    if v != *mk {
        let what = diff_books(mk, &v).unwrap_or_else(|| {
            if v.traders != mk.traders {
                format!("traders {:?}, account holds {:?}", v.traders, mk.traders)
            } else {
                format!("sequence/fee/collected/uncollected/lots per unit/tick/capacity {:?}, account holds {:?} {:?}", (v.seq, v.fee_bps, v.collected, v.unclaimed, v.blpbu, v.tick, v.caps), (mk.seq, mk.fee_bps, mk.collected, mk.unclaimed, mk.blpbu, mk.tick, mk.caps), v.broken)
            }
        });
        return Err(format!("VIEWS: read functions say {what}"));
    }
    st.evals += 1;
    Ok(())
}

fn header_views(s: &mut Src, st: &mut Stats, w: &World, m: usize) -> Result<(), String> {
    let Some(mk) = &w.st[m] else { return Ok(()) };
    let h: px::MarketHeader = *bytemuck::from_bytes(&{
        // aligned copy
        let mut v = vec![0u64; HDR / 8];
        bytemuck::cast_slice_mut::<u64, u8>(&mut v).copy_from_slice(&mk.hdr.0);
        v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()
    });
    let atoms_per_tick = mk.tick as u128 * mk.hdr.quote_lot() as u128;
    if h.get_base_lot_size().as_u64() != mk.hdr.base_lot() || h.get_quote_lot_size().as_u64() != mk.hdr.quote_lot() || h.get_tick_size_in_quote_atoms_per_base_unit().as_u64() as u128 != atoms_per_tick {
        return Err("CONVERT: header lot or tick sizes disagree with the market".into());
    }
    // quote atoms per base unit -> ticks, and back
    let t = s.draw(1 << 24);
    let d = if atoms_per_tick > 1 { s.draw(atoms_per_tick.min(1 << 60) as u64) } else { 0 };
    let price = t as u128 * atoms_per_tick + d as u128;
    if price <= u64::MAX as u128 && h.price_in_ticks(price as u64) != t {
        return Err(format!("CONVERT: {price} quote atoms per base unit is {} ticks, expected {t}", h.price_in_ticks(price as u64)));
    }
    // a base unit at t ticks costs exactly t * tick quote lots when it is blpbu base lots
    let cfg = &w.cfg;
    if atoms_per_tick != cfg.tick as u128 * cfg.quote_lot() as u128 || mk.hdr.base_lot() as u128 * mk.blpbu as u128 != 10u128.pow(cfg.base_dec as u32) * cfg.raw.unwrap_or(1) as u128 && mk.hdr.base_mint() == w.mk[0].base_mint {
        return Err("CONVERT: lot sizes do not multiply back to one unit".into());
    }
    st.evals += 1;
    st.hit("header price conversion", hash(&(t, d, atoms_per_tick as u64)), || format!("{price} atoms/unit = {t} ticks of {atoms_per_tick}"));
    Ok(())
}

pub fn c23(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    for _ in 0..1 + s.draw(6) {
        conversions(s, st)?;
    }
    ids(s, st)?;
    let profs = vec![
        Prof { tif: 3, len: (4, 40), ..Prof::default() }.set(&[(PO, 24), (MULTI, 14), (TICK, 12)]),
        Prof { tif: 4, len: (4, 40), big: true, ..Prof::default() }.set(&[(PO, 24), (MULTI, 14), (TICK, 12)]),
        Prof { fill: 4, len: (0, 30), ..Prof::default() },
    ];
    let (mut w, mut h, mut g) = start(s, st, tr, profs)?;
    header_views(s, st, &w, 0)?;
    let mut n = 0;
    loop {
        s.begin();
        if n > 200 || !more(s, 30) {
            break;
        }
        n += 1;
        let step = g.next(s, &w);
        let rec = apply(&mut w, &mut h, &step, tr);
        s.end();
        if rec.map(|r| r.diffs.iter().any(|d| d.0 == STRUCT)).unwrap_or(false) {
            break;
        }
        if s.chance(1, 2) {
            for m in 0..w.mk.len() {
                accessors(st, &w, m)?;
                ladders(s, st, tr, &w, m)?;
            }
        }
    }
    for m in 0..w.mk.len() {
        accessors(st, &w, m)?;
        ladders(s, st, tr, &w, m)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C25
pub const R25: &str = "in states reached by histories on one or two markets, each action is issued through the repository's builder for it (plain, custom-account, multi-instruction and default variants chosen at random) and executed; outcome and complete effect compared with the model of the action, the required signers with the parties named; packet and batch constructors compared with the harness' encoding. Non-trivial: a builder call whose action is permitted.";

struct Built {
    name: &'static str,
    ix: Instruction,
    custom: bool,
}

fn conds(l: &[Cond]) -> Vec<px::new_order::CondensedOrder> {
    l.iter()
        .map(|c| {
            if c.slot.is_none() && c.ts.is_none() {
                px::new_order::CondensedOrder::new_default(c.price, c.size)
            } else {
                px::new_order::CondensedOrder { price_in_ticks: c.price, size_in_base_lots: c.size, last_valid_slot: c.slot, last_valid_unix_timestamp_in_seconds: c.ts }
            }
        })
        .collect()
}

/// the repository's builder for this action, if it has one; `cu` = custom token accounts (base, quote)
fn builder(s: &mut Src, w: &World, op: &Op, cu: Option<(Pubkey, Pubkey)>) -> Option<Built> {
    use px::instruction_builders::*;
    let k = &w.mk[op.m];
    let (m, t, b, qm) = (&k.key, &w.actors[op.who], &k.base_mint, &k.quote_mint);
    let mut custom = false;
    macro_rules! pick {
        ($plain:ident, $cust:ident $(, $x:expr)*) => {
            match &cu {
                Some((cb, cq)) => {
                    custom = true;
                    (stringify!($cust), $cust(m, t, cb, cq, b, qm $(, $x)*))
                }
                None => (stringify!($plain), $plain(m, t, b, qm $(, $x)*)),
            }
        };
    }
    let upto = |side: Side, tick: Option<u64>, search: Option<u32>, cancel: Option<u32>| px::CancelUpToParams { side: pside(side), tick_limit: tick, num_orders_to_search: search, num_orders_to_cancel: cancel };
    let id = |(sd, p, q): &(Side, u64, u64)| px::CancelOrderParams { side: pside(*sd), price_in_ticks: *p, order_sequence_number: *q };
    let (name, ix) = match &op.act {
        Act::Place { p, ff } | Act::Swap { p, ff } => {
            if p.take_only() != matches!(op.act, Act::Swap { .. }) {
                return None;
            }
            let pk = ppkt(p);
            if *ff {
                ("create_new_order_with_free_funds_instruction", create_new_order_with_free_funds_instruction(m, t, &pk))
            } else {
                pick!(create_new_order_instruction, create_new_order_instruction_with_custom_token_accounts, &pk)
            }
        }
        Act::Multi { bids, asks, client, beh, ff } => {
            use px::new_order::{FailedMultipleLimitOrderBehavior as F, MultipleOrderPacket as M};
            if *beh > 3 {
                return None;
            }
            let f = [F::FailOnInsufficientFundsAndAmendOnCross, F::FailOnInsufficientFundsAndFailOnCross, F::SkipOnInsufficientFundsAndAmendOnCross, F::SkipOnInsufficientFundsAndFailOnCross];
            let i = *beh as usize;
            let pk = if *beh == 1 && client.is_none() && s.chance(1, 2) {
                M::new_default(conds(bids), conds(asks))
            } else if *beh < 2 && s.chance(1, 2) {
                M::new(conds(bids), conds(asks), *client, *beh == 1)
            } else {
                let fb = match i {
                    0 => F::FailOnInsufficientFundsAndAmendOnCross,
                    1 => F::FailOnInsufficientFundsAndFailOnCross,
                    2 => F::SkipOnInsufficientFundsAndAmendOnCross,
                    _ => F::SkipOnInsufficientFundsAndFailOnCross,
                };
                M::new_with_failure_behavior(conds(bids), conds(asks), *client, fb)
            };
            drop(f);
            if *ff {
                ("create_new_multiple_order_with_free_funds_instruction", create_new_multiple_order_with_free_funds_instruction(m, t, &pk))
            } else {
                pick!(create_new_multiple_order_instruction, create_new_multiple_order_instruction_with_custom_token_accounts, &pk)
            }
        }
        Act::Reduce { side, price, seq, size, ff } => {
            let p = px::ReduceOrderParams { base_params: id(&(*side, *price, *seq)), size: *size };
            if *ff {
                ("create_reduce_order_with_free_funds_instruction", create_reduce_order_with_free_funds_instruction(m, t, &p))
            } else {
                pick!(reduce_order_instruction, create_reduce_order_instruction_with_custom_token_accounts, &p)
            }
        }
        Act::CancelAll { ff } => {
            if *ff {
                ("create_cancel_all_order_with_free_funds_instruction", create_cancel_all_order_with_free_funds_instruction(m, t))
            } else {
                pick!(create_cancel_all_orders_instruction, create_cancel_all_orders_instruction_with_custom_token_accounts)
            }
        }
        Act::CancelUpTo { side, tick, search, cancel, ff } => {
            let p = upto(*side, *tick, *search, *cancel);
            if *ff {
                ("create_cancel_up_to_with_free_funds_instruction", create_cancel_up_to_with_free_funds_instruction(m, t, &p))
            } else {
                pick!(create_cancel_up_to_instruction, create_cancel_up_to_instruction_with_custom_token_accounts, &p)
            }
        }
        Act::CancelIds { ids, ff } => {
            let p = px::CancelMultipleOrdersByIdParams { orders: ids.iter().map(id).collect() };
            if *ff {
                ("create_cancel_multiple_orders_by_id_with_free_funds_instruction", create_cancel_multiple_orders_by_id_with_free_funds_instruction(m, t, &p))
            } else {
                pick!(create_cancel_multiple_orders_by_id_instruction, create_cancel_multiple_orders_by_id_instruction_with_custom_token_accounts, &p)
            }
        }
        Act::Withdraw { quote, base } => match (quote, base, &cu) {
            (None, None, None) => ("create_withdraw_funds_instruction", create_withdraw_funds_instruction(m, t, b, qm)),
            (None, None, Some((cb, cq))) if s.chance(1, 2) => {
                custom = true;
                ("create_withdraw_funds_instruction_with_custom_token_accounts", create_withdraw_funds_instruction_with_custom_token_accounts(m, t, cb, cq, b, qm))
            }
            (Some(q), Some(x), None) => ("create_withdraw_funds_with_custom_amounts_instruction", create_withdraw_funds_with_custom_amounts_instruction(m, t, b, qm, *x, *q)),
            (_, _, Some((cb, cq))) => {
                custom = true;
                let p = px::withdraw::WithdrawParams { quote_lots_to_withdraw: *quote, base_lots_to_withdraw: *base };
                ("create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts", create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts(m, t, cb, cq, b, qm, &p))
            }
            _ => return None,
        },
        Act::Deposit { quote, base } => {
            let p = px::deposit::DepositParams { quote_lots_to_deposit: *quote, base_lots_to_deposit: *base };
            match &cu {
                Some((cb, cq)) => {
                    custom = true;
                    let seat = keys::seat(m, t).0;
                    ("create_deposit_funds_instruction_with_custom_token_accounts", create_deposit_funds_instruction_with_custom_token_accounts(m, t, &seat, cb, cq, b, qm, &p))
                }
                None => ("create_deposit_funds_instruction", create_deposit_funds_instruction(m, t, b, qm, &p)),
            }
        }
        Act::RequestSeat => ("create_request_seat_instruction", create_request_seat_instruction(t, m)),
        Act::RequestSeatAuth { trader, payer } => ("create_request_seat_authorized_instruction", create_request_seat_authorized_instruction(t, payer, m, trader)),
        Act::ChangeSeat { trader, status } => {
            use px::status::SeatApprovalStatus as S;
            let v = match status {
                0 => S::NotApproved,
                1 => S::Approved,
                2 => S::Retired,
                _ => return None,
            };
            ("create_change_seat_status_instruction", create_change_seat_status_instruction(t, m, trader, v))
        }
        Act::Evict { trader } => ("create_evict_seat_instruction", create_evict_seat_instruction(t, m, trader, b, qm)),
        Act::NameSuccessor { to } => ("create_name_successor_instruction", create_name_successor_instruction(t, m, to)),
        Act::Claim => ("create_claim_authority_instruction", create_claim_authority_instruction(t, m)),
        Act::ChangeStatus { status, receiver: None } => {
            use px::status::MarketStatus as S;
            let v = match status {
                0 => S::Uninitialized,
                1 => S::Active,
                2 => S::PostOnly,
                3 => S::Paused,
                4 => S::Closed,
                5 => S::Tombstoned,
                _ => return None,
            };
            ("create_change_market_status_instruction", create_change_market_status_instruction(t, m, v))
        }
        Act::CollectFees { to } => {
            if s.chance(1, 2) {
                ("create_collect_fees_instruction_default", create_collect_fees_instruction_default(m, t, to, qm))
            } else {
                ("create_collect_fees_instruction", create_collect_fees_instruction(m, t, &keys::ata(to, qm), qm))
            }
        }
        Act::ChangeFeeRecipient { new, prev } => match prev {
            None => ("create_change_fee_recipient_instruction", create_change_fee_recipient_instruction(t, m, new)),
            Some(p) => ("create_change_fee_recipient_with_unclaimed_fees_instruction", create_change_fee_recipient_with_unclaimed_fees_instruction(t, m, new, p)),
        },
        Act::ForceCancel { .. } | Act::ChangeStatus { .. } | Act::Init(_) => return None,
    };
    Some(Built { name, ix, custom })
}

fn signers(ix: &Instruction) -> Vec<Pubkey> {
    let mut v: Vec<Pubkey> = ix.accounts.iter().filter(|a| a.is_signer).map(|a| a.pubkey).collect();
    v.sort();
    v.dedup();
    v
}
fn named_signers(w: &World, op: &Op) -> Vec<Pubkey> {
    let mut v = vec![w.actors[op.who]];
    match &op.act {
        Act::RequestSeatAuth { payer, .. } => v.push(*payer),
        Act::ChangeFeeRecipient { prev: Some(p), .. } => v.push(*p),
        _ => {}
    }
    v.sort();
    v.dedup();
    v
}

/// every facet but those that say the program (not the builder) went wrong in a way another
/// property already covers would still be the builder's effect differing, so all are judged
fn judge_built(s_hit: &mut Stats, name: &str, w: &World, op: &Op, ix: &Instruction, r: &Rec) -> Result<(), String> {
    s_hit.evals += 1;
    if ix.program_id != keys::program() {
        return Err(format!("BUILDER: {name} addresses program {}", ix.program_id));
    }
    if signers(ix) != named_signers(w, op) {
        return Err(format!("BUILDER: {name} wants signatures of {:?}", signers(ix).iter().map(|k| w.label(k)).collect::<Vec<_>>()));
    }
    if let Some(d) = facets_msg(r, ALL) {
        return Err(format!("BUILDER: {name} for {}: {d}", op_text(w, op)));
    }
    if r.pred.out == Out::Ok {
        s_hit.hit(name, rec_hash(r), || rec_text(w, r));
    }
    Ok(())
}

fn force_cancel_pair(s: &mut Src, st: &mut Stats, tr: &mut Trace, w: &mut World, h: &mut Hist, op: &Op) -> Result<(), String> {
    let Act::ForceCancel { trader, .. } = &op.act else { return Ok(()) };
    let _ = s;
    let k = w.mk[op.m].clone();
    let au = w.actors[op.who];
    let v = px::instruction_builders::create_force_cancel_orders_instructions(&k.key, trader, &au, &k.base_mint, &k.quote_mint);
    let mut todo = vec![Side::Bid, Side::Ask];
    for ix in &v {
        // which side this one is for shows in what it cancels; the encoding says so too
        let side = if ix.data.get(1) == Some(&1) { Side::Ask } else { Side::Bid };
        todo.retain(|x| *x != side);
        let o = Op { m: op.m, who: op.who, nosign: false, act: Act::ForceCancel { trader: *trader, side, tick: None, search: None, cancel: None } };
        let pred = predict_on(w, &o);
        let r = step_ix(w, h, &o, ix, pred);
        tr.add(|| format!("create_force_cancel_orders_instructions: {}", rec_text(w, &r)));
        judge_built(st, "create_force_cancel_orders_instructions", w, &o, ix, &r)?;
    }
    if !todo.is_empty() || v.len() != 2 {
        return Err(format!("BUILDER: create_force_cancel_orders_instructions leaves out {todo:?}"));
    }
    Ok(())
}

fn init_builders(s: &mut Src, st: &mut Stats, tr: &mut Trace, cfg: &Cfg) -> Result<(), String> {
    use px::instruction_builders::*;
    let mut w = World::bare(cfg);
    let (bm, qm) = (keys::key("basemint", cfg.salt), keys::key("quotemint", cfg.salt));
    let size = SIZES[if s.chance(1, 3) { s.draw(12) as usize } else { 0 }];
    let k = mkt_keys(cfg.salt, 5, bm, qm);
    let creator = w.actors[AUTH];
    let coll = *s.pick(&[w.actors[FEE], w.actors[0], creator]);
    let default = s.chance(1, 2);
    let sp = || px::MarketSizeParams { bids_size: size.0, asks_size: size.1, num_seats: size.2 };
    let v = if default {
        create_initialize_market_instructions_default(&k.key, &bm, &qm, &creator, sp(), cfg.qlpqu, cfg.blpbu, cfg.tick, cfg.fee, cfg.raw)
    } else {
        create_initialize_market_instructions(&k.key, &bm, &qm, &creator, sp(), cfg.qlpqu, cfg.blpbu, cfg.tick, cfg.fee, &coll, cfg.raw)
    };
    let name = if default { "create_initialize_market_instructions_default" } else { "create_initialize_market_instructions" };
    let Ok(v) = v else { return Err(format!("BUILDER: {name} refused supported size {size:?}")) };
    if v.len() != 2 {
        return Err(format!("BUILDER: {name} gives {} instructions", v.len()));
    }
    // the first must allocate the market account for the program, paid by the creator
    let sys = solana_program::program_utils::limited_deserialize::<SystemInstruction>(&v[0].data, 1232);
    let space = market_space(size).unwrap();
    match sys {
        Ok(SystemInstruction::CreateAccount { lamports, space: sp, owner })
            if v[0].program_id == keys::system()
                && owner == keys::program()
                && sp as usize == space
                && lamports >= solana_program::rent::Rent::default().minimum_balance(space)
                && v[0].accounts.len() >= 2
                && v[0].accounts[0].pubkey == creator
                && v[0].accounts[1].pubkey == k.key
                && v[0].accounts[..2].iter().all(|a| a.is_signer && a.is_writable) =>
        {
            w.bank.put(k.key, Acct { lamports, data: vec![0; space], owner, exec: false });
        }
        x => return Err(format!("BUILDER: {name} allocates the market account wrongly: {x:?}")),
    }
    let mut w2 = w.clone();
    w2.mk.push(k.clone());
    w2.st.push(None);
    w.mk.push(k.clone());
    w.st.push(None);
    let mut p = cfg.init(if default { creator } else { coll });
    p.size = size;
    let op = Op { m: 0, who: AUTH, nosign: false, act: Act::Init(p) };
    let own = w2.exec(&op);
    let got = w.bank.exec(&v[1]);
    tr.add(|| format!("{name}: {:?} -> {}", op.act, got.ok));
    st.evals += 1;
    if signers(&v[1]) != vec![creator] || v[1].program_id != keys::program() {
        return Err(format!("BUILDER: {name} names wrong signers or program"));
    }
    if own.ok != got.ok {
        return Err(format!("BUILDER: {name}: built instruction {}, the same request encoded by hand {}", if got.ok { "accepted" } else { "refused" }, if own.ok { "accepted" } else { "refused" }));
    }
    if w.bank.accts != w2.bank.accts {
        let d = w.bank.accts.iter().find(|(k, a)| w2.bank.accts.get(*k) != Some(*a)).map(|(k, _)| w.label(k));
        return Err(format!("BUILDER: {name} created a different market than asked for ({d:?})"));
    }
    if own.ok {
        st.hit(name, hash(&(format!("{cfg:?}"), size, default)), || format!("{:?}", op.act));
    }
    // an unsupported size has no instructions
    let badsz = px::MarketSizeParams { bids_size: size.0, asks_size: size.1 + 1 + s.draw(3), num_seats: size.2 };
    if create_initialize_market_instructions(&k.key, &bm, &qm, &creator, badsz, cfg.qlpqu, cfg.blpbu, cfg.tick, cfg.fee, &coll, cfg.raw).is_ok() {
        return Err("BUILDER: initialization instructions built for an unsupported size".into());
    }
    Ok(())
}

fn packet_builders(s: &mut Src, st: &mut Stats) -> Result<(), String> {
    use ps::OrderPacket as O;
    let p = raw_packet(s);
    let sd = p.side();
    let psd = pside(sd);
    let (price, base, quote, client) = (q(s), p.base(), q(s), p.client());
    let stb = *s.pick(&[Stb::Abort, Stb::CancelProvide, Stb::DecrementTake]);
    let ml = if s.chance(1, 2) { Some(q(s)) } else { None };
    let (ff, rej) = (s.chance(1, 2), s.chance(1, 2));
    let po = |client: u128, reject: bool, free_only: bool| Pkt::PostOnly { side: sd, price, base, client, reject, free_only, slot: None, ts: None, silent: false };
    let lim = |stb: Stb, ml: Option<u64>, client: u128, free_only: bool| Pkt::Limit { side: sd, price, base, stb, ml, client, free_only, slot: None, ts: None, silent: false };
    let ioc = |side: Side, price: Option<u64>, base: u64, quote: u64, min_base: u64, min_quote: u64, stb: Stb, ml: Option<u64>, client: u128, free_only: bool| Pkt::Ioc { side, price, base, quote, min_base, min_quote, stb, ml, client, free_only, slot: None, ts: None };
    let cp = Stb::CancelProvide;
    let t = pstb(stb);
    let (name, got, want) = match s.draw(15) {
        0 => ("new_post_only_default", O::new_post_only_default(psd, price, base), po(0, true, false)),
        1 => ("new_post_only_default_with_client_order_id", O::new_post_only_default_with_client_order_id(psd, price, base, client), po(client, true, false)),
        2 => ("new_adjustable_post_only_default_with_client_order_id", O::new_adjustable_post_only_default_with_client_order_id(psd, price, base, client), po(client, false, false)),
        3 => ("new_post_only", O::new_post_only(psd, price, base, client, rej, ff), po(client, rej, ff)),
        4 => ("new_limit_order_default", O::new_limit_order_default(psd, price, base), lim(cp, None, 0, false)),
        5 => ("new_limit_order_default_with_client_order_id", O::new_limit_order_default_with_client_order_id(psd, price, base, client), lim(cp, None, client, false)),
        6 => ("new_limit_order", O::new_limit_order(psd, price, base, t, ml, client, ff), lim(stb, ml, client, ff)),
        7 => ("new_fok_sell_with_limit_price", O::new_fok_sell_with_limit_price(price, base, t, ml, client, ff), ioc(Side::Ask, Some(price), base, 0, base, 0, stb, ml, client, ff)),
        8 => ("new_fok_buy_with_limit_price", O::new_fok_buy_with_limit_price(price, base, t, ml, client, ff), ioc(Side::Bid, Some(price), base, 0, base, 0, stb, ml, client, ff)),
        9 => ("new_ioc_sell_with_limit_price", O::new_ioc_sell_with_limit_price(price, base, t, ml, client, ff), ioc(Side::Ask, Some(price), base, 0, 0, 0, stb, ml, client, ff)),
        10 => ("new_ioc_buy_with_limit_price", O::new_ioc_buy_with_limit_price(price, quote, t, ml, client, ff), ioc(Side::Bid, Some(price), 0, quote, 0, 0, stb, ml, client, ff)),
        11 => ("new_ioc_by_lots", O::new_ioc_by_lots(psd, price, base, t, ml, client, ff), ioc(sd, Some(price), base, 0, 0, 0, stb, ml, client, ff)),
        12 => ("new_ioc_buy_with_slippage", O::new_ioc_buy_with_slippage(quote, base), ioc(Side::Bid, None, 0, quote, base, 0, cp, None, 0, false)),
        13 => ("new_ioc_sell_with_slippage", O::new_ioc_sell_with_slippage(base, quote), ioc(Side::Ask, None, base, 0, 0, quote, cp, None, 0, false)),
        _ => match &p {
            Pkt::Ioc { side, price, base, quote, min_base, min_quote, stb, ml, client, free_only, slot, ts } => {
                ("new_ioc", O::new_ioc(pside(*side), *price, *base, *quote, *min_base, *min_quote, pstb(*stb), *ml, *client, *free_only, *slot, *ts), p.clone())
            }
            _ => return Ok(()),
        },
    };
    st.evals += 1;
    let bytes = borsh::BorshSerialize::try_to_vec(&got).unwrap();
    if bytes != enc_pkt(&want) {
        return Err(format!("PACKET: {name} builds {got:?}, asked for {want:?}"));
    }
    st.hit(&format!("packet {name}"), hash(&(name, &want)), || format!("{want:?}"));
    Ok(())
}

pub fn c25(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    packet_builders(s, st)?;
    let profs = vec![
        Prof { two: 3, odd: 5, extreme: 2, ..Prof::default() }.set(&[(OUST, 3), (FORCE, 5), (EVICT, 4), (SEATCH, 5), (SEATRQ, 4), (COLLECT, 6), (FEEREC, 5), (SUCCESS, 5), (STATUS, 3), (CUP, 5), (CIDS, 6), (RED, 6)]),
        Prof { two: 1, tif: 2, own: 2, ..Prof::default() }.set(&[(OUST, 3), (FORCE, 5), (DRAIN, 1)]),
    ];
    let (mut w, mut h, mut g) = start(s, st, tr, profs)?;
    if s.chance(1, 4) {
        let cfg = w.cfg.clone();
        init_builders(s, st, tr, &cfg)?;
    }
    let mut n = 0;
    loop {
        s.begin();
        if n > 300 || !more(s, 50) {
            break;
        }
        n += 1;
        let step = g.next(s, &w);
        let rec = match &step {
            Step::Op(op) if !op.nosign && w.st[op.m].is_some() => {
                let mut op = op.clone();
                if let Act::ChangeStatus { receiver, .. } = &mut op.act {
                    *receiver = None; // the builder offers no separate receiver
                }
                if matches!(op.act, Act::ForceCancel { .. }) && s.chance(3, 4) {
                    force_cancel_pair(s, st, tr, &mut w, &mut h, &op)?;
                    s.end();
                    continue;
                }
                if s.chance(1, 3) {
                    custom_accounts(s, st, tr, &w, &h, &op)?;
                }
                match builder(s, &w, &op, None) {
                    None => apply(&mut w, &mut h, &Step::Op(op), tr),
                    Some(b) => {
                        let pred = predict_on(&w, &op);
                        let r = step_ix(&mut w, &mut h, &op, &b.ix, pred);
                        tr.add(|| format!("{}: {}", b.name, rec_text(&w, &r)));
                        judge_built(st, b.name, &w, &op, &b.ix, &r)?;
                        Some(r)
                    }
                }
            }
            _ => apply(&mut w, &mut h, &step, tr),
        };
        s.end();
        if rec.map(|r| r.diffs.iter().any(|d| d.0 == STRUCT)).unwrap_or(false) {
            break;
        }
    }
    Ok(())
}

/// the same action with the signer's funds in token accounts other than the associated ones
fn custom_accounts(s: &mut Src, st: &mut Stats, tr: &mut Trace, w: &World, h: &Hist, op: &Op) -> Result<(), String> {
    let k = &w.mk[op.m];
    let me = w.actors[op.who];
    let (cb, cq) = (keys::key("custom base", op.who as u64), keys::key("custom quote", op.who as u64));
    let Some(b) = builder(s, w, op, Some((cb, cq))) else { return Ok(()) };
    if !b.custom {
        return Ok(());
    }
    let Some(mut pred) = predict_on(w, op) else { return Ok(()) };
    let mut w2 = w.clone();
    let mut h2 = h.clone();
    for (c, mint) in [(cb, k.base_mint), (cq, k.quote_mint)] {
        let ata = keys::ata(&me, &mint);
        let Some(a) = w.bank.get(&ata).cloned() else { return Ok(()) };
        w2.bank.put(c, (*a).clone());
        w2.bank.put(ata, tok_acct(&mint, &me, 1 << 40));
        if let Some(d) = pred.tok.remove(&ata) {
            pred.tok.insert(c, d);
        }
    }
    h2.supply = Some(supply(&w2.bank));
    let r = step_ix(&mut w2, &mut h2, op, &b.ix, Some(pred));
    tr.add(|| format!("{}: {}", b.name, rec_text(&w2, &r)));
    judge_built(st, b.name, &w2, op, &b.ix, &r)
}

// ------------------------------------------------------------------------------------------ C28
pub const R28: &str = "one generated history executed on two markets worlds that differ only in the supported market size; outcome, events, ids, balances, books and token accounts compared after every instruction while neither book nor trader table is at capacity; some cases fill a side or the trader table of a size to its advertised capacity, or try an unsupported size. Non-trivial: an instruction that succeeded on both sizes, or a fill to capacity.";

fn strip(m: &Mkt) -> Mkt {
    let mut m = m.clone();
    m.caps = (0, 0, 0);
    for o in [16, 24, 32] {
        m.hdr.set64(o, 0);
    }
    m
}

pub fn c28(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let k = 1 + s.weighted(&[6, 6, 6, 6, 6, 3, 3, 3, 2, 2, 2]);
    match s.draw(24) {
        20 => return fill_side(s, st, tr, k),
        21 => return fill_seats(s, st, tr),
        22 => return unsupported(s, st, tr),
        _ => {}
    }
    let profs = [
        Prof { len: (6, 30), ..Prof::default() },
        Prof { len: (6, 30), tif: 3, own: 2, two: 0, ..Prof::default() }.set(&[(OUST, 4), (FORCE, 3), (EVICT, 3), (SEATCH, 4)]),
    ];
    let i = s.draw(2) as usize;
    let prof = profs[i].clone();
    let mut cfg = gen_cfg(s, &CfgOpts { two: 1, big: false, nofee: prof.nofee });
    cfg.size = if cfg.crowd > 110 { 1 } else { 0 };
    let k = if cfg.crowd > 110 && SIZES[k].2 < 300 { (k + 1) % 12 } else { k };
    let cfg2 = Cfg { size: k, ..cfg.clone() };
    tr.add(|| format!("sizes {:?} and {:?}, configuration {cfg:?}", SIZES[cfg.size], SIZES[k]));
    let a = World::new(&cfg);
    let b = World::new(&cfg2);
    let (mut a, mut b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), Ok(_)) | (Ok(_), Err(e)) | (Err(e), Err(_)) => return Err(format!("SETUP: {e}")),
    };
    let (mut ha, mut hb) = (Hist::start(&a), Hist::start(&b));
    let mut g = Gen::new(prof);
    let mut n = 0;
    loop {
        s.begin();
        if n > 200 || !more(s, 25) {
            break;
        }
        n += 1;
        let step = g.next(s, &a);
        let ra = apply(&mut a, &mut ha, &step, tr);
        let mut quiet = Trace { on: false, lines: vec![] };
        let rb = apply(&mut b, &mut hb, &step, &mut quiet);
        s.end();
        let (Some(ra), Some(rb)) = (ra, rb) else { continue };
        st.evals += 1;
        let name = ra.op.act.name();
        if ra.res.ok != rb.res.ok {
            return Err(format!("OUTCOME: {name} {} on {:?} but {} on {:?}", if ra.res.ok { "succeeded" } else { "failed" }, SIZES[cfg.size], if rb.res.ok { "succeeded" } else { "failed" }, SIZES[k]));
        }
        if ra.evs != rb.evs {
            return Err(format!("EVENTS: {name}: {:?} on {:?} but {:?} on {:?}", ra.evs, SIZES[cfg.size], rb.evs, SIZES[k]));
        }
        if ra.ids != rb.ids {
            return Err(format!("IDS: {name}: {:?} against {:?}", ra.ids, rb.ids));
        }
        match (&ra.post, &rb.post) {
            (None, None) => {}
            (Some(x), Some(y)) => {
                let (p, q) = (strip(x), strip(y));
                if p != q {
                    let d = diff_books(&p, &q).unwrap_or_else(|| "balances, fees or header".into());
                    return Err(format!("STATE: after {name} the markets differ: {d}"));
                }
                if y.caps != SIZES[k] {
                    return Err(format!("STATE: capacities {:?} on a market of size {:?}", y.caps, SIZES[k]));
                }
            }
            _ => return Err(format!("STATE: after {name} only one of the markets exists")),
        }
        for (key, acc) in &a.bank.accts {
            if acc.owner == keys::token_program() || (acc.owner == keys::program() && acc.data.len() == 128) {
                if b.bank.accts.get(key).map(|x| &x.data) != Some(&acc.data) {
                    return Err(format!("STATE: after {name} account {} differs", a.label(key)));
                }
            }
        }
        for (w, h, r, sz) in [(&a, &ha, &ra, cfg.size), (&b, &hb, &rb, k)] {
            let _ = (w, h);
            if let Some(m) = facets_msg(r, ALL) {
                return Err(format!("{m} (size {:?})", SIZES[sz]));
            }
        }
        if ra.res.ok {
            st.hit(&format!("{:?}: {name}", SIZES[k]), rec_hash(&ra) ^ k as u64, || rec_text(&a, &ra));
        }
    }
    Ok(())
}

/// a side takes its advertised number of orders before anything is evicted or refused
fn fill_side(s: &mut Src, st: &mut Stats, tr: &mut Trace, k: usize) -> Result<(), String> {
    let k = if s.chance(1, 4) { 0 } else { k };
    let mut cfg = gen_cfg(s, &CfgOpts { two: 0, big: false, nofee: 1 });
    cfg.size = k;
    cfg.crowd = cfg.crowd.min(SIZES[k].2 as u16 - 20);
    cfg.rich = 2;
    cfg.active = true;
    let side = if s.chance(1, 2) { Side::Ask } else { Side::Bid };
    let shape = s.draw(3);
    let mut w = World::new(&cfg).map_err(|e| format!("SETUP: {e}"))?;
    let cap = if side == Side::Bid { SIZES[k].0 } else { SIZES[k].1 } as usize;
    let step_price = |i: u64| match shape {
        0 => i % 2000,
        1 => (i * 7919) % 2000,
        _ => i / 16,
    };
    // prices far enough from zero for every shape
    let base = 3000u64.max(cfg.mid);
    tr.add(|| format!("filling {side:?} of {:?}, configuration {cfg:?}", SIZES[k]));
    let mut placed = 0usize;
    while placed < cap {
        let nn = (cap - placed).min(48);
        let l: Vec<Cond> = (0..nn)
            .map(|i| {
                let j = (placed + i) as u64;
                let d = step_price(j);
                Cond { price: if side == Side::Bid { base - d } else { base + d }, size: 1, slot: Some(w.bank.slot + 1000 + j), ts: None }
            })
            .collect();
        let (bids, asks) = if side == Side::Bid { (l, vec![]) } else { (vec![], l) };
        let who = (placed / 48) % cfg.seated;
        let op = Op { m: 0, who, nosign: false, act: Act::Multi { bids, asks, client: None, beh: 0, ff: false } };
        let fund = predict_on(&w, &op).map(|p| p.out) == Some(Out::Ok);
        let r = w.exec(&op);
        st.evals += 1;
        if !r.ok {
            if !fund {
                return Ok(()); // out of money, not of room
            }
            return Err(format!("CAPACITY: order {placed}.. of {cap} refused on {:?}: {}", SIZES[k], r.err));
        }
        for l in &r.logs {
            if let Ok(b) = decode_batch(l) {
                if b.evs.iter().any(|e| matches!(e.1, Ev::Evict { .. })) {
                    return Err(format!("CAPACITY: an order was evicted with {placed} of {cap} orders on {:?}", SIZES[k]));
                }
            }
        }
        placed += nn;
        w.refresh(0)?;
    }
    w.refresh(0)?;
    let got = w.st[0].as_ref().map(|m| m.book(side).len()).unwrap_or(0);
    if got != cap {
        return Err(format!("CAPACITY: {got} orders rest after placing {cap} on {:?}", SIZES[k]));
    }
    // then judge one more order each way, and cancel everything
    let mut h = Hist::start(&w);
    for (d, who) in [(1u64, 0usize), (2500, 1 % cfg.seated)] {
        let price = if side == Side::Bid { base + 1 - d.min(base) } else { base + d - 1 };
        let p = Pkt::PostOnly { side, price: price.max(1), base: 1, client: 0, reject: true, free_only: false, slot: None, ts: None, silent: false };
        let op = Op { m: 0, who, nosign: false, act: Act::Place { p, ff: false } };
        let r = crate::step::step(&mut w, &mut h, &op);
        if let Some(m) = facets_msg(&r, ALL) {
            return Err(format!("{m} (full {side:?} side of {:?})", SIZES[k]));
        }
    }
    for who in 0..cfg.seated {
        let op = Op { m: 0, who, nosign: false, act: Act::CancelAll { ff: s.chance(1, 2) } };
        let r = crate::step::step(&mut w, &mut h, &op);
        if let Some(m) = facets_msg(&r, ALL) {
            return Err(format!("{m} (emptying {:?})", SIZES[k]));
        }
    }
    st.hit(&format!("filled {side:?} of {:?}", SIZES[k]), hash(&(k, side, shape, cfg.mid)), || format!("{cap} orders, shape {shape}"));
    Ok(())
}

/// the trader table takes its advertised number of traders
fn fill_seats(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let k = s.draw(12) as usize;
    let mut cfg = gen_cfg(s, &CfgOpts { two: 0, big: false, nofee: 1 });
    cfg.size = k;
    cfg.deposits = true;
    // most of a big table is filled in one go, the rest through the program
    cfg.crowd = (SIZES[k].2 as u16 - 128) + if s.chance(1, 2) { 110 } else { 0 };
    let mut w = World::new(&cfg).map_err(|e| format!("SETUP: {e}"))?;
    let n = SIZES[k].2 as usize;
    tr.add(|| format!("seating {n} traders on {:?}", SIZES[k]));
    w.refresh(0)?;
    let have = w.st[0].as_ref().unwrap().traders.len();
    let au = w.actors[AUTH];
    let mk = w.mk[0].clone();
    for i in 0..n + 1 - have {
        let t = keys::key("mass trader", i as u64);
        for mint in [mk.base_mint, mk.quote_mint] {
            w.bank.put(keys::ata(&t, &mint), tok_acct(&mint, &t, 1 << 40));
        }
        w.bank.put(t, Acct { lamports: 1_000_000_000, data: vec![], owner: Pubkey::default(), exec: false });
        for (who, act) in [(au, Act::RequestSeatAuth { trader: t, payer: au }), (au, Act::ChangeSeat { trader: t, status: 1 }), (t, Act::Deposit { quote: 1, base: 1 })] {
            // a free seat account is not a place in the table; only the approval or deposit may find it full
            let r = w.bank.exec(&build(&mk, &who, false, &act));
            st.evals += 1;
            if have + i < n && !r.ok {
                return Err(format!("CAPACITY: {} refused with {} of {n} traders registered: {}", act.name(), have + i, r.err));
            }
            if have + i == n && r.ok && matches!(act, Act::Deposit { .. }) {
                w.refresh(0)?;
                let got = w.st[0].as_ref().map(|m| m.traders.len()).unwrap_or(0);
                if got != n + 1 {
                    return Err(format!("CAPACITY: deposit accepted from a trader beyond the table of {n}, {got} registered"));
                }
            }
        }
    }
    w.refresh(0)?;
    let m = w.st[0].as_ref().unwrap();
    if m.traders.len() < n || !m.broken.is_empty() {
        return Err(format!("CAPACITY: {} traders registered on {:?} {:?}", m.traders.len(), SIZES[k], m.broken.first()));
    }
    let h = Hist::start(&w);
    if let Some((_, x)) = invariants(&w, &h, 0).first() {
        return Err(format!("CAPACITY: full trader table: {x}"));
    }
    // make room and use it again
    let mut h = Hist::start(&w);
    let first = 0usize;
    let t0 = w.actors[first];
    for (who, act) in [
        (AUTH, Act::ChangeSeat { trader: t0, status: 0 }),
        (AUTH, Act::ForceCancel { trader: t0, side: Side::Bid, tick: None, search: None, cancel: None }),
        (AUTH, Act::Evict { trader: t0 }),
        (AUTH, Act::ChangeSeat { trader: t0, status: 1 }),
        (first, Act::Deposit { quote: 1, base: 1 }),
    ] {
        let op = Op { m: 0, who, nosign: false, act };
        let r = crate::step::step(&mut w, &mut h, &op);
        if let Some(m) = facets_msg(&r, ALL) {
            return Err(format!("{m} (full trader table of {:?})", SIZES[k]));
        }
    }
    st.hit(&format!("seated all of {:?}", SIZES[k]), hash(&(k, cfg.salt)), || format!("{n} traders"));
    Ok(())
}

fn unsupported(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let cfg = gen_cfg(s, &CfgOpts { two: 0, big: false, nofee: 1 });
    let mut w = World::bare(&cfg);
    let real = SIZES[s.draw(12) as usize];
    let v = |s: &mut Src, x: u64| match s.draw(6) {
        0 | 1 | 2 => x,
        3 => x + 1,
        4 => x.saturating_sub(1),
        _ => *s.pick(&[0u64, 128, 512, 1024, 1025, 2048, 4096, 8193, u64::MAX]),
    };
    let size = (v(s, real.0), v(s, real.1), v(s, real.2));
    let m = w.add_market_account(0, real, keys::key("basemint", cfg.salt), keys::key("quotemint", cfg.salt));
    let mut p = cfg.init(w.actors[FEE]);
    p.size = size;
    let r = w.exec(&Op { m, who: AUTH, nosign: false, act: Act::Init(p) });
    let sp = px::MarketSizeParams { bids_size: size.0, asks_size: size.1, num_seats: size.2 };
    let known = SIZES.contains(&size);
    tr.add(|| format!("size {size:?} in an account for {real:?}: {}", if r.ok { "accepted" } else { "refused" }));
    st.evals += 1;
    let zero = vec![0u8; 64];
    let ld = !known && px::load_with_dispatch(&sp, &w.bank.get(&w.mk[m].key).map(|a| a.data[HDR.min(a.data.len())..].to_vec()).unwrap_or(zero)).is_ok();
    if px::get_market_size(&sp).is_ok() != known || (!known && (r.ok || ld)) {
        return Err(format!("SIZE: {size:?} is {}a supported size but was {}", if known { "" } else { "not " }, if known { "refused" } else { "accepted" }));
    }
    if known && size == real && !r.ok {
        return Err(format!("SIZE: supported size {size:?} refused: {}", r.err));
    }
    if known && r.ok && market_space(size) > market_space(real) {
        return Err(format!("SIZE: {size:?} accepted in an account that only fits {real:?}"));
    }
    let _ = any_pred;
    st.hit(if known { "supported size" } else { "unsupported size" }, hash(&(size, real)), || format!("{size:?} in {real:?}"));
    Ok(())
}
