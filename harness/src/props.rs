//! The properties decided over histories: what is generated, judged, and counted for each.
use crate::enc::*;
use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::keys;
use crate::model::Out;
use crate::obs::*;
use crate::step::*;
use crate::tape::Src;
use crate::world::*;
use solana_program::pubkey::Pubkey;

const ENGINE: u32 = OUTCOME | BOOK | MINE | OTHERS | FEES | EVS | TOK | STRUCT;

fn p() -> Prof {
    Prof::default()
}
fn none_direct(_: &World, _: &Hist, _: &Rec) -> Option<String> {
    None
}
fn l(s: &str) -> Option<String> {
    Some(s.to_string())
}
fn summary(r: &Rec) -> Option<(u64, u64, u64)> {
    r.evs.iter().find_map(|e| if let Ev::Summary { base, quote, fee, .. } = e { Some((*base, *quote, *fee)) } else { None })
}
fn pkt(a: &Act) -> Option<&Pkt> {
    match a {
        Act::Place { p, .. } | Act::Swap { p, .. } => Some(p),
        _ => None,
    }
}
fn crosses(a: &Act) -> bool {
    matches!(pkt(a), Some(Pkt::Limit { .. }) | Some(Pkt::Ioc { .. }))
}
fn taker_profs() -> Vec<Prof> {
    vec![
        p().set(&[(IOC, 26), (LIM, 22)]),
        Prof { own: 3, tif: 3, ..p() }.set(&[(IOC, 26), (LIM, 22), (TICK, 10), (WALL, 4)]),
        Prof { tight: 4, ff: 8, ..p() }.set(&[(IOC, 26), (LIM, 22), (DEP, 8), (WALL, 3)]),
    ]
}

/// What the event log says each other trader must have gained or lost, in lots.
pub fn bystander_direct(w: &World, r: &Rec) -> Option<String> {
    bystander_of(w, r, true)
}

/// `admin`: the instruction that ran is the one `r.op` names, so it may act on the seat it names.
pub fn bystander_of(w: &World, r: &Rec, admin: bool) -> Option<String> {
    if !r.res.ok {
        return None;
    }
    let (Some(pre), Some(post)) = (&r.pre, &r.post) else { return None };
    let me = w.actors[r.op.who];
    let subject = match &r.op.act {
        Act::ForceCancel { trader, .. } | Act::Evict { trader } | Act::ChangeSeat { trader, .. } if admin => Some(*trader),
        _ => None,
    };
    let mut exp = pre.traders.clone();
    let mut books = [pre.bids.clone(), pre.asks.clone()];
    for e in &r.evs {
        let (mk, seq, price, n, fill) = match e {
            Ev::Fill { maker, seq, price, filled, .. } => (*maker, *seq, *price, *filled, true),
            Ev::Expired { maker, seq, price, removed } => (*maker, *seq, *price, *removed, false),
            Ev::Evict { maker, seq, price, evicted } => (*maker, *seq, *price, *evicted, false),
            Ev::Reduce { seq, price, removed, .. } => (subject.unwrap_or(me), *seq, *price, *removed, false),
            _ => continue,
        };
        let bid = seq >> 63 == 1;
        let b = &mut books[if bid { 0 } else { 1 }];
        if let Some(i) = b.iter().position(|o| o.seq == seq) {
            if b[i].tr != mk || b[i].price != price {
                return Some(format!("event {e:?} does not name the owner and price of order {:?}", b[i]));
            }
            b[i].size = b[i].size.saturating_sub(n);
            if b[i].size == 0 {
                b.remove(i);
            }
        }
        if mk == me || Some(mk) == subject {
            continue;
        }
        let q = post.quote(price, n).unwrap_or(0);
        let Some(t) = exp.get_mut(&mk) else { return Some(format!("event for unregistered maker {mk}")) };
        match (bid, fill) {
            (true, true) => {
                t.ql = t.ql.wrapping_sub(q);
                t.bf = t.bf.wrapping_add(n);
            }
            (false, true) => {
                t.bl = t.bl.wrapping_sub(n);
                t.qf = t.qf.wrapping_add(q);
            }
            (true, false) => {
                t.ql = t.ql.wrapping_sub(q);
                t.qf = t.qf.wrapping_add(q);
            }
            (false, false) => {
                t.bl = t.bl.wrapping_sub(n);
                t.bf = t.bf.wrapping_add(n);
            }
        }
    }
    for (k, t) in &post.traders {
        if *k == me || Some(*k) == subject {
            continue;
        }
        if exp.get(k) != Some(t) {
            return Some(format!("bystander {} went from {:?} to {t:?}, but its trades and refunds explain {:?}", w.label(k), pre.traders.get(k), exp.get(k)));
        }
    }
    for k in pre.traders.keys() {
        if *k != me && Some(*k) != subject && !post.traders.contains_key(k) {
            return Some(format!("bystander {} was removed from the market", w.label(k)));
        }
    }
    for (i, b) in [&post.bids, &post.asks].iter().enumerate() {
        let a: Vec<&Ord> = books[i].iter().filter(|o| o.tr != me && Some(o.tr) != subject).collect();
        let c: Vec<&Ord> = b.iter().filter(|o| o.tr != me && Some(o.tr) != subject).collect();
        if a != c {
            return Some(format!("bystanders' {} changed in a way no event explains", if i == 0 { "bids" } else { "asks" }));
        }
    }
    // wallets of everyone who did not sign and is not the subject or the fee recipient
    for (i, a) in w.actors.iter().enumerate() {
        if i == r.op.who || Some(*a) == subject || (matches!(r.op.act, Act::CollectFees { .. }) && *a == pre.hdr.fee_recipient()) {
            continue;
        }
        for mint in [w.mk[r.op.m].base_mint, w.mk[r.op.m].quote_mint] {
            let k = keys::ata(a, &mint);
            if tok_amount(&r.pre_bank, &k) != tok_amount(&w.bank, &k) {
                return Some(format!("wallet {} of a bystander changed", w.label(&k)));
            }
        }
    }
    None
}

/// every account of every other market is untouched
pub fn other_market_direct(w: &World, r: &Rec) -> Option<String> {
    for (i, k) in w.mk.iter().enumerate() {
        if i == r.op.m {
            continue;
        }
        let mut ks = vec![k.key, k.base_vault, k.quote_vault];
        ks.extend(w.actors.iter().map(|a| keys::seat(&k.key, a).0));
        for x in ks {
            if r.pre_bank.get(&x).map(|a| a.as_ref()) != w.bank.get(&x).map(|a| a.as_ref()) {
                return Some(format!("{} of another market changed", w.label(&x)));
            }
        }
    }
    None
}

pub fn failed_no_effect(w: &World, r: &Rec) -> Option<String> {
    if !r.res.ok && r.pre_bank.accts != w.bank.accts {
        return Some("a failed instruction changed accounts".into());
    }
    None
}

/// the signer's total holdings move only by what it traded
fn holdings_direct(w: &World, r: &Rec) -> Option<String> {
    if !r.res.ok {
        return None;
    }
    let (Some(pre), Some(post)) = (&r.pre, &r.post) else { return None };
    let me = w.actors[r.op.who];
    let k = &w.mk[r.op.m];
    let a = holdings(&r.pre_bank, pre, k, &me);
    let b = holdings(&w.bank, post, k, &me);
    let d = (b.0 - a.0, b.1 - a.1);
    let want = match pkt(&r.op.act) {
        Some(p) => {
            let (n, q, _) = summary(r).unwrap_or((0, 0, 0));
            let (n, q) = (n as i128 * pre.hdr.base_lot() as i128, q as i128 * pre.hdr.quote_lot() as i128);
            if p.side() == Side::Bid {
                (n, -q)
            } else {
                (-n, q)
            }
        }
        None => match &r.op.act {
            Act::CollectFees { .. } => return None,
            _ => (0, 0),
        },
    };
    if d != want {
        return Some(format!("signer's total base/quote holdings changed by {d:?} atoms, but its trades amount to {want:?}"));
    }
    None
}

fn limits_direct(w: &World, r: &Rec) -> Option<String> {
    let pk = pkt(&r.op.act)?;
    if !r.res.ok || matches!(pk, Pkt::PostOnly { .. }) || r.pred.info.dead_on_arrival {
        return None;
    }
    let side = pk.side();
    let (limit, base, quote, ml, minb, minq) = match pk {
        Pkt::Limit { price, base, ml, .. } => (*price, *base, 0, *ml, 0, 0),
        Pkt::Ioc { price, base, quote, ml, min_base, min_quote, .. } => (price.unwrap_or(if side == Side::Bid { u64::MAX } else { 0 }), *base, *quote, *ml, *min_base, *min_quote),
        _ => return None,
    };
    let (mut n, mut hits) = (0u128, 0u64);
    for e in &r.evs {
        match e {
            Ev::Fill { price, filled, .. } => {
                hits += 1;
                n += *filled as u128;
                if (side == Side::Bid && *price > limit) || (side == Side::Ask && *price < limit) {
                    return Some(format!("filled at {price} beyond the limit {limit}"));
                }
            }
            Ev::Expired { .. } | Ev::Reduce { .. } => hits += 1,
            _ => {}
        }
    }
    if base > 0 && n > base as u128 {
        return Some(format!("traded {n} base lots, more than the order size {base}"));
    }
    let (sb, sq, _) = summary(r).unwrap_or((0, 0, 0));
    if quote > 0 && side == Side::Bid && sq > quote {
        return Some(format!("spent {sq} quote lots, budget was {quote}"));
    }
    if let Some(m) = ml {
        if hits > m {
            return Some(format!("used {hits} matches, limit was {m}"));
        }
    }
    if sb < minb || sq < minq {
        return Some(format!("filled {sb} base / {sq} quote lots, required at least {minb} / {minq}"));
    }
    // what actually moved must agree with what was reported
    holdings_direct(w, r)
}

fn fee_direct(_w: &World, r: &Rec) -> Option<String> {
    if !r.res.ok {
        return None;
    }
    let (Some(pre), Some(post)) = (&r.pre, &r.post) else { return None };
    let vol: u128 = r.evs.iter().map(|e| if let Ev::Fill { price, filled, .. } = e { *price as u128 * pre.tick as u128 * *filled as u128 } else { 0 }).sum();
    let den = 10_000u128 * pre.blpbu as u128;
    let fee = (vol * pre.fee_bps as u128 + den - 1) / den;
    match &r.op.act {
        Act::CollectFees { .. } => {
            if post.unclaimed != 0 || post.collected != pre.collected + pre.unclaimed {
                return Some("collection did not move exactly the uncollected fees".into());
            }
        }
        _ => {
            if post.unclaimed as u128 != pre.unclaimed as u128 + fee || post.collected != pre.collected {
                return Some(format!("matched volume {vol} at {} bps owes {fee} quote lots, uncollected went from {} to {}", pre.fee_bps, pre.unclaimed, post.unclaimed));
            }
            if let Some((_, q, f)) = summary(r) {
                let side = pkt(&r.op.act).map(|p| p.side());
                let want = match side {
                    Some(Side::Bid) => (vol + pre.blpbu as u128 - 1) / pre.blpbu as u128 + fee,
                    _ => vol / pre.blpbu as u128 - fee,
                };
                if f as u128 != fee || q as u128 != want {
                    return Some(format!("fill summary says quote {q} fee {f}, trades say quote {want} fee {fee}"));
                }
            }
        }
    }
    None
}

fn expired_direct(w: &World, r: &Rec) -> Option<String> {
    let (Some(pre), slot, ts) = (&r.pre, w.bank.slot, w.bank.ts as u64) else { return None };
    for e in &r.evs {
        match e {
            Ev::Fill { seq, .. } => {
                if let Some(o) = pre.bids.iter().chain(&pre.asks).find(|o| o.seq == *seq) {
                    if o.expired(slot, ts) {
                        return Some(format!("expired order {o:?} traded at slot {slot} time {ts}"));
                    }
                }
            }
            Ev::Expired { seq, .. } => {
                if let Some(o) = pre.bids.iter().chain(&pre.asks).find(|o| o.seq == *seq) {
                    if !o.expired(slot, ts) {
                        return Some(format!("unexpired order {o:?} removed as expired at slot {slot} time {ts}"));
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn ids_direct(w: &World, r: &Rec) -> Option<String> {
    if !r.res.ok {
        return None;
    }
    let (Some(pre), Some(post)) = (&r.pre, &r.post) else { return None };
    let me = w.actors[r.op.who];
    let newo: Vec<(Side, &Ord)> = [Side::Bid, Side::Ask]
        .iter()
        .flat_map(|s| post.book(*s).iter().filter(|o| !pre.book(*s).iter().any(|x| x.seq == o.seq)).map(|o| (*s, o)).collect::<Vec<_>>())
        .collect();
    let mut got = r.ids.clone();
    let mut want: Vec<(u64, u64)> = newo.iter().map(|(_, o)| (o.price, o.seq)).collect();
    got.sort();
    want.sort();
    // an order of a batch can be evicted again by a later order of the same batch
    let gone: Vec<u64> = r.evs.iter().filter_map(|e| if let Ev::Evict { seq, .. } = e { Some(*seq) } else { None }).collect();
    got.retain(|x| want.contains(x) || !gone.contains(&x.1));
    if got != want {
        return Some(format!("returned ids {:?}, but the orders left resting are {want:?}", r.ids));
    }
    let mut ages: Vec<u64> = r.ids.iter().map(|x| if x.1 >> 63 == 1 { !x.1 } else { x.1 }).collect();
    let sorted = {
        let mut a = ages.clone();
        a.sort();
        a.dedup();
        a
    };
    if ages != sorted {
        return Some(format!("returned ids {:?} are not in placement order", r.ids));
    }
    ages.clear();
    for (side, o) in &newo {
        if o.tr != me {
            return Some(format!("new order {o:?} is not owned by the signer"));
        }
        let cl = r.evs.iter().find_map(|e| if let Ev::Place { seq, client, price, placed } = e { if *seq == o.seq { Some((*client, *price, *placed)) } else { None } } else { None });
        let want_cl = match &r.op.act {
            Act::Multi { client, .. } => client.unwrap_or(0),
            a => pkt(a).map(|p| p.client()).unwrap_or(0),
        };
        if cl != Some((want_cl, o.price, o.size)) {
            return Some(format!("new order {o:?}: place event says (client, price, size) {cl:?}, expected client {want_cl}"));
        }
        if let Some(p) = pkt(&r.op.act) {
            let (s, t) = p.tif();
            if p.side() != *side || (s.unwrap_or(0), t.unwrap_or(0)) != (o.slot, o.ts) {
                return Some(format!("new order {o:?} does not carry the stated side and expiry {s:?} {t:?}"));
            }
        }
        // its owner can cancel it afterwards
        let mut w2 = w.clone();
        let q = w2.exec(&Op { m: r.op.m, who: r.op.who, nosign: false, act: Act::CancelIds { ids: vec![(*side, o.price, o.seq)], ff: true } });
        if !q.ok || w2.refresh(r.op.m).is_err() || w2.st[r.op.m].as_ref().map(|m| m.book(*side).iter().any(|x| x.seq == o.seq)).unwrap_or(true) {
            return Some(format!("returned id {:?} could not be cancelled by its owner: {}", (o.price, o.seq), q.err));
        }
    }
    None
}

/// a batch without skipping equals the same (merged) orders placed one instruction at a time
fn batch_direct(w: &World, r: &Rec) -> Option<String> {
    let Act::Multi { bids, asks, client, beh, ff } = &r.op.act else { return None };
    if !r.res.ok || *beh >= 2 {
        return None;
    }
    let mut w2 = w.clone();
    w2.bank = r.pre_bank.clone();
    for (list, side) in [(bids, Side::Bid), (asks, Side::Ask)] {
        let mut l2: Vec<Cond> = list.clone();
        l2.sort_by(|a, b| if side == Side::Bid { b.price.cmp(&a.price) } else { a.price.cmp(&b.price) });
        let mut i = 0;
        while i < l2.len() {
            let mut c = l2[i].clone();
            while i + 1 < l2.len() && (l2[i + 1].price, l2[i + 1].slot, l2[i + 1].ts) == (c.price, c.slot, c.ts) {
                i += 1;
                c.size = c.size.checked_add(l2[i].size)?;
            }
            i += 1;
            let pk = Pkt::PostOnly { side, price: c.price, base: c.size, client: client.unwrap_or(0), reject: *beh == 1, free_only: *ff, slot: c.slot, ts: c.ts, silent: false };
            let q = w2.exec(&Op { m: r.op.m, who: r.op.who, nosign: false, act: Act::Place { p: pk.clone(), ff: *ff } });
            if !q.ok {
                return Some(format!("the batch was accepted but its order {pk:?} placed alone is refused: {}", q.err));
            }
        }
    }
    w2.refresh(r.op.m).ok()?;
    let (a, b) = (w2.st[r.op.m].as_ref()?, r.post.as_ref()?);
    if let Some(x) = diff_books(a, b) {
        return Some(format!("placed one by one the orders give another book: {x}"));
    }
    if a.traders != b.traders || a.seq != b.seq {
        return Some("placed one by one the orders give other balances or ids".into());
    }
    for acct in [keys::ata(&w.actors[r.op.who], &w.mk[r.op.m].base_mint), keys::ata(&w.actors[r.op.who], &w.mk[r.op.m].quote_mint)] {
        if tok_amount(&w2.bank, &acct) != tok_amount(&w.bank, &acct) {
            return Some(format!("placed one by one the orders cost {} another amount", w.label(&acct)));
        }
    }
    None
}

macro_rules! spec {
    ($f:ident, $spec:expr) => {
        pub fn $f(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
            const SP: Spec = $spec;
            run(s, st, tr, &SP)
        }
    };
}

fn fill_label(r: &Rec) -> Option<String> {
    let i = &r.pred.info;
    if i.fills == 0 {
        return None;
    }
    Some(format!("{} {} maker(s){}{}{}", if r.op.act.name().starts_with("Swap") { "swap" } else { "limit" }, i.makers.min(3), if i.partial_last { " partial" } else { "" }, if i.self_hits > 0 { " self" } else { "" }, if i.expired > 0 { " expired" } else { "" }))
}

spec!(c01, Spec {
    profs: || vec![p(), Prof { two: 4, tif: 3, own: 2, ..p() }.set(&[(DONATE, 4), (OUST, 4), (WD, 8)]), Prof { tight: 4, ..p() }.set(&[(SEATCH, 4), (EVICT, 4), (FORCE, 6), (COLLECT, 6), (OUST, 3)])],
    mask: |r| {
        VAULT | CONSERVE | TOK | MINE | OTHERS | FEES | STRUCT
            | if matches!(r.op.act, Act::Withdraw { .. } | Act::CollectFees { .. } | Act::Evict { .. } | Act::ForceCancel { .. }) || r.op.act.is_cancel() { OUTCOME } else { 0 }
    },
    label: |_, r| {
        let moved = r.res.ok && (!r.pred.tok.is_empty() || r.pred.info.fills > 0 || r.pred.info.removed > 0 || r.pred.info.expired > 0 || r.pred.info.evicted > 0);
        if moved {
            Some(format!("funds moved: {}", r.op.act.name()))
        } else if !r.res.ok && r.pred.out == Out::Err && !r.pred.why.contains("signature") && r.op.act.is_taker() {
            l("refused order")
        } else {
            None
        }
    },
    direct: |w, _, r| failed_no_effect(w, r),
});
spec!(c02, Spec {
    profs: || vec![Prof { tif: 3, own: 3, ..p() }, Prof { fill: 4, len: (0, 40), ..p() }, p().set(&[(RED, 10), (CUP, 6), (OUST, 3)])],
    mask: |_| LOCK | STRUCT,
    label: |_, r| {
        let m = r.post.as_ref()?;
        if r.res.ok && m.traders.values().any(|t| t.ql > 0 || t.bl > 0) && (r.pred.info.posted + r.pred.info.fills + r.pred.info.removed + r.pred.info.expired + r.pred.info.evicted + r.pred.info.self_hits > 0) {
            Some(format!("locks changed: {}", r.op.act.name()))
        } else {
            None
        }
    },
    direct: none_direct,
});
spec!(c03, Spec {
    profs: taker_profs,
    mask: |r| if crosses(&r.op.act) { OUTCOME | BOOK | EVS | MINE | OTHERS | STRUCT } else { 0 },
    label: |_, r| if r.res.ok { fill_label(r) } else { None },
    direct: |_, _, r| {
        // independent of the model: consumed orders form a price-time prefix of the opposite side
        if !r.res.ok {
            return None;
        }
        let pre = r.pre.as_ref()?;
        let opp = pre.book(pkt(&r.op.act)?.side().opp());
        let used: Vec<u64> = r.evs.iter().filter_map(|e| match e { Ev::Fill { seq, .. } | Ev::Expired { seq, .. } | Ev::Reduce { seq, .. } => Some(*seq), _ => None }).collect();
        let pref: Vec<u64> = opp.iter().take(used.len()).map(|o| o.seq).collect();
        if used != pref {
            return Some(format!("orders were consumed in the order {used:?}, price-time priority gives {pref:?}"));
        }
        for e in &r.evs {
            if let Ev::Fill { seq, price, .. } = e {
                let o = opp.iter().find(|o| o.seq == *seq)?;
                if o.price != *price {
                    return Some(format!("trade at {price} with an order resting at {}", o.price));
                }
            }
        }
        None
    },
});
spec!(c04, Spec {
    profs: taker_profs,
    mask: |r| if crosses(&r.op.act) { OUTCOME | TOK | MINE | FRAME } else { 0 },
    label: |_, r| {
        let i = &r.pred.info;
        if r.pred.why == "minimum fill not met" {
            return l("minimum fill not met");
        }
        if i.fills == 0 || !r.res.ok {
            return None;
        }
        let pk = pkt(&r.op.act)?;
        Some(match pk {
            Pkt::Ioc { quote, min_base, min_quote, .. } => format!("ioc{}{}{}", if *quote > 0 { " budget" } else { "" }, if *min_base + *min_quote > 0 { " min" } else { "" }, if i.limit_hit { " stopped at limit" } else { "" }),
            _ => format!("limit{}", if i.limit_hit { " stopped at limit" } else { "" }),
        })
    },
    direct: |w, _, r| limits_direct(w, r).or_else(|| failed_no_effect(w, r)),
});
spec!(c05, Spec {
    profs: || vec![Prof { nofee: 0, ..p() }.set(&[(IOC, 26), (LIM, 22), (COLLECT, 8), (FEEREC, 3)]), Prof { nofee: 0, own: 3, ff: 8, ..p() }.set(&[(IOC, 26), (LIM, 22), (COLLECT, 5)])],
    mask: |r| if crosses(&r.op.act) || matches!(r.op.act, Act::CollectFees { .. }) { ENGINE | FEETOT } else { FEES | FEETOT },
    label: |_, r| {
        if r.res.ok && r.pred.info.fee > 0 {
            Some(format!("fee charged or paid: {}", r.op.act.name()))
        } else if r.res.ok && r.pred.info.fills > 0 {
            l("trade with zero fee")
        } else {
            None
        }
    },
    direct: |w, _, r| fee_direct(w, r),
});
spec!(c06, Spec {
    profs: || vec![Prof { tif: 4, own: 3, ..p() }.set(&[(TICK, 12), (WALL, 4)]), p(), Prof { fill: 4, tif: 2, ..p() }],
    mask: |_| BOOKINV | STRUCT,
    label: |_, r| {
        let m = r.post.as_ref()?;
        if r.res.ok && r.pred.info.posted > 0 && !m.bids.is_empty() && !m.asks.is_empty() {
            Some(format!("posted into a two-sided book: {}{}{}", r.op.act.name(), if r.pred.info.amended > 0 { " amended" } else { "" }, if r.pred.info.fills > 0 { " after fills" } else { "" }))
        } else {
            None
        }
    },
    direct: none_direct,
});
spec!(c07, Spec {
    profs: || vec![Prof { tif: 3, ..p() }.set(&[(PO, 40), (MULTI, 20), (TICK, 10), (WALL, 8)]), Prof { own: 2, ..p() }.set(&[(PO, 40), (LIM, 8), (IOC, 8)])],
    mask: |r| match &r.op.act {
        Act::Place { p: Pkt::PostOnly { .. }, .. } | Act::Multi { .. } => OUTCOME | BOOK | EVS | FEES | MINE | OTHERS | FEETOT,
        _ => 0,
    },
    label: |_, r| {
        if r.pred.why.starts_with("post-only") {
            Some(r.pred.why.to_string())
        } else if r.pred.info.amended > 0 {
            Some(format!("amended{}", if r.pred.info.expired > 0 { " past expired orders" } else { "" }))
        } else if r.pred.info.expired > 0 {
            l("crossed only expired orders")
        } else {
            None
        }
    },
    direct: |w, _, r| {
        if !r.res.ok {
            return failed_no_effect(w, r);
        }
        if r.evs.iter().any(|e| matches!(e, Ev::Fill { .. } | Ev::Summary { .. })) {
            return Some("a post-only order traded".into());
        }
        let (a, b) = (r.pre.as_ref()?, r.post.as_ref()?);
        if a.unclaimed != b.unclaimed {
            return Some("a post-only order paid a fee".into());
        }
        if let Act::Place { p: Pkt::PostOnly { side, price, .. }, .. } = &r.op.act {
            // posted price: as requested, or exactly one tick behind the best unexpired opposite order
            for o in b.book(*side).iter().filter(|o| !a.book(*side).iter().any(|x| x.seq == o.seq)) {
                let best = a.book(side.opp()).iter().find(|x| !x.expired(w.bank.slot, w.bank.ts as u64)).map(|x| x.price);
                let want = match (side, best) {
                    (Side::Bid, Some(x)) if *price >= x => x - 1,
                    (Side::Ask, Some(x)) if *price <= x => x + 1,
                    (Side::Ask, _) => (*price).max(1),
                    _ => *price,
                };
                if o.price != want {
                    return Some(format!("post-only order at {price} was posted at {}, expected {want}", o.price));
                }
            }
        }
        None
    },
});
spec!(c08, Spec {
    profs: || vec![Prof { own: 6, ..p() }.set(&[(IOC, 26), (LIM, 26), (WALL, 3)]), Prof { own: 6, ff: 10, tif: 2, tight: 3, ..p() }.set(&[(IOC, 26), (LIM, 26)])],
    mask: |r| if r.pred.info.self_hits > 0 { ALL } else { 0 },
    label: |_, r| {
        let (stb, q) = match pkt(&r.op.act)? {
            Pkt::Limit { stb, .. } => (*stb, 0),
            Pkt::Ioc { stb, quote, .. } => (*stb, *quote),
            _ => return None,
        };
        Some(format!("{stb:?}{}{}{}", if r.pred.info.fills > 0 { " with fills" } else { "" }, if q > 0 { " quote budget" } else { "" }, if r.pred.info.self_hits > 1 { " repeated" } else { "" }))
    },
    direct: |w, _, r| {
        let me = w.actors[r.op.who];
        if r.evs.iter().any(|e| matches!(e, Ev::Fill { maker, .. } if *maker == me)) {
            return Some("a trader filled its own order".into());
        }
        holdings_direct(w, r).or_else(|| fee_direct(w, r)).or_else(|| failed_no_effect(w, r))
    },
});
spec!(c09, Spec {
    profs: || vec![Prof { tif: 6, own: 2, len: (0, 80), ..p() }.set(&[(TICK, 16), (IOC, 20), (LIM, 20), (PO, 24), (MULTI, 12), (WALL, 10)]), Prof { tif: 7, ff: 8, ..p() }.set(&[(TICK, 20), (PO, 26)])],
    mask: |r| {
        let (slot, ts) = (r.pre_bank.slot, r.pre_bank.ts as u64);
        let i = &r.pred.info;
        let boundary = r.op.act.is_taker() && r.pre.as_ref().map(|m| m.bids.iter().take(3).chain(m.asks.iter().take(3)).any(|o| o.slot == slot || o.ts == ts)).unwrap_or(false);
        let own_tif = pkt(&r.op.act).map(|p| p.tif() != (None, None)).unwrap_or(false);
        if i.expired > 0 || i.dead_on_arrival || boundary || own_tif || r.evs.iter().any(|e| matches!(e, Ev::Expired { .. })) {
            ALL
        } else {
            0
        }
    },
    label: |_, r| {
        let i = &r.pred.info;
        if i.dead_on_arrival {
            l("expired on arrival")
        } else if i.expired > 0 {
            Some(format!("{} expired reached by {}", i.expired.min(3), r.op.act.name()))
        } else {
            let (slot, ts) = (r.pre_bank.slot, r.pre_bank.ts as u64);
            let b = r.pre.as_ref()?;
            if i.fills > 0 && b.bids.first().into_iter().chain(b.asks.first()).any(|o| o.slot == slot || o.ts == ts) {
                l("taken at exactly its last valid slot or time")
            } else if pkt(&r.op.act)?.tif().0 == Some(slot) || pkt(&r.op.act)?.tif().1 == Some(ts) {
                l("arrives at exactly its last valid slot or time")
            } else {
                None
            }
        }
    },
    direct: |w, _, r| expired_direct(w, r).or_else(|| failed_no_effect(w, r)),
});
spec!(c10, Spec {
    profs: || vec![Prof { ff: 3, ..p() }.set(&[(PO, 22), (MULTI, 14), (RED, 20), (CALL, 5), (CUP, 16), (CIDS, 20), (WALL, 3)]), Prof { tif: 3, two: 2, odd: 60, ..p() }.set(&[(PO, 22), (MULTI, 14), (RED, 20), (CALL, 5), (CUP, 16), (CIDS, 20), (STATUS, 5)])],
    mask: |r| if r.op.act.is_cancel() { ALL } else { 0 },
    label: |_, r| {
        if r.res.ok && r.pred.info.removed > 0 {
            Some(format!("{} removed {}", r.op.act.name(), if r.pred.info.removed > 1 { "several" } else { "one" }))
        } else if !r.res.ok && r.pred.why == "not the owner" {
            l("foreign order refused")
        } else if r.res.ok && matches!(&r.op.act, Act::CancelIds { ids, .. } if !ids.is_empty()) {
            l("ids that do not exist or belong to others")
        } else {
            None
        }
    },
    direct: |w, _, r| {
        if !r.res.ok {
            return failed_no_effect(w, r);
        }
        let (a, b) = (r.pre.as_ref()?, r.post.as_ref()?);
        let me = w.actors[r.op.who];
        for s in [Side::Bid, Side::Ask] {
            let x: Vec<&Ord> = a.book(s).iter().filter(|o| o.tr != me).collect();
            let y: Vec<&Ord> = b.book(s).iter().filter(|o| o.tr != me).collect();
            if x != y {
                return Some("a cancel changed someone else's orders".into());
            }
        }
        holdings_direct(w, r)
    },
});
spec!(c11, Spec {
    profs: || vec![Prof { fill: 8, len: (0, 45), extreme: 2, ..p() }.set(&[(PO, 30), (LIM, 20), (MULTI, 10), (IOC, 4), (CIDS, 2), (CALL, 0), (CUP, 1), (STATUS, 0), (SEATCH, 1)]), Prof { fill: 8, len: (0, 60), tif: 2, own: 2, ff: 6, ..p() }.set(&[(PO, 26), (LIM, 20), (FILL, 2), (CALL, 0), (STATUS, 0)])],
    mask: |r| {
        let near = r.pre.as_ref().map(|m| m.bids.len() + 2 >= m.cap(Side::Bid) || m.asks.len() + 2 >= m.cap(Side::Ask)).unwrap_or(false);
        if r.op.act.places() && near {
            ALL
        } else if r.evs.iter().any(|e| matches!(e, Ev::Evict { .. })) {
            ALL
        } else {
            0
        }
    },
    label: |w, r| {
        let i = &r.pred.info;
        if r.pred.why == "book full" {
            l("full side, not better than the worst")
        } else if i.evicted > 0 {
            let me = w.actors[r.op.who];
            let own = r.evs.iter().any(|e| matches!(e, Ev::Evict { maker, .. } if *maker == me));
            Some(format!("evicted {}{}", if own { "own order" } else { "another's order" }, if i.fills > 0 { " after fills" } else { "" }))
        } else if i.posted > 0 {
            l("posted near capacity without eviction")
        } else {
            None
        }
    },
    direct: |w, _, r| {
        if !r.res.ok {
            return failed_no_effect(w, r);
        }
        let a = r.pre.as_ref()?;
        for e in &r.evs {
            if let Ev::Evict { seq, price, .. } = e {
                let side = if *seq >> 63 == 1 { Side::Bid } else { Side::Ask };
                if r.op.act.is_taker() {
                    if a.book(side).len() < a.cap(side) {
                        return Some(format!("evicted an order although the side had {} of {} orders", a.book(side).len(), a.cap(side)));
                    }
                    if a.book(side).last().map(|o| (o.price, o.seq)) != Some((*price, *seq)) {
                        return Some("evicted an order that was not the least aggressive one".into());
                    }
                }
            }
        }
        None
    },
});
spec!(c12, Spec {
    profs: || vec![
        p().set(&[(STATUS, 10), (SEATRQ, 3)]),
        Prof { ff: 8, odd: 10, ..p() }.set(&[(STATUS, 8), (IOC, 12), (LIM, 22), (DEP, 8)]),
        Prof { odd: 5, nofee: 0, ff: 8, ..p() }.set(&[(STATUS, 6), (IOC, 12), (LIM, 30), (PO, 24), (DEP, 8), (RED, 1), (CALL, 0), (CUP, 0), (CIDS, 0)]),
    ],
    mask: |r| {
        let st = r.pre.as_ref().map(|m| m.hdr.status()).unwrap_or(0);
        OUTCOME | FRAME | if st != 1 { ENGINE } else { 0 }
    },
    label: |_, r| {
        let st = r.pre.as_ref()?.hdr.status();
        if st == 1 && !matches!(r.op.act, Act::ChangeStatus { .. }) {
            return None;
        }
        let n = ["?", "active", "post-only", "paused", "closed", "gone"][st.min(5) as usize];
        if r.pred.out == Out::Err && !r.pred.why.contains("status") {
            return None;
        }
        Some(format!("{n}: {} {}", r.op.act.name(), if r.res.ok { "works" } else { "refused" }))
    },
    direct: |w, _, r| {
        let st = r.pre.as_ref()?.hdr.status();
        if st != 1 && r.evs.iter().any(|e| matches!(e, Ev::Fill { .. })) {
            return Some(format!("orders traded while the market status was {st}"));
        }
        if st > 2 && r.evs.iter().any(|e| matches!(e, Ev::Place { .. })) {
            return Some(format!("an order was posted while the market status was {st}"));
        }
        failed_no_effect(w, r)
    },
});
/// A trader without an approved seat tries to trade and deposit with somebody else's (on a copy).
fn borrowed_seat(w: &World, r: &Rec) -> Option<String> {
    let h = rec_hash(r);
    if h % 3 != 0 {
        return None;
    }
    let m = r.op.m;
    let k = &w.mk[m];
    let mk = w.st[m].as_ref()?;
    if mk.hdr.status() != 1 {
        return None;
    }
    let st = |mi: usize, i: usize| seat_status(&w.bank, &w.mk[mi].key, &w.actors[i]);
    let nm = w.mk.len();
    let who = (0..NT).map(|i| (i + h as usize / 3) % NT).find(|i| st(m, *i) != Some(1))?;
    let me = w.actors[who];
    let mut seats: Vec<(String, Pubkey)> = vec![];
    for mi in 0..nm {
        for i in (0..NT).filter(|i| (mi, *i) != (m, who) && st(mi, *i) == Some(1)) {
            seats.push((format!("{}'s seat on {} market", w.label(&w.actors[i]), if mi == m { "this" } else { "the other" }), keys::seat(&w.mk[mi].key, &w.actors[i]).0));
        }
    }
    let mut w2 = w.clone();
    // a look-alike under another program
    let mut d = vec![0u8; 128];
    d[..8].copy_from_slice(&SEAT_DISC.to_le_bytes());
    d[8..40].copy_from_slice(k.key.as_ref());
    d[40..72].copy_from_slice(me.as_ref());
    d[72] = 1;
    let forged = keys::key("forged seat", 0);
    w2.bank.put(forged, crate::rt::Acct { lamports: seat_rent(), data: d, owner: keys::evil(), exec: false });
    seats.push(("forged seat".into(), forged));
    let price = if mk.asks.iter().all(|o| o.price > 1) { 1 } else { return None };
    let po = |ff: bool, size: u64| Act::Place { p: Pkt::PostOnly { side: Side::Bid, price, base: size, client: 0, reject: true, free_only: ff, slot: None, ts: None, silent: false }, ff };
    let size = (mk.blpbu / mk.tick.max(1)).max(1);
    let acts = [
        po(false, size),
        po(true, size),
        Act::Deposit { quote: 1, base: 1 },
        Act::Multi { bids: vec![Cond { price, size, slot: None, ts: None }], asks: vec![], client: None, beh: 0, ff: false },
        Act::Swap { p: Pkt::Ioc { side: Side::Bid, price: Some(1), base: 1, quote: 0, min_base: 0, min_quote: 0, stb: Stb::Abort, ml: None, client: 0, free_only: true, slot: None, ts: None }, ff: true },
    ];
    let (name, seat) = &seats[h as usize / 7 % seats.len()];
    for a in acts.iter() {
        let mut ix = build(k, &me, false, a);
        let own = keys::seat(&k.key, &me).0;
        for x in ix.accounts.iter_mut().filter(|x| x.pubkey == own) {
            x.pubkey = *seat;
        }
        let mut w3 = w2.clone();
        if w3.bank.exec(&ix).ok {
            return Some(format!("{} of {} (seat {:?}) was accepted with {name}", a.name(), w.label(&me), st(m, who)));
        }
    }
    None
}

/// A market's authority tries to approve, suspend or retire a seat of another market (on a copy).
fn foreign_seat_admin(w: &World, r: &Rec) -> Option<String> {
    let h = rec_hash(r);
    let m = r.op.m;
    if h % 3 != 1 || w.mk.len() < 2 {
        return None;
    }
    let mk = w.st[m].as_ref()?;
    let o = (m + 1) % w.mk.len();
    let k = &w.mk[m];
    let au = mk.hdr.authority();
    for t in &w.actors[..NT] {
        let Some(cur) = seat_status(&w.bank, &w.mk[o].key, t) else { continue };
        let seat = keys::seat(&w.mk[o].key, t).0;
        let to = match cur {
            0 => 1,
            1 => (h >> 8) as u8 % 2 * 2,
            _ => continue,
        };
        for a in [Act::ChangeSeat { trader: *t, status: to }, Act::Evict { trader: *t }] {
            let mut ix = build(k, &au, false, &a);
            let own = keys::seat(&k.key, t).0;
            for x in ix.accounts.iter_mut().filter(|x| x.pubkey == own) {
                x.pubkey = seat;
            }
            let mut w2 = w.clone();
            if w2.bank.exec(&ix).ok {
                return Some(format!("the authority of one market carried out {} with the seat of {} on another", a.name(), w.label(t)));
            }
        }
    }
    None
}

spec!(c13, Spec {
    profs: || vec![p().set(&[(SEATRQ, 14), (SEATCH, 20), (DEP, 8), (EVICT, 4), (FORCE, 3), (OUST, 3)]), Prof { odd: 120, two: 3, ff: 8, ..p() }.set(&[(SEATRQ, 14), (SEATCH, 20), (DEP, 8), (EVICT, 4)])],
    mask: |r| match &r.op.act {
        Act::RequestSeat | Act::RequestSeatAuth { .. } | Act::ChangeSeat { .. } => ALL,
        _ => OUTCOME | SEAT | MINE | OTHERS | FRAME,
    },
    label: |_, r| match &r.op.act {
        Act::RequestSeat | Act::RequestSeatAuth { .. } | Act::ChangeSeat { .. } => Some(format!("{} {}", r.op.act.name(), if r.res.ok { "ok".to_string() } else { format!("refused: {}", r.pred.why) })),
        _ if r.pred.why == "seat not approved" => Some(format!("no approved seat: {}", r.op.act.name())),
        _ => None,
    },
    direct: |w, _, r| {
        if r.res.ok {
            let k = &w.mk[r.op.m];
            let needs = matches!(r.op.act, Act::Place { .. } | Act::Multi { .. } | Act::Deposit { .. } | Act::Swap { ff: true, .. });
            let me = w.actors[r.op.who];
            if needs && seat_status(&r.pre_bank, &k.key, &me) != Some(1) {
                return Some(format!("{} succeeded without an approved seat", r.op.act.name()));
            }
            for a in &w.actors {
                let (x, y) = (seat_status(&r.pre_bank, &k.key, a), seat_status(&w.bank, &k.key, a));
                let okk = x == y || matches!((x, y), (None, Some(0)) | (Some(0), Some(1)) | (Some(1), Some(0)) | (Some(0), Some(2)) | (Some(1), Some(2)));
                if !okk {
                    return Some(format!("seat of {} went from {x:?} to {y:?}", w.label(a)));
                }
            }
        }
        failed_no_effect(w, r).or_else(|| borrowed_seat(w, r)).or_else(|| foreign_seat_admin(w, r))
    },
});
spec!(c14, Spec {
    profs: || {
        vec![
            Prof { odd: 250, ..p() }.set(&[(SEATRQ, 5), (SEATCH, 8), (EVICT, 5), (FORCE, 6), (SUCCESS, 16), (STATUS, 8), (COLLECT, 5), (FEEREC, 14), (OUST, 2)]),
            Prof { odd: 60, nofee: 0, two: 2, ..p() }.set(&[(SEATRQ, 5), (SEATCH, 8), (EVICT, 4), (FORCE, 4), (SUCCESS, 16), (STATUS, 6), (COLLECT, 6), (FEEREC, 14), (IOC, 24)]),
        ]
    },
    mask: |r| if r.op.act.is_admin() { ALL } else { HDRF },
    label: |_, r| if r.op.act.is_admin() { Some(format!("{} {}", r.op.act.name(), if r.res.ok { "ok".to_string() } else { format!("refused: {}", r.pred.why) })) } else { None },
    direct: |w, _, r| {
        let (a, b) = (r.pre.as_ref()?, r.post.as_ref());
        let me = w.actors[r.op.who];
        if r.res.ok {
            let needs = r.op.act.is_admin() && !matches!(r.op.act, Act::Claim | Act::CollectFees { .. });
            if needs && (a.hdr.authority() != me || r.op.nosign) {
                return Some(format!("{} succeeded without the authority's signature", r.op.act.name()));
            }
            if let Some(b) = b {
                if a.hdr.authority() != b.hdr.authority() && !(matches!(r.op.act, Act::Claim) && a.hdr.successor() == me && b.hdr.authority() == me) {
                    return Some("the authority changed without the successor claiming it".into());
                }
                if a.hdr.fee_recipient() != b.hdr.fee_recipient() && a.unclaimed > 0 && !matches!(&r.op.act, Act::ChangeFeeRecipient { prev: Some(p), .. } if *p == a.hdr.fee_recipient()) {
                    return Some("the fee recipient changed with uncollected fees and without the recipient's signature".into());
                }
            }
        }
        failed_no_effect(w, r).or_else(|| foreign_seat_admin(w, r))
    },
});
spec!(c15, Spec {
    profs: || vec![p().set(&[(STATUS, 20), (DRAIN, 4)]), Prof { len: (0, 70), odd: 60, two: 2, ..p() }.set(&[(STATUS, 14), (DRAIN, 5), (EVICT, 4), (FORCE, 4), (COLLECT, 4)]), Prof { len: (0, 40), odd: 4, ..p() }.set(&[(DRAIN, 20)])],
    mask: |r| if matches!(r.op.act, Act::ChangeStatus { .. }) || r.pre.is_none() { ALL } else { HDRF },
    label: |_, r| {
        if r.pre.is_none() {
            return Some(format!("{} on a deleted market", r.op.act.name()));
        }
        if let Act::ChangeStatus { status, .. } = &r.op.act {
            let a = r.pre.as_ref()?;
            return Some(format!("{} -> {} {}", a.hdr.status(), if *status > 5 { "invalid".to_string() } else { status.to_string() }, if r.res.ok { "ok".to_string() } else { format!("refused: {}", r.pred.why) }));
        }
        None
    },
    direct: |w, _, r| {
        if !r.res.ok {
            return failed_no_effect(w, r);
        }
        let a = r.pre.as_ref()?;
        if r.post.is_none() {
            if !a.bids.is_empty() || !a.asks.is_empty() || !a.traders.is_empty() || a.unclaimed > 0 || a.hdr.status() != 4 {
                return Some("a market was deleted while it still owed something".into());
            }
            if let Some(x) = w.bank.get(&w.mk[r.op.m].key) {
                if x.lamports != 0 {
                    return Some("a deleted market kept lamports".into());
                }
            }
        }
        None
    },
});
spec!(c16, Spec {
    profs: || vec![p(), Prof { fill: 6, len: (0, 40), ..p() }.set(&[(IOC, 26), (LIM, 20), (CALL, 6), (CUP, 6)]), Prof { tif: 5, own: 2, two: 3, ..p() }.set(&[(MULTI, 30), (TICK, 12), (WALL, 4)]), p().set(&[(STATUS, 6), (SEATCH, 6), (SUCCESS, 4), (FEEREC, 4), (OUST, 3), (REINIT, 2)])],
    mask: |_| LOG | EVS | REPLAY | SEQ | HDRF | FEETOT,
    label: |_, r| {
        if !r.res.ok {
            return None;
        }
        if r.batches.len() > 1 {
            return Some(format!("{} batches from {}", r.batches.len().min(4), r.op.act.name()));
        }
        if r.evs.is_empty() {
            return Some(format!("header only: {}", r.op.act.name()));
        }
        Some(format!("{} with {} events", r.op.act.name(), match r.evs.len() { 1 => "1", 2 | 3 => "2-3", _ => "4+" }))
    },
    direct: |_, _, r| {
        // the runtime refuses a self-call above the size limit
        if !r.res.ok && r.res.err.contains("instruction too large") {
            return Some(format!("{} with {} expected events failed: a log batch exceeds the call-size limit", r.op.act.name(), r.pred.evs.len()));
        }
        None
    },
});
spec!(c19, Spec {
    profs: || vec![Prof { tif: 2, ..p() }.set(&[(MULTI, 60), (PO, 10), (LIM, 8), (IOC, 6)]), Prof { tight: 6, ff: 8, ..p() }.set(&[(MULTI, 60), (DEP, 8), (WD, 8), (PO, 6)]), Prof { fill: 6, len: (0, 30), ..p() }.set(&[(MULTI, 60)])],
    mask: |r| if matches!(r.op.act, Act::Multi { .. }) { ALL } else { 0 },
    label: |_, r| {
        let Act::Multi { bids, asks, beh, ff, .. } = &r.op.act else { return None };
        let i = &r.pred.info;
        if !r.res.ok {
            return if r.pred.out == Out::Err { Some(format!("refused: {}", r.pred.why)) } else { None };
        }
        if bids.len() + asks.len() < 2 {
            return None;
        }
        Some(format!("behaviour {beh}{}{}{}{}", if *ff { " free funds" } else { "" }, if i.merged > 0 { " merged" } else { "" }, if i.skipped > 0 { " skipped" } else { "" }, if i.amended > 0 { " amended" } else { "" }))
    },
    direct: |w, _, r| batch_direct(w, r).or_else(|| failed_no_effect(w, r)),
});
spec!(c20, Spec {
    profs: || vec![Prof { tight: 5, ff: 8, ..p() }.set(&[(DEP, 14), (WD, 14), (IOC, 20), (LIM, 20)]), Prof { tight: 2, ff: 2, own: 2, tif: 2, ..p() }.set(&[(DEP, 8), (WD, 8), (IOC, 20)])],
    mask: |r| if matches!(r.op.act, Act::Deposit { .. } | Act::Withdraw { .. } | Act::Place { .. } | Act::Swap { .. } | Act::Multi { .. }) { TOK | MINE | OTHERS | OUTCOME | FRAME | VAULT | CONSERVE } else { 0 },
    label: |_, r| {
        let i = &r.pred.info;
        if !r.res.ok {
            return match r.pred.why {
                "free funds insufficient" | "wallet too small" => Some(format!("{}: {}", r.op.act.name(), r.pred.why)),
                _ => None,
            };
        }
        let act = r.op.act.name();
        if i.used_free || i.drew_wallet || i.paid_out {
            Some(format!("{act}{}{}{}", if i.used_free { " free" } else { "" }, if i.drew_wallet { " wallet" } else { "" }, if i.paid_out { " payout" } else { "" }))
        } else if matches!(r.op.act, Act::Deposit { .. }) {
            l("deposit")
        } else {
            None
        }
    },
    direct: |w, _, r| {
        if !r.res.ok {
            return failed_no_effect(w, r);
        }
        let ffv = matches!(r.op.act, Act::Place { ff: true, .. } | Act::Swap { ff: true, .. } | Act::Multi { ff: true, .. });
        if ffv {
            for a in &w.actors {
                for m in [w.mk[r.op.m].base_mint, w.mk[r.op.m].quote_mint] {
                    let k = keys::ata(a, &m);
                    if tok_amount(&r.pre_bank, &k) != tok_amount(&w.bank, &k) {
                        return Some("a free-funds instruction moved tokens".into());
                    }
                }
            }
        }
        if let Act::Withdraw { quote, base } = &r.op.act {
            let me = w.actors[r.op.who];
            let (a, b) = (r.pre.as_ref()?, r.post.as_ref()?);
            let (x, y) = (a.traders.get(&me)?, b.traders.get(&me)?);
            if y.qf != x.qf - quote.unwrap_or(u64::MAX).min(x.qf) || y.bf != x.bf - base.unwrap_or(u64::MAX).min(x.bf) || x.ql != y.ql || x.bl != y.bl {
                return Some("a withdrawal did not take the lesser of the request and the free balance".into());
            }
        }
        holdings_direct(w, r)
    },
});
spec!(c24, Spec {
    profs: || vec![Prof { tif: 2, own: 2, ..p() }.set(&[(PO, 26), (LIM, 26), (MULTI, 16)]), Prof { fill: 5, len: (0, 40), ..p() }.set(&[(PO, 22), (LIM, 22), (MULTI, 16)])],
    mask: |r| if r.op.act.places() { RET | BOOK | EVS | OUTCOME | BOOKINV } else { RET },
    label: |_, r| {
        let i = &r.pred.info;
        if !r.res.ok || !r.op.act.places() {
            return None;
        }
        Some(match r.ids.len() {
            0 => format!("nothing rests: {}{}", r.op.act.name(), if i.fills > 0 { " filled" } else { "" }),
            n => format!("{} id(s) {}{}{}{}", n.min(3), r.op.act.name(), if i.fills > 0 { " after fills" } else { "" }, if i.merged > 0 { " merged" } else { "" }, if i.evicted > 0 { " evicting" } else { "" }),
        })
    },
    direct: |w, _, r| ids_direct(w, r),
});
spec!(c26, Spec {
    profs: || vec![Prof { two: 8, ..p() }, Prof { two: 5, fill: 3, tif: 3, ..p() }, Prof { two: 4, own: 3, ..p() }.set(&[(OUST, 3), (FORCE, 5), (EVICT, 4), (SEATCH, 5)])],
    mask: |r| {
        OTHERS | FRAME | SEAT | TOK | STRUCT | if r.res.ok { BOOK } else { 0 }
    },
    label: |w, r| {
        if !r.res.ok {
            return None;
        }
        let i = &r.pred.info;
        let k = if i.fills > 0 { "fills" } else if i.expired > 0 { "expiry" } else if i.evicted > 0 { "eviction" } else if i.posted + i.removed > 0 { "book change" } else { "no book change" };
        Some(format!("{}: {k} ({})", r.op.act.name(), if w.mk.len() > 1 { "two markets" } else { "one market" }))
    },
    direct: |w, _, r| bystander_direct(w, r).or_else(|| other_market_direct(w, r)).or_else(|| failed_no_effect(w, r)),
});
spec!(c27, Spec {
    profs: || vec![p().set(&[(OUST, 10), (FORCE, 10), (EVICT, 8), (SEATCH, 10), (WD, 8)]), Prof { tif: 2, two: 2, odd: 80, ..p() }.set(&[(OUST, 8), (FORCE, 12), (EVICT, 10), (SEATCH, 12), (STATUS, 4)])],
    mask: |r| match &r.op.act {
        Act::Evict { .. } | Act::ForceCancel { .. } | Act::ChangeSeat { .. } => ALL,
        Act::Withdraw { .. } => ALL,
        _ => STRUCT,
    },
    label: |_, r| match &r.op.act {
        Act::Evict { trader } | Act::ForceCancel { trader, .. } => {
            let had = r.pre.as_ref()?.traders.get(trader).map(|t| !t.zero()).unwrap_or(false);
            Some(format!("{} {}", r.op.act.name(), if r.res.ok { (if had { "with funds" } else { "without funds" }).to_string() } else { format!("refused: {}", r.pred.why) }))
        }
        Act::ChangeSeat { trader, status: 1 } if r.res.ok && !r.pre.as_ref()?.traders.contains_key(trader) => l("seated again after removal"),
        _ => None,
    },
    direct: |w, _, r| {
        if !r.res.ok {
            return failed_no_effect(w, r);
        }
        let (a, b) = (r.pre.as_ref()?, r.post.as_ref()?);
        let k = &w.mk[r.op.m];
        match &r.op.act {
            Act::Evict { trader } | Act::ForceCancel { trader, .. } => {
                if seat_status(&r.pre_bank, &k.key, trader) == Some(1) {
                    return Some("acted on a trader with an approved seat".into());
                }
                let (x, y) = (holdings(&r.pre_bank, a, k, trader), holdings(&w.bank, b, k, trader));
                if x != y {
                    return Some(format!("total holdings of the trader went from {x:?} to {y:?} atoms"));
                }
                if matches!(r.op.act, Act::Evict { .. }) && b.traders.contains_key(trader) {
                    return Some("evicted trader is still registered".into());
                }
            }
            _ => {
                for t in a.traders.keys() {
                    if !b.traders.contains_key(t) {
                        return Some("a trader was removed by an instruction other than an eviction".into());
                    }
                }
            }
        }
        None
    },
});

pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "histories of 1-2 markets over 12 actors, book-aware random instructions of every kind plus clock moves and donations; vault balances compared with obligations and every token movement with the reference model after every instruction. Non-trivial: an instruction that moved funds (fill, lock, release, transfer) or an order refused in the engine; distinct by (actor, instruction, top of book, status, balances).", case: c01 },
        Prop { id: "C02", rule: "histories as in C01 with self-trades, expiries, evictions from full 512-order books, partial cancels; after every instruction each trader's locks recomputed from the raw book in 128-bit arithmetic. Non-trivial: an instruction that changed some order while locks are outstanding.", case: c02 },
        Prop { id: "C03", rule: "histories biased to limit and IOC orders aimed at, just short of and beyond existing levels, with expired and own orders in the way; matching compared with a reference matching engine and with a direct price-time prefix check. Non-trivial: a taker order that traded.", case: c03 },
        Prop { id: "C04", rule: "limit/IOC orders with sizes, quote budgets, match limits and minimum fills at, just below and just above what the book can give; bounds checked directly on events and token movements, refusals checked to change nothing. Non-trivial: the order traded, or its minimum was missed.", case: c04 },
        Prop { id: "C05", rule: "taker orders at fee rates 0..10000 bps and collections by many callers; fee recomputed from logged trades in 128-bit arithmetic, totals tracked over the history. Non-trivial: a trade, or a collection that paid something.", case: c05 },
        Prop { id: "C06", rule: "histories with expiries, clock moves, post-only amendments and full books; after every instruction the raw book is checked for order, crossing, positive price/size and id freshness over the whole history. Non-trivial: an order posted while both sides are non-empty.", case: c06 },
        Prop { id: "C07", rule: "post-only orders and batches priced at, through and behind the opposite side, with expired orders on top. Non-trivial: the order would have crossed (amended, refused or past expired orders).", case: c07 },
        Prop { id: "C08", rule: "limit/IOC orders aimed at the sender's own resting orders, mixed with other makers, every self-trade behaviour, size and quote budgets. Non-trivial: the match sequence reached an own order.", case: c08 },
        Prop { id: "C09", rule: "orders with slot/timestamp limits before, at and after the current clock, moving clock, takers and post-only orders over them. Non-trivial: an expired order was reached, an order arrived expired, or a boundary value was involved.", case: c09 },
        Prop { id: "C10", rule: "every cancel/reduce variant with own, foreign, missing, wrong-side and duplicate ids, sizes around the order size and selection limits around the book. Non-trivial: something was removed, or a foreign/missing id was given.", case: c10 },
        Prop { id: "C11", rule: "a side of a 512-order book filled to capacity or one or two short, in several price shapes, then orders around the worst price on both sides. Non-trivial: a placement at or next to capacity.", case: c11 },
        Prop { id: "C12", rule: "histories in which the authority moves the market between statuses while every instruction is attempted. Non-trivial: an instruction in a status other than active that is not refused for another reason, or a status change.", case: c12 },
        Prop { id: "C13", rule: "histories of seat requests, status changes (every byte value) and instructions needing seats by seated, unseated, retired traders and outsiders. Non-trivial: seat instructions, and instructions refused for want of an approved seat.", case: c13 },
        Prop { id: "C14", rule: "administrative instructions signed by the authority, named successors, former authorities, recipients, traders, or nobody, interleaved with trading. Non-trivial: an administrative instruction.", case: c14 },
        Prop { id: "C15", rule: "status changes to every byte value from every status, interleaved with trading and with a drain macro that empties the market up to deletion (sometimes too early), then instructions on the deleted market. Non-trivial: a status change or an instruction on a deleted market.", case: c15 },
        Prop { id: "C16", rule: "histories of every instruction, including sweeps of many orders and large batches; every log batch decoded with the harness' own decoder, header/index/size checked, events compared with the model and replayed into a shadow book. Non-trivial: a successful instruction (distinct by its inputs and book).", case: c16 },
        Prop { id: "C17", rule: crate::special::R17, case: crate::special::c17 },
        Prop { id: "C18", rule: crate::special::R18, case: crate::special::c18 },
        Prop { id: "C19", rule: "multi-order placements (merging terms, crossing batches, all four behaviours, tight funds, near-full books) against the model and against placing the same orders one instruction at a time on a copy of the state. Non-trivial: a batch of two or more orders, or a refused batch.", case: c19 },
        Prop { id: "C20", rule: "deposits, withdrawals and orders with amounts around free funds and wallet contents, with and without free-funds variants, wallets holding fractions of a lot. Non-trivial: funds came from free balance or wallet, were paid out, or did not suffice.", case: c20 },
        Prop { id: "C21", rule: crate::special::R21, case: crate::special::c21 },
        Prop { id: "C22", rule: crate::special::R22, case: crate::special::c22 },
        Prop { id: "C23", rule: crate::special::R23, case: crate::special::c23 },
        Prop { id: "C24", rule: "placements of every kind and outcome; return data decoded and compared with the orders that appeared on the book, their owner, terms and place events; each id then cancelled by its owner on a copy. Non-trivial: a successful placement.", case: c24 },
        Prop { id: "C25", rule: crate::special::R25, case: crate::special::c25 },
        Prop { id: "C26", rule: "interleaved traders on two markets sharing mints; every non-signer's balances, orders, wallet and seat explained from logged trades alone, and every account of the other market compared byte for byte. Non-trivial: a successful instruction.", case: c26 },
        Prop { id: "C27", rule: "histories of approvals, revocations, forced cancels, evictions (funded or not, too early, on approved seats), withdrawals and re-seating. Non-trivial: a forced cancel or eviction, or a re-seating.", case: c27 },
        Prop { id: "C28", rule: crate::special::R28, case: crate::special::c28 },
        Prop { id: "C29", rule: crate::special3::R29, case: crate::special3::c29 },
        Prop { id: "C30", rule: crate::special3::R30, case: crate::special3::c30 },
        Prop { id: "C31", rule: crate::idl::R31, case: crate::idl::c31 },
        Prop { id: "C32", rule: crate::special4::R32, case: crate::special4::c32 },
        Prop { id: "C33", rule: crate::special4::R33, case: crate::special4::c33 },
    ]
}
