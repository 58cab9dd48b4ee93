//! Executes one instruction against the real program and judges it: full differential against the
//! model, plus the direct invariants over the history.
use crate::enc::*;
use crate::keys;
use crate::model::{self, Info, Out, Pred};
use crate::obs::*;
use crate::rt::{Bank, IxResult};
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::rc::Rc;

macro_rules! facets {
    ($($n:ident = $v:expr),* $(,)?) => {
        $(pub const $n: u32 = 1 << $v;)*
        pub fn facet_name(f: u32) -> &'static str {
            $(if f == $n { return stringify!($n); })*
            "?"
        }
    };
}
facets! {
    OUTCOME = 0, BOOK = 1, MINE = 2, OTHERS = 3, FEES = 4, HDRF = 5, TOK = 6, LAM = 7, SEAT = 8, EVS = 9, RET = 10,
    FRAME = 11, STRUCT = 12, VAULT = 13, LOCK = 14, BOOKINV = 15, LOG = 16, FEETOT = 17, REPLAY = 18, DIRECT = 19, CONSERVE = 20, SEQ = 21,
}
pub const ALL: u32 = u32::MAX;

#[derive(Clone, Default)]
pub struct MHist {
    /// vault amount minus obligations, fixed at the first observation and shifted by donations
    pub surplus: Option<(i128, i128)>,
    pub fee_charged: u128,
    pub fee_paid: u128,
    pub replay: (Vec<Ord>, Vec<Ord>),
    pub replay_bad: bool,
    pub max_age: u64,
    pub ixs: u64,
}

#[derive(Clone, Default)]
pub struct Hist {
    pub m: Vec<MHist>,
    pub supply: Option<BTreeMap<Pubkey, u128>>,
}

pub struct Rec {
    pub op: Op,
    pub res: IxResult,
    pub pred: Pred,
    pub pre: Option<Mkt>,
    pub post: Option<Mkt>,
    pub pre_bank: Bank,
    pub evs: Vec<Ev>,
    pub batches: Vec<Batch>,
    pub ids: Vec<(u64, u64)>,
    pub diffs: Vec<(u32, String)>,
}

pub fn decode_ret(d: &Option<Vec<u8>>) -> Result<Vec<(u64, u64)>, String> {
    match d {
        None => Ok(vec![]),
        Some(d) => {
            if d.len() < 4 || (d.len() - 4) % 16 != 0 || u32::from_le_bytes(d[..4].try_into().unwrap()) as usize != (d.len() - 4) / 16 {
                return Err(format!("return data of {} bytes is not an id list", d.len()));
            }
            if d.len() == 4 {
                return Err("an empty id list was returned where nothing was posted".into());
            }
            Ok(d[4..].chunks(16).map(|c| (g64(c, 0), g64(c, 8))).collect())
        }
    }
}

pub fn seat_status(b: &Bank, market: &Pubkey, trader: &Pubkey) -> Option<u64> {
    read_seat(b, market, trader).filter(|s| s.market == *market && s.trader == *trader).map(|s| s.status)
}

pub fn seat_rent() -> u64 {
    solana_program::rent::Rent::default().minimum_balance(128)
}

pub fn predict_on(w: &World, op: &Op) -> Option<Pred> {
    let pre = w.st[op.m].as_ref()?;
    let k = &w.mk[op.m];
    let b = &w.bank;
    let me = w.actors[op.who];
    // a signature covers every mention of the key, so another signed role of the same key counts
    let nosign = op.nosign && !metas(k, &me, true, &op.act).iter().any(|(x, _)| x.pubkey == me && x.is_signer);
    let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| model::predict(
        pre,
        &model::Ctx {
            who: me,
            nosign,
            slot: b.slot,
            ts: b.ts as u64,
            keys: k,
            wallet: &|o, m| tok_amount(b, &keys::ata(o, m)),
            seat: &|t| seat_status(b, &k.key, t),
            seat_lamports: &|t| b.lamports(&keys::seat(&k.key, t).0),
            mkt_lamports: b.lamports(&k.key),
            seat_rent: seat_rent(),
        },
        &op.act,
    )));
    // the model itself left 64 bits: the program must refuse or keep the invariants
    Some(p.unwrap_or_else(|_| Pred {
        out: Out::Any,
        why: "overflow",
        mkt: Some(pre.clone()),
        tok: BTreeMap::new(),
        lam: BTreeMap::new(),
        seats: vec![],
        evs: vec![],
        ret: vec![],
        info: Info::default(),
    }))
}

impl Hist {
    pub fn start(w: &World) -> Hist {
        let mut h = Hist { m: vec![MHist::default(); w.mk.len()], supply: None };
        for m in 0..w.mk.len() {
            if let Some(st) = &w.st[m] {
                h.m[m].replay = (st.bids.clone(), st.asks.clone());
                h.m[m].surplus = Some(surplus(w, m));
                h.m[m].fee_charged = st.unclaimed as u128 + st.collected as u128;
                h.m[m].fee_paid = st.collected as u128;
            }
        }
        h.supply = Some(supply(&w.bank));
        h
    }
}

pub fn obligations(m: &Mkt) -> (u128, u128) {
    let mut b = 0u128;
    let mut q = m.unclaimed as u128;
    for t in m.traders.values() {
        b += t.bl as u128 + t.bf as u128;
        q += t.ql as u128 + t.qf as u128;
    }
    (b * m.hdr.base_lot() as u128, q * m.hdr.quote_lot() as u128)
}
pub fn surplus(w: &World, m: usize) -> (i128, i128) {
    let st = w.st[m].as_ref().unwrap();
    let o = obligations(st);
    let b = tok_amount(&w.bank, &w.mk[m].base_vault).unwrap_or(0) as i128 - o.0 as i128;
    let q = tok_amount(&w.bank, &w.mk[m].quote_vault).unwrap_or(0) as i128 - o.1 as i128;
    (b, q)
}
pub fn supply(b: &Bank) -> BTreeMap<Pubkey, u128> {
    let mut r = BTreeMap::new();
    for a in b.accts.values() {
        if a.owner == keys::token_program() && a.data.len() == 165 {
            *r.entry(gk(&a.data, 0)).or_default() += g64(&a.data, 64) as u128;
        }
    }
    r
}

fn ev_key(e: &Ev) -> bool {
    // events whose relative order tells in which order resting orders were consumed
    matches!(e, Ev::Fill { .. } | Ev::Expired { .. } | Ev::Reduce { .. })
}

/// Applies logged events to a book; Err = the log contradicts the book.
pub fn replay(book: &mut (Vec<Ord>, Vec<Ord>), evs: &[Ev], signer: &Pubkey) -> Result<(), String> {
    for e in evs {
        let (seq, price) = match e {
            Ev::Fill { seq, price, .. } | Ev::Place { seq, price, .. } | Ev::Reduce { seq, price, .. } | Ev::Evict { seq, price, .. } | Ev::Expired { seq, price, .. } => (*seq, *price),
            Ev::Tif { seq, .. } => (*seq, 0),
            _ => continue,
        };
        let b = if seq >> 63 == 1 { &mut book.0 } else { &mut book.1 };
        let at = b.iter().position(|o| o.seq == seq && (price == o.price || matches!(e, Ev::Tif { .. })));
        match e {
            Ev::Place { placed, .. } => {
                if b.iter().any(|o| o.seq == seq) {
                    return Err(format!("place event reuses id {seq:#x}"));
                }
                b.push(Ord { price, seq, tr: *signer, size: *placed, slot: 0, ts: 0 });
            }
            Ev::Tif { slot, ts, .. } => match at {
                Some(i) => {
                    b[i].slot = *slot;
                    b[i].ts = *ts;
                }
                None => return Err(format!("time-in-force event for unknown order {seq:#x}")),
            },
            Ev::Fill { maker, filled, remaining, .. } => {
                let Some(i) = at else { return Err(format!("fill of unknown order {seq:#x} @ {price}")) };
                if b[i].tr != *maker || b[i].size < *filled || b[i].size - filled != *remaining {
                    return Err(format!("fill event {filled}/{remaining} does not fit order {:?}", b[i]));
                }
                b[i].size = *remaining;
                if b[i].size == 0 {
                    b.remove(i);
                }
            }
            Ev::Reduce { removed, remaining, .. } => {
                let Some(i) = at else { return Err(format!("reduce of unknown order {seq:#x} @ {price}")) };
                if b[i].size < *removed || b[i].size - removed != *remaining {
                    return Err(format!("reduce event {removed}/{remaining} does not fit order {:?}", b[i]));
                }
                b[i].size = *remaining;
                if b[i].size == 0 {
                    b.remove(i);
                }
            }
            Ev::Evict { maker, evicted: n, .. } | Ev::Expired { maker, removed: n, .. } => {
                let Some(i) = at else { return Err(format!("removal of unknown order {seq:#x} @ {price}")) };
                if b[i].tr != *maker || b[i].size != *n {
                    return Err(format!("removal event of {n} does not fit order {:?}", b[i]));
                }
                b.remove(i);
            }
            _ => {}
        }
    }
    Ok(())
}

fn same_set(a: &[Ord], b: &[Ord]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut x: Vec<&Ord> = a.iter().collect();
    let mut y: Vec<&Ord> = b.iter().collect();
    x.sort_by_key(|o| o.seq);
    y.sort_by_key(|o| o.seq);
    x == y
}

pub fn book_invariants(m: &Mkt, slot: u64, ts: u64) -> Option<String> {
    for (side, b) in [(Side::Bid, &m.bids), (Side::Ask, &m.asks)] {
        for o in b {
            if o.price == 0 || o.size == 0 {
                return Some(format!("{side:?} {o:?} has zero price or size"));
            }
            if (o.seq >> 63 == 1) != (side == Side::Bid) {
                return Some(format!("{side:?} {o:?} id names the other side"));
            }
            if o.age() >= m.seq || o.age() == 0 {
                return Some(format!("{side:?} {o:?} id not below next sequence {}", m.seq));
            }
        }
        for x in b.windows(2) {
            let ok = match side {
                Side::Bid => x[0].price > x[1].price || (x[0].price == x[1].price && x[0].age() < x[1].age()),
                Side::Ask => x[0].price < x[1].price || (x[0].price == x[1].price && x[0].age() < x[1].age()),
            };
            if !ok {
                return Some(format!("{side:?} book not in price-time order: {:?} before {:?}", x[0], x[1]));
            }
        }
    }
    let mut ages: Vec<u64> = m.bids.iter().chain(m.asks.iter()).map(|o| o.age()).collect();
    ages.sort();
    if ages.windows(2).any(|x| x[0] == x[1]) {
        return Some("two resting orders share an id".into());
    }
    let bb = m.bids.iter().filter(|o| !o.expired(slot, ts)).map(|o| o.price).max();
    let ba = m.asks.iter().filter(|o| !o.expired(slot, ts)).map(|o| o.price).min();
    if let (Some(b), Some(a)) = (bb, ba) {
        if b >= a {
            return Some(format!("book crossed: best unexpired bid {b} >= best unexpired ask {a}"));
        }
    }
    None
}

pub fn lock_invariants(m: &Mkt) -> Option<String> {
    let mut l: BTreeMap<Pubkey, (u128, u128)> = BTreeMap::new();
    for o in &m.bids {
        l.entry(o.tr).or_default().0 += o.price as u128 * m.tick as u128 * o.size as u128 / m.blpbu as u128;
    }
    for o in &m.asks {
        l.entry(o.tr).or_default().1 += o.size as u128;
    }
    for (k, t) in &m.traders {
        let x = l.remove(k).unwrap_or_default();
        if x != (t.ql as u128, t.bl as u128) {
            return Some(format!("trader {k}: locked quote/base {}/{} but its orders need {}/{}", t.ql, t.bl, x.0, x.1));
        }
    }
    if let Some((k, _)) = l.iter().next() {
        return Some(format!("resting order of unregistered trader {k}"));
    }
    None
}

/// Runs the direct invariants of market `m` in its current state.
pub fn invariants(w: &World, h: &Hist, m: usize) -> Vec<(u32, String)> {
    let mut d = vec![];
    let Some(st) = &w.st[m] else { return d };
    if let Some(x) = st.broken.first() {
        d.push((STRUCT, x.clone()));
    }
    if let Some(x) = lock_invariants(st) {
        d.push((LOCK, x));
    }
    if let Some(x) = book_invariants(st, w.bank.slot, w.bank.ts as u64) {
        d.push((BOOKINV, x));
    }
    if let Some(s) = h.m[m].surplus {
        let now = surplus(w, m);
        if now != s {
            d.push((VAULT, format!("vaults exceed obligations by {now:?} atoms (base, quote), expected surplus {s:?}")));
        }
    }
    d
}

fn diff_traders(w: &World, who: &Pubkey, want: &Mkt, got: &Mkt, d: &mut Vec<(u32, String)>) {
    let ks: std::collections::BTreeSet<&Pubkey> = want.traders.keys().chain(got.traders.keys()).collect();
    for k in ks {
        let (a, b) = (want.traders.get(k), got.traders.get(k));
        if a != b {
            d.push((if k == who { MINE } else { OTHERS }, format!("trader {}: expected {a:?}, got {b:?}", w.label(k))));
        }
    }
}

pub fn diff_books(want: &Mkt, got: &Mkt) -> Option<String> {
    for s in [Side::Bid, Side::Ask] {
        let (a, b) = (want.book(s), got.book(s));
        if a != b {
            let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return Some(format!("{s:?} book: expected {} orders, got {}; first difference at {i}: expected {:?}, got {:?}", a.len(), b.len(), a.get(i), b.get(i)));
        }
    }
    None
}

/// Executes and judges `op`; updates world and history.
pub fn step(w: &mut World, h: &mut Hist, op: &Op) -> Rec {
    let ix = build(&w.mk[op.m], &w.actors[op.who], op.nosign, &op.act);
    let pred = predict_on(w, op);
    step_ix(w, h, op, &ix, pred)
}

pub fn step_ix(w: &mut World, h: &mut Hist, op: &Op, ix: &solana_program::instruction::Instruction, pred: Option<Pred>) -> Rec {
    let pre_bank = w.bank.clone();
    let pre = w.st[op.m].clone();
    // no initialized market: every instruction except a fresh Init must be refused
    let pred = pred.unwrap_or(Pred {
        out: if matches!(op.act, Act::Init(_)) { Out::Any } else { Out::Err },
        why: "market not initialized",
        mkt: None,
        tok: BTreeMap::new(),
        lam: BTreeMap::new(),
        seats: vec![],
        evs: vec![],
        ret: vec![],
        info: Info::default(),
    });
    let res = w.bank.exec(ix);
    let mut d: Vec<(u32, String)> = vec![];
    let who = w.actors[op.who];
    let mut rec_evs = vec![];
    let mut batches = vec![];
    if let Err(e) = w.refresh(op.m) {
        d.push((STRUCT, format!("market unreadable afterwards: {e}")));
    }
    let post = w.st[op.m].clone();
    match (pred.out, res.ok) {
        (Out::Ok, false) => d.push((OUTCOME, format!("{} must succeed but failed: {}", op.act.name(), res.err))),
        (Out::Err, true) => d.push((OUTCOME, format!("{} must fail ({}) but succeeded", op.act.name(), pred.why))),
        _ => {}
    }
    let ids = match decode_ret(&res.ret) {
        Ok(x) => x,
        Err(e) => {
            d.push((RET, e));
            vec![]
        }
    };
    if res.ok {
        // ---- log
        for l in &res.logs {
            match decode_batch(l) {
                Ok(b) => batches.push(b),
                Err(e) => d.push((LOG, e)),
            }
        }
        if res.logs.is_empty() {
            d.push((LOG, "no log batch for a successful instruction".into()));
        }
        let want_seq = pre.as_ref().map(|m| m.hdr.seqno()).unwrap_or(0);
        let mut idx = 0u16;
        for b in &batches {
            let want = LogHdr { ins: ix.data[0], seq: want_seq, ts: w.bank.ts, slot: w.bank.slot, market: w.mk[op.m].key, signer: who, total: b.evs.len() as u16 };
            if b.hdr != want {
                d.push((LOG, format!("log header {:?}, expected {:?}", b.hdr, want)));
            }
            if b.len + 34 > 1280 {
                d.push((LOG, format!("log batch of {} bytes exceeds the call-size limit", b.len)));
            }
            for (i, e) in &b.evs {
                if *i != idx {
                    d.push((LOG, format!("event index {i}, expected {idx}")));
                }
                idx = idx.wrapping_add(1);
                rec_evs.push(e.clone());
            }
        }
        if let (Some(a), Some(b)) = (&pre, &post) {
            if b.hdr.seqno() != a.hdr.seqno() + 1 {
                d.push((SEQ, format!("market sequence number went from {} to {}", a.hdr.seqno(), b.hdr.seqno())));
            }
            if b.seq < a.seq {
                d.push((BOOKINV, format!("order sequence went back from {} to {}", a.seq, b.seq)));
            }
        }
        // ---- history: replayed book, fee totals
        let hm = &mut h.m[op.m];
        if let Some(post) = &post {
            for e in &rec_evs {
                match e {
                    Ev::Summary { fee, .. } => hm.fee_charged += *fee as u128,
                    Ev::Fee { fees } => hm.fee_paid += *fees as u128,
                    _ => {}
                }
            }
            if hm.fee_charged != post.unclaimed as u128 + post.collected as u128 || hm.fee_paid != post.collected as u128 {
                d.push((FEETOT, format!("fees charged so far {} (paid out {}), but market shows uncollected {} collected {}", hm.fee_charged, hm.fee_paid, post.unclaimed, post.collected)));
                hm.fee_charged = post.unclaimed as u128 + post.collected as u128;
                hm.fee_paid = post.collected as u128;
            }
            let r = replay(&mut hm.replay, &rec_evs, &who);
            let same = same_set(&hm.replay.0, &post.bids) && same_set(&hm.replay.1, &post.asks);
            if let Err(e) = r {
                d.push((REPLAY, e));
            } else if !same {
                d.push((REPLAY, "replaying the event log does not give the current book".into()));
            }
            if !same {
                hm.replay = (post.bids.clone(), post.asks.clone());
            }
            for o in post.bids.iter().chain(post.asks.iter()) {
                let is_new = !pre.as_ref().map(|p| p.bids.iter().chain(p.asks.iter()).any(|x| x.seq == o.seq)).unwrap_or(false);
                if is_new && o.age() <= hm.max_age {
                    d.push((BOOKINV, format!("new order id {:#x} is not newer than every earlier id (age {} <= {})", o.seq, o.age(), hm.max_age)));
                }
            }
            let mx = post.bids.iter().chain(post.asks.iter()).map(|o| o.age()).max().unwrap_or(0);
            hm.max_age = hm.max_age.max(mx).max(pre.as_ref().map(|p| p.seq - 1).unwrap_or(0));
            if hm.surplus.is_none() {
                hm.surplus = Some(surplus(w, op.m));
            }
        }
        hm.ixs += 1;
    }
    d.extend(invariants(w, h, op.m));
    if let Some(s) = &h.supply {
        let now = supply(&w.bank);
        if now != *s {
            d.push((CONSERVE, format!("total token supply changed from {s:?} to {now:?}")));
        }
    }
    // ---- differential
    if pred.out != Out::Any && res.ok == (pred.out == Out::Ok) && res.ok {
        match (&pred.mkt, &post) {
            (Some(want), Some(got)) => {
                if let Some(x) = diff_books(want, got) {
                    d.push((BOOK, x));
                }
                diff_traders(w, &who, want, got, &mut d);
                if (want.unclaimed, want.collected, want.fee_bps) != (got.unclaimed, got.collected, got.fee_bps) {
                    d.push((FEES, format!("uncollected/collected/bps: expected {:?}, got {:?}", (want.unclaimed, want.collected, want.fee_bps), (got.unclaimed, got.collected, got.fee_bps))));
                }
                if want.hdr != got.hdr || want.blpbu != got.blpbu || want.tick != got.tick {
                    let o = want.hdr.0.iter().zip(got.hdr.0.iter()).position(|(a, b)| a != b);
                    d.push((HDRF, format!("market header or parameters differ from expectation (first byte {o:?})")));
                }
                if want.seq != got.seq {
                    d.push((BOOKINV, format!("next order sequence: expected {}, got {}", want.seq, got.seq)));
                }
            }
            (None, Some(_)) => d.push((HDRF, "market should be gone".into())),
            (Some(_), None) => d.push((HDRF, "market is gone".into())),
            (None, None) => {
                if let Some(a) = w.bank.get(&w.mk[op.m].key) {
                    d.push((HDRF, format!("deleted market still holds {} lamports / {} bytes", a.lamports, a.data.len())));
                }
            }
        }
        // events: same multiset, same order among book-consuming events
        let mut a = pred.evs.clone();
        let mut b = rec_evs.clone();
        let oa: Vec<Ev> = a.iter().filter(|e| ev_key(e)).cloned().collect();
        let ob: Vec<Ev> = b.iter().filter(|e| ev_key(e)).cloned().collect();
        a.sort();
        b.sort();
        if a != b || (oa != ob && !op.act.is_cancel()) {
            d.push((EVS, format!("events: expected {:?}, got {:?}", pred.evs, rec_evs)));
        }
        if pred.ret != ids {
            d.push((RET, format!("returned ids: expected {:?}, got {:?}", pred.ret, ids)));
        }
    }
    if res.ok || pred.out == Out::Err {
        diff_accounts(w, &pre_bank, op, &pred, res.ok, &mut d);
    }
    Rec { op: op.clone(), res, pred, pre, post, pre_bank, evs: rec_evs, batches, ids, diffs: d }
}

fn diff_accounts(w: &World, pre: &Bank, op: &Op, pred: &Pred, ok: bool, d: &mut Vec<(u32, String)>) {
    let k = &w.mk[op.m];
    let any = pred.out != Out::Ok;
    let mut seen = 0usize;
    for (key, a) in &w.bank.accts {
        let b = pre.accts.get(key);
        if b.is_some() {
            seen += 1;
        }
        if let Some(b) = b {
            if Rc::ptr_eq(a, b) {
                if !any && (pred.tok.get(key).map(|x| *x != 0).unwrap_or(false) || pred.lam.get(key).map(|x| *x != 0).unwrap_or(false)) {
                    let f = if pred.tok.contains_key(key) { TOK } else { LAM };
                    d.push((f, format!("{} should change by {:?}{:?} but did not", w.label(key), pred.tok.get(key), pred.lam.get(key))));
                }
                continue;
            }
        }
        let empty = crate::rt::Acct::default();
        let b: &crate::rt::Acct = b.map(|x| x.as_ref()).unwrap_or(&empty);
        let dl = a.lamports as i128 - b.lamports as i128;
        if dl != pred.lam.get(key).copied().unwrap_or(0) && !(any && ok) {
            d.push((LAM, format!("{}: lamports changed by {dl}, expected {:?}", w.label(key), pred.lam.get(key))));
        }
        if *key == k.key {
            if a.owner != b.owner || a.data.len() != b.data.len() {
                d.push((FRAME, "market account changed owner or size".into()));
            }
            continue;
        }
        if a.owner == keys::token_program() && a.data.len() == 165 && b.data.len() == 165 {
            let (x, y) = (g64(&b.data, 64), g64(&a.data, 64));
            let mut t = b.data.clone();
            t[64..72].copy_from_slice(&a.data[64..72]);
            if t != a.data || a.owner != b.owner {
                d.push((FRAME, format!("token account {} changed more than its amount", w.label(key))));
            }
            let dt = y as i128 - x as i128;
            if dt != pred.tok.get(key).copied().unwrap_or(0) && !(any && ok) {
                d.push((TOK, format!("{}: tokens changed by {dt}, expected {:?}", w.label(key), pred.tok.get(key))));
            }
            continue;
        }
        if let Some((t, st)) = pred.seats.iter().find(|(t, _)| keys::seat(&k.key, t).0 == *key) {
            let s = read_seat(&w.bank, &k.key, t);
            let want = SeatSt { market: k.key, trader: *t, status: *st };
            let mut rest_ok = true;
            if b.data.len() == 128 && a.data.len() == 128 {
                let mut x = b.data.clone();
                x[72..80].copy_from_slice(&a.data[72..80]);
                rest_ok = x == a.data;
            } else if a.data.len() == 128 {
                rest_ok = a.data[80..].iter().all(|x| *x == 0);
            }
            if s != Some(want.clone()) || !rest_ok {
                d.push((SEAT, format!("seat of {}: expected {want:?}, got {s:?}", w.label(t))));
            }
            continue;
        }
        if a.data != b.data || a.owner != b.owner {
            let is_seat = a.owner == keys::program() && a.data.len() == 128;
            d.push((if is_seat { SEAT } else { FRAME }, format!("account {} changed unexpectedly", w.label(key))));
        }
    }
    if seen != pre.accts.len() {
        for key in pre.accts.keys() {
            if !w.bank.accts.contains_key(key) && !(*key == k.key && pred.mkt.is_none()) && !(any && ok) {
                d.push((FRAME, format!("account {} disappeared", w.label(key))));
            }
        }
    }
    if !any {
        for (t, st) in &pred.seats {
            if seat_status(&w.bank, &k.key, t) != Some(*st) {
                d.push((SEAT, format!("seat of {} should be {st}, is {:?}", w.label(t), seat_status(&w.bank, &k.key, t))));
            }
        }
        for (key, dl) in &pred.lam {
            if *dl != 0 && !w.bank.accts.contains_key(key) && *key != k.key {
                d.push((LAM, format!("{} missing, expected lamports change {dl}", w.label(key))));
            }
        }
    }
}
