//! C32: one history in two worlds that differ only in names, seating, idle traders and past.
use crate::enc::*;
use crate::engine::{Stats, Trace};
use crate::gen::*;
use crate::hist::*;
use crate::keys;
use crate::obs::*;
use crate::step::*;
use crate::tape::Src;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap};

pub const R32: &str = "one generated history executed in two worlds with equal markets and wallets but other keys, another seating order, another number of idle registered traders, another past (orders placed and cancelled, instructions processed) and another slot and time; requests are translated (keys, order ids, expiries) and outcome, events, returned ids, books, balances, fees, seats, wallets and lamports compared under the same translation after every instruction. Non-trivial: an instruction that succeeded in both worlds.";

struct Tran {
    keys: HashMap<Pubkey, Pubkey>,
    /// difference of the next order sequence numbers (world B - world A), per market
    ds: Vec<i128>,
    dslot: i128,
    dts: i128,
}
impl Tran {
    fn key(&self, k: &Pubkey) -> Pubkey {
        *self.keys.get(k).unwrap_or(k)
    }
    fn seq(&self, m: usize, x: u64) -> Option<u64> {
        let bid = x >> 63 == 1;
        let y = (if bid { !x } else { x }) as i128 + self.ds[m];
        if y < 0 || y >= 1 << 63 {
            return None;
        }
        Some(if bid { !(y as u64) } else { y as u64 })
    }
    /// an order's id; the zero of an order that was not given one stays
    fn seq0(&self, m: usize, x: u64) -> u64 {
        self.seq(m, x).unwrap_or(x)
    }
    fn shift(x: u64, d: i128) -> u64 {
        if x == 0 {
            0
        } else {
            (x as i128 + d).clamp(1, u64::MAX as i128) as u64
        }
    }
    fn slot(&self, x: u64) -> u64 {
        Self::shift(x, self.dslot)
    }
    fn ts(&self, x: u64) -> u64 {
        Self::shift(x, self.dts)
    }
    fn pkt(&self, p: &Pkt) -> Pkt {
        let mut p = p.clone();
        match &mut p {
            Pkt::PostOnly { slot, ts, .. } | Pkt::Limit { slot, ts, .. } | Pkt::Ioc { slot, ts, .. } => {
                *slot = slot.map(|x| self.slot(x));
                *ts = ts.map(|x| self.ts(x));
            }
        }
        p
    }
    fn conds(&self, l: &[Cond]) -> Vec<Cond> {
        l.iter().map(|c| Cond { slot: c.slot.map(|x| self.slot(x)), ts: c.ts.map(|x| self.ts(x)), ..c.clone() }).collect()
    }
    /// the same request in the other world; None where an order id has no counterpart
    fn act(&self, m: usize, a: &Act) -> Option<Act> {
        Some(match a {
            Act::Place { p, ff } => Act::Place { p: self.pkt(p), ff: *ff },
            Act::Swap { p, ff } => Act::Swap { p: self.pkt(p), ff: *ff },
            Act::Multi { bids, asks, client, beh, ff } => Act::Multi { bids: self.conds(bids), asks: self.conds(asks), client: *client, beh: *beh, ff: *ff },
            Act::Reduce { side, price, seq, size, ff } => Act::Reduce { side: *side, price: *price, seq: self.seq(m, *seq)?, size: *size, ff: *ff },
            Act::CancelIds { ids, ff } => {
                let mut l = vec![];
                for (s, p, q) in ids {
                    l.push((*s, *p, self.seq(m, *q)?));
                }
                Act::CancelIds { ids: l, ff: *ff }
            }
            Act::RequestSeatAuth { trader, payer } => Act::RequestSeatAuth { trader: self.key(trader), payer: self.key(payer) },
            Act::ChangeSeat { trader, status } => Act::ChangeSeat { trader: self.key(trader), status: *status },
            Act::Evict { trader } => Act::Evict { trader: self.key(trader) },
            Act::ForceCancel { trader, side, tick, search, cancel } => Act::ForceCancel { trader: self.key(trader), side: *side, tick: *tick, search: *search, cancel: *cancel },
            Act::NameSuccessor { to } => Act::NameSuccessor { to: self.key(to) },
            Act::ChangeStatus { status, receiver } => Act::ChangeStatus { status: *status, receiver: receiver.map(|k| self.key(&k)) },
            Act::CollectFees { to } => Act::CollectFees { to: self.key(to) },
            Act::ChangeFeeRecipient { new, prev } => Act::ChangeFeeRecipient { new: self.key(new), prev: prev.map(|k| self.key(&k)) },
            Act::Init(p) => Act::Init(InitP { fee_collector: self.key(&p.fee_collector), ..p.clone() }),
            Act::CancelAll { .. } | Act::CancelUpTo { .. } | Act::Withdraw { .. } | Act::Deposit { .. } | Act::RequestSeat | Act::Claim => a.clone(),
        })
    }
    fn step(&self, st: &Step) -> Option<Step> {
        Some(match st {
            Step::Op(op) => Step::Op(Op { act: self.act(op.m, &op.act)?, ..op.clone() }),
            Step::Gift { to, amt } => Step::Gift { to: self.key(to), amt: *amt },
            x => x.clone(),
        })
    }
    fn ev(&self, m: usize, e: &Ev) -> Ev {
        match e.clone() {
            Ev::Fill { maker, seq, price, filled, remaining } => Ev::Fill { maker: self.key(&maker), seq: self.seq0(m, seq), price, filled, remaining },
            Ev::Place { seq, client, price, placed } => Ev::Place { seq: self.seq0(m, seq), client, price, placed },
            Ev::Reduce { seq, price, removed, remaining } => Ev::Reduce { seq: self.seq0(m, seq), price, removed, remaining },
            Ev::Evict { maker, seq, price, evicted } => Ev::Evict { maker: self.key(&maker), seq: self.seq0(m, seq), price, evicted },
            Ev::Tif { seq, slot, ts } => Ev::Tif { seq: self.seq0(m, seq), slot: self.slot(slot), ts: self.ts(ts) },
            Ev::Expired { maker, seq, price, removed } => Ev::Expired { maker: self.key(&maker), seq: self.seq0(m, seq), price, removed },
            x => x,
        }
    }
    fn book(&self, m: usize, l: &[Ord]) -> Vec<Ord> {
        l.iter().map(|o| Ord { price: o.price, seq: self.seq0(m, o.seq), tr: self.key(&o.tr), size: o.size, slot: self.slot(o.slot), ts: self.ts(o.ts) }).collect()
    }
}

/// orders come and go before the history starts; money ends where it was
fn churn(s: &mut Src, w: &mut World, m: usize) -> Result<(), String> {
    let rounds = s.draw(4);
    for _ in 0..rounds {
        let who = s.draw(w.cfg.seated as u64) as usize;
        let side = if s.chance(1, 2) { Side::Bid } else { Side::Ask };
        let n = 1 + s.draw(20);
        let mid = w.cfg.mid.max(2);
        let l: Vec<Cond> = (0..n).map(|_| Cond { price: 1 + s.draw(mid), size: 1, slot: None, ts: None }).collect();
        let (bids, asks) = if side == Side::Bid { (l, vec![]) } else { (vec![], l) };
        let ff = w.cfg.deposits;
        let op = Op { m, who, nosign: false, act: Act::Multi { bids, asks, client: None, beh: 0, ff } };
        if !predict_on(w, &op).map(|p| wanted(p.out)).unwrap_or(false) {
            continue;
        }
        if !w.exec(&op).ok {
            continue;
        }
        w.refresh(m)?;
        let mut ids: Vec<(Side, u64, u64)> = w.st[m].as_ref().map(|x| x.book(side).iter().map(|o| (side, o.price, o.seq)).collect()).unwrap_or_default();
        for i in (1..ids.len()).rev() {
            ids.swap(i, s.draw(i as u64 + 1) as usize);
        }
        let some = s.draw(ids.len() as u64 + 1) as usize;
        for act in [Act::CancelIds { ids: ids[..some].to_vec(), ff }, Act::CancelAll { ff }] {
            if some == 0 && matches!(act, Act::CancelIds { .. }) {
                continue;
            }
            w.exec(&Op { m, who, nosign: false, act });
        }
        w.refresh(m)?;
    }
    Ok(())
}

fn pairs(a: &World, b: &World) -> HashMap<Pubkey, Pubkey> {
    let mut l = vec![];
    for (x, y) in a.actors.iter().zip(&b.actors) {
        l.push((*x, *y));
    }
    for (x, y) in a.mk.iter().zip(&b.mk) {
        l.extend([(x.key, y.key), (x.base_mint, y.base_mint), (x.quote_mint, y.quote_mint), (x.base_vault, y.base_vault), (x.quote_vault, y.quote_vault)]);
        for (i, j) in a.actors.iter().zip(&b.actors) {
            l.push((keys::seat(&x.key, i).0, keys::seat(&y.key, j).0));
            l.push((keys::ata(i, &x.base_mint), keys::ata(j, &y.base_mint)));
            l.push((keys::ata(i, &x.quote_mint), keys::ata(j, &y.quote_mint)));
        }
    }
    l.into_iter().collect()
}

fn same_market(t: &Tran, m: usize, x: &Mkt, y: &Mkt, crowd: &[Pubkey]) -> Option<String> {
    for (side, n) in [(Side::Bid, "bids"), (Side::Ask, "asks")] {
        let want = t.book(m, x.book(side));
        if let Some(i) = (0..want.len().max(y.book(side).len())).find(|i| want.get(*i) != y.book(side).get(*i)) {
            return Some(format!("{n}[{i}]: expected {:?}, found {:?}", want.get(i), y.book(side).get(i)));
        }
    }
    let tr = |z: &Mkt, f: &dyn Fn(&Pubkey) -> Pubkey| z.traders.iter().filter(|(k, _)| !crowd.contains(k)).map(|(k, v)| (f(k), v.clone())).collect::<BTreeMap<_, _>>();
    let (p, q) = (tr(x, &|k| t.key(k)), tr(y, &|k| *k));
    if p != q {
        let d = p.iter().find(|(k, v)| q.get(k) != Some(v)).map(|(k, v)| format!("{v:?} against {:?}", q.get(k))).unwrap_or("one more is registered".into());
        return Some(format!("a trader's balance: {d}"));
    }
    let n = |z: &Mkt| (z.fee_bps, z.collected, z.unclaimed, z.blpbu, z.tick, z.hdr.status(), z.hdr.base_lot(), z.hdr.quote_lot());
    if n(x) != n(y) {
        return Some(format!("fees, parameters or status: {:?} against {:?}", n(x), n(y)));
    }
    for (a, b, what) in [
        (x.hdr.authority(), y.hdr.authority(), "authority"),
        (x.hdr.successor(), y.hdr.successor(), "successor"),
        (x.hdr.fee_recipient(), y.hdr.fee_recipient(), "fee recipient"),
    ] {
        if t.key(&a) != b {
            return Some(format!("the {what} differs"));
        }
    }
    if y.seq as i128 != x.seq as i128 + t.ds[m] {
        return Some(format!("order numbers advanced differently: {} and {}, {} apart before", x.seq, y.seq, t.ds[m]));
    }
    None
}

pub fn c32(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let profs = [
        Prof { len: (6, 40), ..Prof::default() },
        Prof { len: (6, 40), tif: 4, own: 2, two: 0, ..Prof::default() },
        Prof { len: (6, 40), two: 3, ..Prof::default() }.set(&[(OUST, 4), (FORCE, 3), (EVICT, 4), (SEATCH, 4), (SEATRQ, 3), (CIDS, 6), (RED, 6)]),
        Prof { len: (6, 30), fill: 4, two: 0, ..Prof::default() },
    ];
    let i = s.weighted(&[4, 4, 4, 3]);
    let prof = profs[i].clone();
    let mut cfg = gen_cfg(s, &CfgOpts { two: prof.two, big: false, nofee: prof.nofee });
    cfg.age %= 8; // the last one is too close to the end of the numbers
    let mut cfg2 = cfg.clone();
    let what = s.weighted(&[8, 2, 2, 2, 2]);
    let all = what == 0;
    let full = profs[i].fill > 0; // a full side shows who is evicted: worth a seat far down the table
    if all || what == 1 {
        cfg2.salt = (cfg.salt + 1 + s.draw(5)) % 6;
    }
    if all || what == 2 {
        cfg2.perm = s.draw(6) as u8;
    }
    if all || what == 3 {
        cfg2.crowd = if full { *s.pick(&[254u16, 300, 251, 3]) } else { *s.pick(&[0u16, 1, 3, 100, 126, 251, 254, 300]) };
    }
    if all || what == 4 {
        cfg2.age = s.draw(8) as u8;
    }
    if cfg.crowd.max(cfg2.crowd) > 110 {
        cfg.size = 1;
        cfg2.size = 1;
    }
    tr.add(|| format!("configurations {cfg:?} and, differing, salt {} perm {} crowd {} age {}", cfg2.salt, cfg2.perm, cfg2.crowd, cfg2.age));
    let (mut a, mut b) = match (World::new(&cfg), World::new(&cfg2)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return Err(format!("SETUP: {e}")),
    };
    if all || what == 4 {
        for m in 0..b.mk.len() {
            let before = b.st[m].as_ref().map(|x| x.traders.clone());
            let wallets: Vec<_> = b.actors.iter().map(|k| (tok_amount(&b.bank, &keys::ata(k, &b.mk[m].base_mint)), tok_amount(&b.bank, &keys::ata(k, &b.mk[m].quote_mint)))).collect();
            churn(s, &mut b, m)?;
            let after = b.st[m].as_ref().map(|x| x.traders.clone());
            let wallets2: Vec<_> = b.actors.iter().map(|k| (tok_amount(&b.bank, &keys::ata(k, &b.mk[m].base_mint)), tok_amount(&b.bank, &keys::ata(k, &b.mk[m].quote_mint)))).collect();
            if before != after || wallets != wallets2 {
                return Err("PAST: orders placed and cancelled again left money elsewhere".into());
            }
        }
    }
    let crowd = crowd_keys(cfg.crowd.max(cfg2.crowd));
    let mut t = Tran { keys: pairs(&a, &b), ds: vec![0; a.mk.len()], dslot: b.bank.slot as i128 - a.bank.slot as i128, dts: b.bank.ts as i128 - a.bank.ts as i128 };
    let (mut ha, mut hb) = (Hist::start(&a), Hist::start(&b));
    let mut g = Gen::new(prof);
    g.open(s, &a);
    let avg = g.prof.len.1;
    let mut n = 0;
    loop {
        s.begin();
        if n > 300 || !more(s, avg) {
            break;
        }
        n += 1;
        let step = g.next(s, &a);
        for m in 0..a.mk.len() {
            t.ds[m] = match (&a.st[m], &b.st[m]) {
                (Some(x), Some(y)) => y.seq as i128 - x.seq as i128,
                _ => 0,
            };
        }
        let Some(step2) = t.step(&step) else {
            s.end();
            continue;
        };
        let ra = apply(&mut a, &mut ha, &step, tr);
        let mut quiet = Trace { on: false, lines: vec![] };
        let rb = apply(&mut b, &mut hb, &step2, &mut quiet);
        s.end();
        let (Some(ra), Some(rb)) = (ra, rb) else { continue };
        st.evals += 1;
        let name = ra.op.act.name();
        let m = ra.op.m;
        if ra.res.ok != rb.res.ok {
            return Err(format!("OUTCOME: {name} {} in one world but {} in the other ({}{})", if ra.res.ok { "succeeded" } else { "failed" }, if rb.res.ok { "succeeded" } else { "failed" }, ra.res.err, rb.res.err));
        }
        let evs: Vec<Ev> = ra.evs.iter().map(|e| t.ev(m, e)).collect();
        if evs != rb.evs {
            let i = (0..evs.len().max(rb.evs.len())).find(|i| evs.get(*i) != rb.evs.get(*i)).unwrap_or(0);
            return Err(format!("EVENTS: {name}: event {i}: {:?} expected, {:?} reported", evs.get(i), rb.evs.get(i)));
        }
        let ids: Vec<(u64, u64)> = ra.ids.iter().map(|x| (x.0, t.seq0(m, x.1))).collect();
        if ids != rb.ids {
            return Err(format!("IDS: {name}: {ids:?} expected, {:?} returned", rb.ids));
        }
        for j in 0..a.mk.len() {
            match (&a.st[j], &b.st[j]) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    if let Some(d) = same_market(&t, j, x, y, &crowd) {
                        return Err(format!("STATE: after {name} the worlds differ: {d}"));
                    }
                }
                _ => return Err(format!("STATE: after {name} the market exists in one world only")),
            }
            if ra.batches.iter().map(|x| x.evs.len()).ne(rb.batches.iter().map(|x| x.evs.len())) {
                return Err(format!("EVENTS: {name}: the log is split differently"));
            }
        }
        for (x, y) in &t.keys {
            let (p, q) = (a.bank.get(x), b.bank.get(y));
            let v = |z: Option<&std::rc::Rc<crate::rt::Acct>>| z.map(|z| (z.lamports, z.data.len()));
            let seat = |z: Option<&std::rc::Rc<crate::rt::Acct>>| z.filter(|z| z.owner == keys::program() && z.data.len() == 128).map(|z| g64(&z.data, 72));
            // markets of different age differ in nothing but bytes; their sizes are equal
            if v(p) != v(q) || tok_amount(&a.bank, x) != tok_amount(&b.bank, y) || seat(p) != seat(q) {
                return Err(format!("STATE: after {name} account {} differs: {:?} {:?} against {:?} {:?}", a.label(x), v(p), tok_amount(&a.bank, x), v(q), tok_amount(&b.bank, y)));
            }
        }
        if ra.res.ok {
            let kind = ["all", "keys", "seating", "idle traders", "past"][what];
            st.hit(&format!("{kind}: {name}"), rec_hash(&ra) ^ (what as u64 * 77 + cfg2.age as u64), || rec_text(&a, &ra));
        }
        if ra.diffs.iter().chain(&rb.diffs).any(|d| d.0 == STRUCT) {
            break;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C33
pub const R33: &str = "one generated history in two worlds; in the second, the market account is rewritten between instructions: a zeroed account filled from the contents alone (published header fields, parameters, counters, orders, balances), with the order and trader tables in another valid arrangement (node numbers, tree shape, freed nodes with stale contents, free list, high-water mark). Outcome, events, ids, contents and all other accounts compared after every instruction, and the second world with the reference exchange. Non-trivial: an instruction that succeeded after a rewrite, distinct by its inputs and book.";

/// end of the header's fields; padding follows
const HDR_USED: usize = 316;

/// Lays `entries` (keys with values, in tree order) out as a tree over `cap` nodes; returns their node numbers.
fn lay_out(s: &mut Src, b: &mut [u8], cap: usize, len: usize, entries: &[Vec<u8>]) -> Vec<u32> {
    let n = entries.len();
    let room = cap - n;
    let extra = match s.draw(5) {
        0 => 0,
        1 => room.min(1),
        2 => room,
        3 => room.min(1 + s.draw(20) as usize),
        _ => room.min(s.draw(300) as usize),
    };
    let h = n + extra;
    let mut nums: Vec<u32> = (1..=h as u32).collect();
    match s.draw(3) {
        0 => {}
        1 => nums.reverse(),
        _ => {
            let seed = s.draw(1 << 20);
            let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
            for i in (1..h).rev() {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                nums.swap(i, (x % (i as u64 + 1)) as usize);
            }
        }
    }
    let at = |i: u32| 32 + (i as usize - 1) * (16 + len);
    let used: Vec<u32> = nums[..n].to_vec();
    for (i, e) in used.iter().zip(entries) {
        b[at(*i) + 16..at(*i) + 16 + len].copy_from_slice(e);
    }
    let bump = h as u32 + 1;
    let stale = s.draw(2) == 1 && n > 0;
    let mut head = bump;
    for (j, i) in nums[n..].iter().enumerate() {
        b[at(*i)..at(*i) + 4].copy_from_slice(&head.to_le_bytes());
        if stale {
            let e = entries[j % n].clone();
            b[at(*i) + 16..at(*i) + 16 + len].copy_from_slice(&e);
        }
        head = *i;
    }
    let lean = s.draw(3);
    fn link(b: &mut [u8], l: &[u32], parent: u32, depth: u32, deepest: u32, lean: u64, len: usize) -> u32 {
        if l.is_empty() {
            return 0;
        }
        let mid = match lean {
            0 => l.len() / 2,
            1 => (l.len() - 1) / 2,
            _ => (l.len() - (l[0] & 1) as usize) / 2,
        };
        let i = l[mid];
        let left = link(b, &l[..mid], i, depth + 1, deepest, lean, len);
        let right = link(b, &l[mid + 1..], i, depth + 1, deepest, lean, len);
        let red = (depth == deepest && depth > 0) as u32;
        let o = 32 + (i as usize - 1) * (16 + len);
        for (j, v) in [left, right, parent, red].iter().enumerate() {
            b[o + 4 * j..o + 4 * j + 4].copy_from_slice(&v.to_le_bytes());
        }
        i
    }
    let deepest = if n == 0 { 0 } else { 31 - (n as u32).leading_zeros() };
    let root = link(b, &used, 0, 0, deepest, lean, len);
    b[0..4].copy_from_slice(&root.to_le_bytes());
    b[16..24].copy_from_slice(&(n as u64).to_le_bytes());
    b[24..28].copy_from_slice(&bump.to_le_bytes());
    b[28..32].copy_from_slice(&head.to_le_bytes());
    used
}

/// The bytes of a market account of `size` bytes with these contents.
fn write_market(s: &mut Src, m: &Mkt, size: usize) -> Vec<u8> {
    let mut d = vec![0u8; size];
    d[..HDR_USED].copy_from_slice(&m.hdr.0[..HDR_USED]);
    for (o, v) in [(256, m.blpbu), (264, m.tick), (272, m.seq), (280, m.fee_bps), (288, m.collected), (296, m.unclaimed)] {
        d[HDR + o..HDR + o + 8].copy_from_slice(&v.to_le_bytes());
    }
    let (nb, na, nt) = (m.caps.0 as usize, m.caps.1 as usize, m.caps.2 as usize);
    let ob = HDR + 304;
    let oa = ob + 32 + nb * 64;
    let ot = oa + 32 + na * 64;
    let end = ot + 32 + nt * 144;
    let w = |l: &[u64]| l.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let ents: Vec<Vec<u8>> = m
        .traders
        .iter()
        .map(|(k, t)| {
            let mut e = k.to_bytes().to_vec();
            e.extend(w(&[t.ql, t.qf, t.bl, t.bf, 0, 0, 0, 0, 0, 0, 0, 0]));
            e
        })
        .collect();
    let nums = lay_out(s, &mut d[ot..end], nt, 128, &ents);
    let idx: BTreeMap<Pubkey, u32> = m.traders.keys().cloned().zip(nums).collect();
    for (side, a, z, cap) in [(Side::Bid, ob, oa, nb), (Side::Ask, oa, ot, na)] {
        let ents: Vec<Vec<u8>> = m.book(side).iter().map(|o| w(&[o.price, o.seq, idx.get(&o.tr).copied().unwrap_or(0) as u64, o.size, o.slot, o.ts])).collect();
        lay_out(s, &mut d[a..z], cap, 48, &ents);
    }
    d
}

fn bare(m: &Mkt) -> Mkt {
    let mut m = m.clone();
    m.hdr.0[HDR_USED..].fill(0);
    m
}

fn rewrite(s: &mut Src, w: &mut World, m: usize) -> Result<bool, String> {
    let Some(x) = w.st[m].clone() else { return Ok(false) };
    let key = w.mk[m].key;
    let mut a = (**w.bank.get(&key).unwrap()).clone();
    if !x.broken.is_empty() || a.data.len() < HDR + 304 + 96 + 64 * (x.caps.0 + x.caps.1) as usize + 144 * x.caps.2 as usize {
        return Ok(false);
    }
    a.data = write_market(s, &x, a.data.len());
    w.bank.put(key, a);
    w.refresh(m)?;
    if w.st[m].as_ref().map(bare) != Some(bare(&x)) {
        return Err(format!("LAYOUT: contents written by hand read differently: {:?}", w.st[m].as_ref().and_then(|y| diff_books(&x, y))));
    }
    Ok(true)
}

pub fn c33(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let profs = vec![
        Prof { len: (6, 40), ..Prof::default() },
        Prof { len: (6, 40), tif: 3, own: 2, two: 2, ..Prof::default() }.set(&[(CIDS, 6), (RED, 6), (CALL, 4), (CUP, 5)]),
        Prof { len: (6, 40), ..Prof::default() }.set(&[(OUST, 4), (FORCE, 3), (EVICT, 4), (SEATCH, 4), (SEATRQ, 4)]),
        Prof { len: (4, 30), fill: 4, two: 0, ..Prof::default() },
    ];
    let (mut a, mut ha, mut g) = start(s, st, tr, profs)?;
    let mut b = a.clone();
    let mut hb = Hist::start(&b);
    let often = *s.pick(&[1u64, 2, 4, 12]);
    let mut fresh = false;
    let avg = g.prof.len.1;
    let mut n = 0;
    loop {
        s.begin();
        if n > 250 || !more(s, avg) {
            break;
        }
        n += 1;
        if s.draw(often) == 0 {
            let m = s.draw(b.mk.len() as u64) as usize;
            if rewrite(s, &mut b, m)? {
                fresh = true;
                tr.add(|| format!("(market {m} of the second world rewritten)"));
            }
        }
        let step = g.next(s, &a);
        let ra = apply(&mut a, &mut ha, &step, tr);
        let mut quiet = Trace { on: false, lines: vec![] };
        let rb = apply(&mut b, &mut hb, &step, &mut quiet);
        s.end();
        let (Some(ra), Some(rb)) = (ra, rb) else { continue };
        st.evals += 1;
        let name = ra.op.act.name();
        if ra.res.ok != rb.res.ok {
            return Err(format!("OUTCOME: {name} {} but {} on the rewritten market ({}{})", if ra.res.ok { "succeeded" } else { "failed" }, if rb.res.ok { "succeeded" } else { "failed" }, ra.res.err, rb.res.err));
        }
        if ra.evs != rb.evs || ra.res.logs != rb.res.logs {
            return Err(format!("EVENTS: {name}: {:?} but {:?} on the rewritten market", ra.evs, rb.evs));
        }
        if ra.ids != rb.ids || ra.res.ret != rb.res.ret {
            return Err(format!("IDS: {name}: {:?} but {:?} on the rewritten market", ra.ids, rb.ids));
        }
        for (x, y) in a.st.iter().zip(&b.st) {
            if x.as_ref().map(bare) != y.as_ref().map(bare) {
                let d = match (x, y) {
                    (Some(x), Some(y)) => diff_books(x, y).unwrap_or_else(|| format!("balances, fees, header or structure {:?} {:?}", x.broken, y.broken)),
                    _ => "one is gone".into(),
                };
                return Err(format!("STATE: after {name} the markets differ: {d}"));
            }
        }
        for (k, x) in &a.bank.accts {
            let y = b.bank.get(k);
            let same = if a.mk.iter().any(|m| m.key == *k) { y.map(|y| (y.lamports, y.owner, y.data.len())) == Some((x.lamports, x.owner, x.data.len())) } else { y.map(|y| y == x) == Some(true) };
            if !same {
                return Err(format!("STATE: after {name} account {} differs", a.label(k)));
            }
        }
        if let Some(m) = facets_msg(&rb, ALL) {
            return Err(format!("{m} (rewritten market)"));
        }
        if ra.res.ok && fresh {
            st.hit(name, rec_hash(&ra), || rec_text(&a, &ra));
        }
        if ra.diffs.iter().chain(&rb.diffs).any(|d| d.0 == STRUCT) {
            break;
        }
    }
    Ok(())
}
