//! Driver for properties decided over generated histories: run a history, judge every step.
use crate::engine::{hash, Stats, Trace};
use crate::gen::*;
use crate::keys;
use crate::obs::*;
use crate::step::*;
use crate::tape::Src;
use crate::world::*;

pub struct Spec {
    pub profs: fn() -> Vec<Prof>,
    /// which facets of which operations this property judges
    pub mask: fn(&Rec) -> u32,
    /// non-trivial steps, by kind
    pub label: fn(&World, &Rec) -> Option<String>,
    /// direct oracle on one step (world is the state after it)
    pub direct: fn(&World, &Hist, &Rec) -> Option<String>,
}

pub fn op_text(w: &World, op: &Op) -> String {
    let k = |s: String| -> String {
        let mut s = s;
        for (i, a) in w.actors.iter().enumerate() {
            s = s.replace(&a.to_string(), &w.label(&w.actors[i]));
        }
        s
    };
    format!("{}{}{} {}", w.label(&w.actors[op.who]), if w.mk.len() > 1 { format!("@m{}", op.m) } else { String::new() }, if op.nosign { "(unsigned)" } else { "" }, k(format!("{:?}", op.act)))
}
pub fn pre_text(m: &Option<Mkt>) -> String {
    match m {
        None => "no market".into(),
        Some(m) => {
            let t = |b: &Vec<Ord>| b.iter().take(3).map(|o| format!("{}@{}", o.size, o.price)).collect::<Vec<_>>().join(",");
            format!("status {} bids[{}]={} asks[{}]={} tick {} blpbu {} fee {}bps", m.hdr.status(), m.bids.len(), t(&m.bids), m.asks.len(), t(&m.asks), m.tick, m.blpbu, m.fee_bps)
        }
    }
}
pub fn rec_text(w: &World, r: &Rec) -> String {
    format!("{} | before: {} | {}", op_text(w, &r.op), pre_text(&r.pre), if r.res.ok { format!("ok, {} events", r.evs.len()) } else { format!("refused: {}", r.res.err) })
}

pub fn rec_hash(r: &Rec) -> u64 {
    let m = r.pre.as_ref();
    let top = |b: &Vec<Ord>| b.iter().take(5).map(|o| (o.price, o.size, o.slot, o.ts)).collect::<Vec<_>>();
    hash(&(r.op.who, &r.op.act, r.op.nosign, m.map(|m| (top(&m.bids), top(&m.asks), m.bids.len(), m.asks.len(), m.hdr.status(), m.unclaimed)), m.and_then(|m| m.traders.values().nth(r.op.who).cloned())))
}

pub fn facets_msg(r: &Rec, mask: u32) -> Option<String> {
    r.diffs.iter().find(|d| d.0 & mask != 0).map(|d| format!("{}: {}", facet_name(d.0), d.1))
}

pub fn start(s: &mut Src, st: &mut Stats, tr: &mut Trace, profs: Vec<Prof>) -> Result<(World, Hist, Gen), String> {
    let i = s.draw(profs.len() as u64) as usize;
    let prof = profs[i].clone();
    let cfg = gen_cfg(s, &prof.opts());
    tr.add(|| format!("configuration {cfg:?}"));
    let w = World::new(&cfg).map_err(|e| format!("SETUP: {e}"))?;
    let h = Hist::start(&w);
    let mut g = Gen::new(prof);
    g.open(s, &w);
    st.count(&format!("histories profile {i}"));
    Ok((w, h, g))
}

/// draws whether the history goes on (0 = stop, so an exhausted tape ends it)
pub fn more(s: &mut Src, avg: u64) -> bool {
    s.draw(1000) >= 1000 / avg.max(1)
}

pub fn apply(w: &mut World, h: &mut Hist, step: &Step, tr: &mut Trace) -> Option<Rec> {
    match step {
        Step::Clock { slots, secs } => {
            w.bank.slot += slots;
            w.bank.ts += *secs as i64;
            tr.add(|| format!("clock +{slots} slots +{secs} s"));
            None
        }
        Step::Donate { m, base, amt } => {
            donate(w, h, *m, *base, *amt);
            tr.add(|| format!("donate {amt} atoms to {} vault", if *base { "base" } else { "quote" }));
            None
        }
        Step::Gift { to, amt } => {
            let mut a = w.bank.get(to).map(|a| (**a).clone()).unwrap_or_default();
            // an account must stay above the rent-exempt minimum
            let min = solana_program::rent::Rent::default().minimum_balance(a.data.len());
            if a.lamports.saturating_add(*amt) >= min {
                a.lamports = a.lamports.saturating_add(*amt);
                w.bank.put(*to, a);
                tr.add(|| format!("gift of {amt} lamports to {}", w.label(to)));
            }
            None
        }
        Step::Op(op) => {
            let r = step_fn(w, h, op);
            tr.add(|| rec_text(w, &r));
            Some(r)
        }
    }
}
fn step_fn(w: &mut World, h: &mut Hist, op: &Op) -> Rec {
    crate::step::step(w, h, op)
}

pub fn run(s: &mut Src, st: &mut Stats, tr: &mut Trace, sp: &Spec) -> Result<(), String> {
    let (mut w, mut h, mut g) = start(s, st, tr, (sp.profs)())?;
    let avg = g.prof.len.1;
    let mut n = 0;
    loop {
        s.begin();
        if n > 400 || !more(s, avg) {
            break;
        }
        n += 1;
        let step = g.next(s, &w);
        let rec = apply(&mut w, &mut h, &step, tr);
        s.end();
        let Some(r) = rec else { continue };
        let mask = (sp.mask)(&r);
        if mask != 0 {
            st.evals += 1;
        }
        if let Some(m) = facets_msg(&r, mask) {
            tr.add(|| format!("^ {m}"));
            return Err(m);
        }
        if mask != 0 {
            if let Some(m) = (sp.direct)(&w, &h, &r) {
                tr.add(|| format!("^ {m}"));
                return Err(format!("DIRECT: {m}"));
            }
            if let Some(l) = (sp.label)(&w, &r) {
                st.hit(&l, rec_hash(&r), || rec_text(&w, &r));
            }
        }
        if r.diffs.iter().any(|d| d.0 == STRUCT) {
            break; // state no longer readable; the properties that judge structure report it
        }
    }
    Ok(())
}

/// wallet + free + locked, in lots, of one trader
pub fn holdings(w_bank: &crate::rt::Bank, m: &Mkt, k: &crate::enc::MktKeys, t: &solana_program::pubkey::Pubkey) -> (i128, i128) {
    let s = m.traders.get(t).cloned().unwrap_or_default();
    let wb = tok_amount(w_bank, &keys::ata(t, &k.base_mint)).unwrap_or(0) as i128;
    let wq = tok_amount(w_bank, &keys::ata(t, &k.quote_mint)).unwrap_or(0) as i128;
    (wb + (s.bl as i128 + s.bf as i128) * m.hdr.base_lot() as i128, wq + (s.ql as i128 + s.qf as i128) * m.hdr.quote_lot() as i128)
}
