//! Checks over generated histories that attack or observe one interface from outside.
use crate::engine::{hash, Stats, Trace};
use crate::enc::*;
use crate::gen::*;
use crate::hist::*;
use crate::obs::*;
use crate::step::*;
use crate::keys;
use crate::tape::Src;
use crate::world::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;

// ------------------------------------------------------------------------------------------ C29
pub const R29: &str = "outsiders' log calls inside generated histories: genuine batches replayed, batches with a forged header, bare tags and random bytes, with the log authority unsigned, with other keys signing, with the accounts of a genuine instruction, in every order; and genuine instructions naming another program or log authority. Non-trivial: a forged call on a live market, or a substitution in an instruction that would otherwise succeed.";

fn who_signs(s: &mut Src, w: &World) -> Pubkey {
    w.actors[s.draw(NACT as u64) as usize]
}

pub fn c29(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let (mut w, mut h, mut g) = start(s, st, tr, vec![Prof { len: (4, 25), ..Prof::default() }])?;
    let mut genuine: Vec<Vec<u8>> = vec![];
    let mut n = 0;
    loop {
        s.begin();
        if n > 200 || !more(s, 25) {
            break;
        }
        n += 1;
        let step = g.next(s, &w);
        if let Step::Op(op) = &step {
            if s.chance(1, 2) {
                foreign_log(s, st, tr, &w, op)?;
            }
        }
        let rec = apply(&mut w, &mut h, &step, tr);
        if let Some(r) = rec {
            if r.res.ok {
                if r.res.logs.is_empty() {
                    return Err(format!("SILENT: {} succeeded without a log record", r.op.act.name()));
                }
                genuine.extend(r.res.logs.iter().cloned());
                let k = genuine.len().saturating_sub(12);
                genuine.drain(..k);
            }
        }
        for _ in 0..s.draw(4) {
            forged(s, st, tr, &w, &genuine)?;
        }
        s.end();
    }
    Ok(())
}

fn forged(s: &mut Src, st: &mut Stats, tr: &mut Trace, w: &World, genuine: &[Vec<u8>]) -> Result<(), String> {
    let m = s.draw(w.mk.len() as u64) as usize;
    let mk = &w.mk[m];
    let (what, data) = match s.draw(5) {
        0 => ("bare tag", vec![15u8]),
        1 if !genuine.is_empty() => ("replayed batch", s.pick(genuine).clone()),
        2 if !genuine.is_empty() => {
            // the same events under another sequence number, market or signer
            let mut d = s.pick(genuine).clone();
            let at = s.draw(d.len().min(93) as u64 - 1) as usize + 1;
            d[at] = d[at].wrapping_add(1 + s.draw(255) as u8);
            ("forged batch", d)
        }
        3 => {
            let mut d = vec![15u8, 1];
            for _ in 0..s.draw(120) {
                d.push(s.draw(256) as u8);
            }
            ("random batch", d)
        }
        _ => ("tag and header tag", vec![15u8, 1]),
    };
    let la = keys::log_authority();
    let me = who_signs(s, w);
    let un = |k: Pubkey| AccountMeta::new_readonly(k, false);
    let sg = |k: Pubkey| AccountMeta::new_readonly(k, true);
    let (how, mut metas) = match s.draw(12) {
        0 => ("the log authority unsigned", vec![un(la)]),
        1 => ("the log authority unsigned and writable", vec![AccountMeta::new(la, false)]),
        2 => ("the log authority unsigned and another signer behind it", vec![un(la), sg(me)]),
        3 => ("another signer", vec![sg(me)]),
        4 => ("another signer and the log authority behind it", vec![sg(me), un(la)]),
        5 => ("a writable signer", vec![AccountMeta::new(me, true)]),
        6 => ("the program", vec![un(keys::program()), un(la), sg(me)]),
        7 => ("the market", vec![un(mk.key), un(la), sg(me)]),
        8 => ("a vault", vec![un(if s.chance(1, 2) { mk.base_vault } else { mk.quote_vault })]),
        9 => ("no account", vec![]),
        10 => ("a stranger's signature", vec![sg(keys::key("nobody", s.draw(4))), un(la)]),
        _ => ("the log authority twice", vec![un(la), un(la)]),
    };
    for _ in 0..s.draw(3) {
        metas.push(un(*s.pick(&[mk.key, la, keys::program(), me])));
    }
    let ix = Instruction { program_id: keys::program(), accounts: metas, data };
    let r = w.bank.clone().exec(&ix);
    st.evals += 1;
    tr.add(|| format!("outsider: log call ({what}, {} bytes) with {how}: {}", ix.data.len(), if r.ok { "ACCEPTED" } else { "refused" }));
    if r.ok {
        return Err(format!("FORGED: a log call ({what}) by an outsider with {how} was accepted"));
    }
    st.hit(&format!("{what}, {how}"), hash(&(&ix.data, ix.accounts.iter().map(|a| (a.pubkey.to_bytes(), a.is_signer)).collect::<Vec<_>>())), || format!("log call ({what}) with {how}, {} bytes: {}", ix.data.len(), r.err));
    Ok(())
}

/// a genuine instruction with another program or log authority account
fn foreign_log(s: &mut Src, st: &mut Stats, tr: &mut Trace, w: &World, op: &Op) -> Result<(), String> {
    let base = build(&w.mk[op.m], &w.actors[op.who], op.nosign, &op.act);
    let would = w.bank.clone().exec(&base).ok;
    let pos = s.draw(2) as usize;
    let cand = [
        keys::evil(),
        keys::system(),
        keys::token_program(),
        keys::program(),
        keys::log_authority(),
        w.actors[op.who],
        w.mk[op.m].key,
        w.mk[op.m].base_vault,
        keys::key("nobody", 1),
        keys::seat(&w.mk[op.m].key, &w.actors[op.who]).0,
    ];
    let k = *s.pick(&cand);
    let mut ix = base;
    if ix.accounts.len() < 2 || ix.accounts[pos].pubkey == k {
        return Ok(());
    }
    // a key that is listed elsewhere keeps the privileges it has there
    let sign = ix.accounts.iter().any(|a| a.pubkey == k && a.is_signer) || (k == keys::key("nobody", 1) && s.chance(1, 2));
    ix.accounts[pos] = AccountMeta { pubkey: k, is_signer: sign, is_writable: ix.accounts.iter().any(|a| a.pubkey == k && a.is_writable) };
    let r = w.bank.clone().exec(&ix);
    st.evals += 1;
    let role = ["program", "log authority"][pos];
    tr.add(|| format!("{} with {} as the {role}: {}", op_text(w, op), w.label(&k), if r.ok { "ACCEPTED" } else { "refused" }));
    if r.ok {
        return Err(format!("FOREIGN: {} was accepted with {} as the {role}", op.act.name(), w.label(&k)));
    }
    if would {
        st.hit(&format!("{} with another {role}", op.act.name()), hash(&(&ix.data, k.to_bytes(), pos)), || format!("{} with {} as the {role}: {}", op_text(w, op), w.label(&k), r.err));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C30
pub const R30: &str = "in states reached by histories on one or two markets (any status, expired orders, aged and crowded markets), on a copy: the authority may first move the market to another status and time may pass; then every registered trader leaves, in a random order and by a random route (cancel all, by side, by id, by reducing, with and without withdrawal, withdrawing in parts), signing alone. Each leaver's wallet must grow by exactly what the market recorded for it before anyone left, and in the end the books are empty and the vaults hold only fees and strangers' gifts, the fees being payable. Non-trivial: a leaver with resting orders or two kinds of funds; distinct by route, status and amounts.";

struct Leaver {
    key: Pubkey,
    base: u128,
    quote: u128,
    orders: usize,
}

fn alone(w: &mut World, m: usize, t: &Pubkey, act: Act) -> Result<(), String> {
    let ix = build(&w.mk[m], t, false, &act);
    let r = w.bank.exec(&ix);
    if !r.ok {
        return Err(format!("STUCK: {} cannot leave: {} refused in status {}: {}", w.label(t), act.name(), w.st[m].as_ref().map(|x| x.hdr.status()).unwrap_or(9), r.err));
    }
    Ok(())
}

fn own_ids(w: &World, m: usize, t: &Pubkey) -> Vec<(Side, u64, u64, u64)> {
    let Some(mk) = &w.st[m] else { return vec![] };
    let mut r = vec![];
    for sd in [Side::Bid, Side::Ask] {
        r.extend(mk.book(sd).iter().filter(|o| o.tr == *t).map(|o| (sd, o.price, o.seq, o.size)));
    }
    r
}

fn leave(s: &mut Src, w: &mut World, m: usize, l: &Leaver) -> Result<&'static str, String> {
    let t = l.key;
    let n = |s: &mut Src| if s.chance(1, 2) { None } else { Some(1 << 20) };
    let route = match s.draw(7) {
        0 => {
            alone(w, m, &t, Act::CancelAll { ff: false })?;
            "cancel all with withdrawal"
        }
        1 => {
            alone(w, m, &t, Act::CancelAll { ff: true })?;
            "cancel all, withdraw"
        }
        2 => {
            let first = if s.chance(1, 2) { Side::Bid } else { Side::Ask };
            for sd in [first, first.opp()] {
                let (search, cancel) = (n(s), n(s));
                alone(w, m, &t, Act::CancelUpTo { side: sd, tick: None, search, cancel, ff: s.chance(1, 2) })?;
            }
            "cancel by side"
        }
        3 => {
            let mut ids = own_ids(w, m, &t);
            while !ids.is_empty() {
                let k = 1 + s.draw(ids.len().min(20) as u64) as usize;
                let mut part = vec![];
                for _ in 0..k {
                    let i = s.draw(ids.len() as u64) as usize;
                    let x = ids.swap_remove(i);
                    part.push((x.0, x.1, x.2));
                }
                alone(w, m, &t, Act::CancelIds { ids: part, ff: s.chance(1, 2) })?;
            }
            "cancel by id"
        }
        4 => {
            for (sd, price, seq, size) in own_ids(w, m, &t) {
                let part = if size > 1 && s.chance(1, 2) { 1 + s.draw(size - 1) } else { 0 };
                if part > 0 {
                    alone(w, m, &t, Act::Reduce { side: sd, price, seq, size: part, ff: s.chance(1, 2) })?;
                }
                let rest = if s.chance(1, 2) { size - part } else { u64::MAX };
                alone(w, m, &t, Act::Reduce { side: sd, price, seq, size: rest, ff: s.chance(1, 2) })?;
            }
            "reduce to nothing"
        }
        5 => {
            alone(w, m, &t, Act::Withdraw { quote: None, base: None })?;
            alone(w, m, &t, Act::CancelAll { ff: s.chance(1, 2) })?;
            "withdraw, cancel, withdraw"
        }
        _ => {
            alone(w, m, &t, Act::CancelAll { ff: true })?;
            w.refresh(m)?;
            let x = w.st[m].as_ref().and_then(|k| k.traders.get(&t).cloned()).unwrap_or_default();
            let (a, b) = (s.draw(x.qf.saturating_add(1).max(1)), s.draw(x.bf.saturating_add(1).max(1)));
            alone(w, m, &t, Act::Withdraw { quote: Some(a), base: Some(b) })?;
            alone(w, m, &t, Act::Withdraw { quote: if s.chance(1, 2) { None } else { Some(u64::MAX) }, base: Some(0) })?;
            "cancel all, withdraw in parts"
        }
    };
    alone(w, m, &t, Act::Withdraw { quote: None, base: None })?;
    Ok(route)
}

fn everyone_leaves(s: &mut Src, st: &mut Stats, tr: &mut Trace, w: &World, m: usize) -> Result<(), String> {
    let mut w = w.clone();
    let Some(m0) = &w.st[m] else { return Ok(()) };
    if !m0.broken.is_empty() {
        return Ok(());
    }
    if s.chance(1, 2) {
        let act = Act::ChangeStatus { status: 1 + s.draw(4) as u8, receiver: None };
        let ix = build(&w.mk[m], &m0.hdr.authority(), false, &act);
        w.bank.exec(&ix);
    }
    if s.chance(1, 3) {
        w.bank.slot += s.draw(1000);
        w.bank.ts += s.draw(1000) as i64;
    }
    w.refresh(m)?;
    let Some(m0) = w.st[m].clone() else { return Ok(()) };
    let k = w.mk[m].clone();
    let (bl, ql) = (m0.hdr.base_lot() as u128, m0.hdr.quote_lot() as u128);
    let mut who: Vec<Leaver> = vec![];
    for (t, x) in &m0.traders {
        let has = tok_amount(&w.bank, &keys::ata(t, &k.base_mint)).is_some() && tok_amount(&w.bank, &keys::ata(t, &k.quote_mint)).is_some();
        if !has {
            if !x.zero() {
                return Ok(());
            }
            continue;
        }
        let orders = m0.bids.iter().chain(m0.asks.iter()).filter(|o| o.tr == *t).count();
        who.push(Leaver { key: *t, base: (x.bl as u128 + x.bf as u128) * bl, quote: (x.ql as u128 + x.qf as u128) * ql, orders });
    }
    if who.is_empty() {
        return Ok(());
    }
    let gift = surplus(&w, m);
    let mut i = 0;
    while !who.is_empty() {
        i += 1;
        let l = who.swap_remove(s.draw(who.len() as u64) as usize);
        let wallet = |w: &World| (tok_amount(&w.bank, &keys::ata(&l.key, &k.base_mint)).unwrap_or(0) as u128, tok_amount(&w.bank, &keys::ata(&l.key, &k.quote_mint)).unwrap_or(0) as u128);
        let before = wallet(&w);
        if before.0 + l.base > u64::MAX as u128 || before.1 + l.quote > u64::MAX as u128 {
            return Ok(());
        }
        let route = leave(s, &mut w, m, &l)?;
        st.evals += 1;
        let after = wallet(&w);
        w.refresh(m)?;
        tr.add(|| format!("{} leaves {i}th with {} orders by: {route}; wallet {before:?} -> {after:?}", w.label(&l.key), l.orders));
        let Some(now) = &w.st[m] else { return Err("STUCK: the market vanished while traders left".into()) };
        let got = (after.0.wrapping_sub(before.0), after.1.wrapping_sub(before.1));
        if got != (l.base, l.quote) {
            return Err(format!("EXIT: {} was owed {} base and {} quote atoms and left with {} and {} ({route})", w.label(&l.key), l.base, l.quote, got.0, got.1));
        }
        if now.traders.get(&l.key).map(|x| !x.zero()).unwrap_or(false) || now.bids.iter().chain(now.asks.iter()).any(|o| o.tr == l.key) {
            return Err(format!("EXIT: {} still has orders or funds on the market after leaving ({route})", w.label(&l.key)));
        }
        if l.orders > 0 || (l.base > 0 && l.quote > 0) {
            st.hit(&format!("{route}, status {}", now.hdr.status()), hash(&(route, now.hdr.status(), l.orders, l.base as u64, l.quote as u64)), || format!("{} orders, {} base and {} quote atoms", l.orders, l.base, l.quote));
        }
    }
    let end = w.st[m].clone().unwrap();
    if !end.bids.is_empty() || !end.asks.is_empty() {
        return Err("EXIT: everybody left but the book is not empty".into());
    }
    if surplus(&w, m) != gift || obligations(&end) != (0, end.unclaimed as u128 * ql) || end.unclaimed != m0.unclaimed {
        return Err(format!("EXIT: everybody left; vaults exceed the fees by {:?} atoms, {gift:?} before", surplus(&w, m)));
    }
    let to = end.hdr.fee_recipient();
    let acct = keys::ata(&to, &k.quote_mint);
    if let Some(have) = tok_amount(&w.bank, &acct) {
        if have as u128 + end.unclaimed as u128 * ql <= u64::MAX as u128 {
            let any = w.actors[s.draw(NACT as u64) as usize];
            let ix = build(&k, &any, false, &Act::CollectFees { to });
            let r = w.bank.exec(&ix);
            if !r.ok {
                return Err(format!("STUCK: fees cannot be collected after everybody left: {}", r.err));
            }
            let now = tok_amount(&w.bank, &acct).unwrap_or(0) as u128;
            let vault = tok_amount(&w.bank, &k.quote_vault).unwrap_or(0) as i128;
            if now != have as u128 + end.unclaimed as u128 * ql || vault != gift.1 {
                return Err(format!("EXIT: {} lots of fees paid {} atoms and leave {vault} in the vault", end.unclaimed, now as i128 - have as i128));
            }
        }
    }
    Ok(())
}

pub fn c30(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let profs = vec![
        Prof { len: (4, 40), two: 3, ..Prof::default() },
        Prof { tif: 3, own: 2, extreme: 2, len: (4, 40), ..Prof::default() },
        Prof { len: (4, 40), ..Prof::default() }.set(&[(STATUS, 6), (OUST, 2), (EVICT, 3), (SEATCH, 4), (COLLECT, 4), (FEEREC, 3)]),
        Prof { fill: 4, len: (0, 20), ..Prof::default() },
    ];
    let (mut w, mut h, mut g) = start(s, st, tr, profs)?;
    let mut n = 0;
    loop {
        s.begin();
        if n > 200 || !more(s, 25) {
            break;
        }
        n += 1;
        let step = g.next(s, &w);
        let rec = apply(&mut w, &mut h, &step, tr);
        s.end();
        if rec.map(|r| r.diffs.iter().any(|d| d.0 == STRUCT)).unwrap_or(false) {
            break;
        }
        s.begin();
        if s.chance(1, 8) {
            let m = s.draw(w.mk.len() as u64) as usize;
            everyone_leaves(s, st, tr, &w, m)?;
        }
        s.end();
    }
    for m in 0..w.mk.len() {
        s.begin();
        everyone_leaves(s, st, tr, &w, m)?;
        s.end();
    }
    Ok(())
}
