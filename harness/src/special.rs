//! Checks that are not plain histories: account substitution, packet codec, market creation, raw bytes.
pub use crate::special2::*;
use crate::enc::*;
use crate::engine::*;
use crate::gen::*;
use crate::hist::*;
use crate::keys;
use crate::model::{Info, Out, Pred};
use crate::obs::*;
use crate::props::*;
use crate::rt::Acct;
use crate::step::*;
use crate::tape::Src;
use crate::world::*;
use solana_program::{instruction::Instruction, program_option::COption, program_pack::Pack, pubkey::Pubkey, rent::Rent};
use std::collections::BTreeMap;

pub fn any_pred(why: &'static str, out: Out) -> Pred {
    Pred { out, why, mkt: None, tok: BTreeMap::new(), lam: BTreeMap::new(), seats: vec![], evs: vec![], ret: vec![], info: Info::default() }
}

const SAFE: u32 = STRUCT | VAULT | LOCK | BOOKINV | CONSERVE | REPLAY | FEETOT | SEQ;

// ------------------------------------------------------------------------------------------ C17
pub const R17: &str = "states reached by histories on two markets; in instructions that would succeed, one account is replaced by a plausible wrong one (other market/vault/seat/wallet/mint/actor, fake token account, forged market or seat under another program, accept-everything program, wallet delegated to the actor, token account belonging to a vault's owner, swapped pair), two are, several are taken from the other market, or a required signature is dropped. Non-trivial: the unmodified instruction would succeed.";

struct Fakes {
    mkt: Vec<Pubkey>,
    seat: Vec<Pubkey>,
    tok: Vec<Pubkey>,
    alt: Vec<Pubkey>,
    twin: Vec<Pubkey>,
    /// wallets of somebody else that the actor may spend from or close, by actor, base and quote
    lent: Vec<Pubkey>,
    blank: Pubkey,
}

fn plant_fakes(w: &mut World) -> Fakes {
    let salt = w.cfg.salt;
    let mut f = Fakes { mkt: vec![], seat: vec![], tok: vec![], alt: vec![], twin: vec![], lent: vec![], blank: keys::key("blank market", salt) };
    // what anyone can make: an account of the program, of a market's size, that was never initialized
    let n = w.bank.get(&w.mk[0].key).map(|a| a.data.len()).unwrap_or(0);
    w.bank.put(f.blank, Acct { lamports: 1 << 40, data: vec![0; n], owner: keys::program(), exec: false });
    for i in 0..w.mk.len() {
        if let Some(a) = w.bank.get(&w.mk[i].key).cloned() {
            let k = keys::key("fake market", salt * 8 + i as u64);
            w.bank.put(k, Acct { owner: keys::evil(), ..(*a).clone() });
            f.mkt.push(k);
        }
        for t in 0..3 {
            if let Some(a) = w.bank.get(&keys::seat(&w.mk[i].key, &w.actors[t]).0).cloned() {
                let k = keys::key("fake seat", salt * 64 + (i * 8 + t) as u64);
                let mut d = (*a).clone();
                d.owner = keys::evil();
                if d.data.len() == 128 {
                    d.data[72..80].copy_from_slice(&1u64.to_le_bytes());
                }
                w.bank.put(k, d);
                f.seat.push(k);
            }
        }
    }
    for i in 0..w.mk.len() {
        // token accounts that belong to a vault address without being that vault: anyone can make one
        let k = w.mk[i].clone();
        for (j, (v, m)) in [(k.base_vault, k.base_mint), (k.quote_vault, k.quote_mint), (k.base_vault, k.quote_mint), (k.quote_vault, k.base_mint)].iter().enumerate() {
            let x = keys::key("twin vault", salt * 64 + (i * 4 + j) as u64);
            w.bank.put(x, tok_acct(m, v, 1 << 40));
            f.twin.push(x);
        }
    }
    let (bm, qm) = (w.mk[0].base_mint, w.mk[0].quote_mint);
    for t in 0..NACT {
        for (j, m) in [bm, qm].iter().enumerate() {
            let k = keys::key("lent token", salt * 64 + (t * 2 + j) as u64);
            let mut a = tok_acct(m, &w.actors[(t + 1) % NACT], 1 << 40);
            let mut x = spl_token::state::Account::unpack(&a.data).unwrap();
            x.delegate = COption::Some(w.actors[t]);
            x.delegated_amount = 1 << 40;
            x.close_authority = COption::Some(w.actors[t]);
            x.pack_into_slice(&mut a.data);
            w.bank.put(k, a);
            f.lent.push(k);
        }
    }
    for t in 0..3 {
        for (j, m) in [bm, qm].iter().enumerate() {
            let k = keys::key("fake token", salt * 64 + (t * 2 + j) as u64);
            w.bank.put(k, Acct { owner: keys::evil(), ..tok_acct(m, &w.actors[t], 1 << 50) });
            f.tok.push(k);
            // a second genuine token account of the same owner and mint
            let k = keys::key("alt token", salt * 64 + (t * 2 + j) as u64);
            w.bank.put(k, tok_acct(m, &w.actors[t], 1 << 40));
            f.alt.push(k);
        }
    }
    f
}

struct Att {
    key: Pubkey,
    kind: &'static str,
}

fn candidates(s: &mut Src, w: &World, f: &Fakes, op: &Op, role: Role, cur: &Pubkey) -> Option<Att> {
    let k = &w.mk[op.m];
    let other = &w.mk[(op.m + 1) % w.mk.len()];
    let me = w.actors[op.who];
    let anyone = w.actors[s.draw(NACT as u64) as usize];
    let att = |key: Pubkey, kind: &'static str| Att { key, kind };
    let mut l: Vec<Att> = vec![];
    let pick = |s: &mut Src, v: &Vec<Pubkey>| if v.is_empty() { None } else { Some(v[s.draw(v.len() as u64) as usize]) };
    let fm = pick(s, &f.mkt);
    let fs = pick(s, &f.seat);
    let ft = pick(s, &f.tok);
    let fa = pick(s, &f.alt);
    match role {
        Role::Program => l.extend([att(keys::evil(), "attacker's program"), att(keys::token_program(), "token program")]),
        Role::LogAuth => l.extend([att(anyone, "an actor"), att(k.key, "the market")]),
        Role::TokenProgram => l.extend([att(keys::evil(), "attacker's program"), att(keys::program(), "this program"), att(keys::system(), "system program")]),
        Role::System => l.extend([att(keys::evil(), "attacker's program"), att(keys::token_program(), "token program")]),
        Role::Market => {
            l.push(att(other.key, "other market"));
            if let Some(x) = fm {
                l.push(att(x, "forged market"));
            }
            l.push(att(f.blank, "blank market"));
            l.push(att(keys::seat(&k.key, &me).0, "a seat account"));
        }
        Role::Signer => l.push(att(anyone, "another signer")),
        Role::Seat => {
            l.push(att(keys::seat(&k.key, &anyone).0, "another trader's seat"));
            l.push(att(keys::seat(&other.key, &me).0, "seat on the other market"));
            l.push(att(keys::seat(&other.key, &anyone).0, "another trader's seat on the other market"));
            if let Some(x) = fs {
                l.push(att(x, "forged seat"));
            }
            l.push(att(k.key, "the market"));
        }
        Role::BaseAcct | Role::QuoteAcct | Role::FeeAcct => {
            let (m, o) = if role == Role::BaseAcct { (k.base_mint, k.quote_mint) } else { (k.quote_mint, k.base_mint) };
            l.push(att(keys::ata(&anyone, &m), "another wallet of the same mint"));
            // of an actor when acting, of the subject when acted upon
            let mut by = op.who;
            if let (Act::Evict { trader } | Act::ForceCancel { trader, .. }, true) = (&op.act, s.chance(1, 2)) {
                by = w.actor_of(trader).unwrap_or(by);
            }
            if let Act::CollectFees { to } = &op.act {
                by = w.actor_of(to).unwrap_or(by);
            }
            l.push(att(f.lent[by * 2 + (role != Role::BaseAcct) as usize], "somebody else's wallet, spending delegated"));
            l.push(att(keys::ata(&me, &o), "own wallet of the other mint"));
            l.push(att(if role == Role::BaseAcct { k.base_vault } else { k.quote_vault }, "the vault itself"));
            l.push(att(if role == Role::BaseAcct { other.base_vault } else { other.quote_vault }, "other market's vault"));
            l.push(att(m, "the mint"));
            l.push(att(f.twin[s.draw(f.twin.len() as u64) as usize], "a token account of a vault's owner"));
            if let Some(x) = ft {
                l.push(att(x, "forged token account"));
            }
            if let Some(x) = fa {
                l.push(att(x, "second token account"));
            }
        }
        Role::BaseVault | Role::QuoteVault => {
            let (m, v, o) = if role == Role::BaseVault { (k.base_mint, other.base_vault, k.quote_vault) } else { (k.quote_mint, other.quote_vault, k.base_vault) };
            l.push(att(v, "other market's vault"));
            l.push(att(o, "the other vault"));
            l.push(att(keys::ata(&anyone, &m), "a wallet"));
            l.push(att(keys::ata(&me, &m), "own wallet"));
            // own twin of this very vault, or of any other
            let own = op.m * 4 + if role == Role::BaseVault { 0 } else { 1 };
            l.push(att(f.twin[own], "a second token account of the vault's owner"));
            l.push(att(f.twin[s.draw(f.twin.len() as u64) as usize], "a token account of a vault's owner"));
            if let Some(x) = ft {
                l.push(att(x, "forged token account"));
            }
            if let Some(x) = fa {
                l.push(att(x, "second token account"));
            }
        }
        Role::Trader | Role::Payer | Role::NewRecipient | Role::PrevRecipient | Role::Receiver => l.push(att(anyone, "another actor")),
        Role::BaseMint | Role::QuoteMint => {}
    }
    if s.chance(1, 8) {
        // anything at all
        let n = w.bank.accts.len() as u64;
        let key = *w.bank.accts.keys().nth(s.draw(n) as usize).unwrap();
        l = vec![att(key, "an arbitrary account")];
    }
    l.retain(|a| a.key != *cur);
    if l.is_empty() {
        return None;
    }
    let i = s.draw(l.len() as u64) as usize;
    Some(l.swap_remove(i))
}

fn tok_fields(w: &World, k: &Pubkey) -> Option<(Pubkey, Pubkey)> {
    let a = w.bank.get(k)?;
    if a.owner != keys::token_program() || a.data.len() != 165 {
        return None;
    }
    Some((gk(&a.data, 0), gk(&a.data, 32)))
}

/// Why the account list is not a legitimate one for this instruction, if it is not.
fn illegitimate(w: &World, act: &Act, roles: &[(solana_program::instruction::AccountMeta, Role)]) -> Option<(&'static str, Option<usize>)> {
    let at = |r: Role| roles.iter().find(|x| x.1 == r).map(|x| x.0.pubkey);
    let signed = |k: &Pubkey| roles.iter().any(|x| x.0.pubkey == *k && x.0.is_signer);
    let mk = at(Role::Market).unwrap();
    let Some(m) = w.mk.iter().position(|k| k.key == mk) else { return Some(("not a market of the program", None)) };
    let Some(st) = &w.st[m] else { return Some(("market not initialized", None)) };
    let k = &w.mk[m];
    let signer = at(Role::Signer).unwrap();
    let bad = |x: &'static str| Some((x, Some(m)));
    if !signed(&signer) {
        return bad("signer did not sign");
    }
    if act.is_admin() && !matches!(act, Act::CollectFees { .. }) {
        let need = if matches!(act, Act::Claim) { st.hdr.successor() } else { st.hdr.authority() };
        if need != signer {
            return bad("signer is not the market's authority");
        }
    }
    let subject = at(Role::Trader).unwrap_or(match act {
        Act::ChangeSeat { trader, .. } => *trader,
        _ => signer,
    });
    for (meta, r) in roles {
        let x = meta.pubkey;
        let ok = match r {
            Role::Program => x == keys::program(),
            Role::LogAuth => x == keys::log_authority(),
            Role::TokenProgram => x == keys::token_program(),
            Role::System => x == keys::system(),
            Role::Seat => match act {
                // the seat alone names the trader
                Act::ChangeSeat { .. } => w.actors.iter().any(|t| keys::seat(&mk, t).0 == x),
                _ => x == keys::seat(&mk, &subject).0,
            },
            Role::BaseVault => x == k.base_vault,
            Role::QuoteVault => x == k.quote_vault,
            Role::BaseAcct => tok_fields(w, &x) == Some((k.base_mint, subject)),
            Role::QuoteAcct => tok_fields(w, &x) == Some((k.quote_mint, subject)),
            Role::FeeAcct => tok_fields(w, &x) == Some((k.quote_mint, st.hdr.fee_recipient())),
            Role::Payer => signed(&x),
            Role::PrevRecipient => st.unclaimed == 0 || (x == st.hdr.fee_recipient() && signed(&x)),
            Role::Market | Role::Signer | Role::Trader | Role::NewRecipient | Role::Receiver | Role::BaseMint | Role::QuoteMint => true,
        };
        if !ok {
            return Some((
                match r {
                    Role::Program => "wrong program account",
                    Role::LogAuth => "wrong log authority",
                    Role::TokenProgram => "wrong token program",
                    Role::System => "wrong system program",
                    Role::Seat => "wrong seat",
                    Role::BaseVault | Role::QuoteVault => "wrong vault",
                    Role::BaseAcct | Role::QuoteAcct => "token account not owned by the trader or of another mint",
                    Role::FeeAcct => "fee account not the recipient's",
                    Role::Payer => "payer did not sign",
                    _ => "previous fee recipient did not sign",
                },
                Some(m),
            ));
        }
    }
    None
}

pub fn c17(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let profs = vec![Prof { two: 7, odd: 10, extreme: 0, ..Prof::default() }.set(&[(OUST, 3), (FORCE, 4), (EVICT, 3), (SEATCH, 4), (COLLECT, 6), (FEEREC, 4), (SUCCESS, 4), (SEATRQ, 4)])];
    let (mut w, mut h, mut g) = start(s, st, tr, profs)?;
    let f = plant_fakes(&mut w);
    h.supply = Some(supply(&w.bank));
    let mut n = 0;
    loop {
        s.begin();
        if n > 200 || !more(s, 40) {
            break;
        }
        n += 1;
        let step = g.next(s, &w);
        if let Step::Op(op) = &step {
            if w.st[op.m].is_some() && s.chance(1, 2) && !matches!(op.act, Act::Init(_)) {
                let would = predict_on(&w, op).map(|p| p.out) == Some(Out::Ok);
                if would || s.chance(1, 6) {
                    for _ in 0..1 + s.draw(3) {
                        attack(s, st, tr, &w, &h, &f, op, would)?;
                    }
                }
            }
        }
        let rec = apply(&mut w, &mut h, &step, tr);
        s.end();
        if rec.map(|r| r.diffs.iter().any(|d| d.0 == STRUCT)).unwrap_or(false) {
            break;
        }
    }
    Ok(())
}

fn attack(s: &mut Src, st: &mut Stats, tr: &mut Trace, w: &World, h: &Hist, f: &Fakes, op: &Op, would: bool) -> Result<(), String> {
    let mut roles = metas(&w.mk[op.m], &w.actors[op.who], false, &op.act);
    let i = s.draw(roles.len() as u64) as usize;
    let what: String;
    let mut op2 = op.clone();
    op2.nosign = false;
    match s.draw(10) {
        8 => {
            // everything that has a counterpart on the other market comes from there
            let mut o = w.mk[(op.m + 1) % w.mk.len()].clone();
            let k = w.mk[op.m].clone();
            let blank = s.chance(1, 4);
            if blank {
                o.key = f.blank;
                if s.chance(1, 2) {
                    (o.base_vault, o.quote_vault) = (k.base_vault, k.quote_vault);
                }
            }
            let keep = s.draw(1 << 6);
            let mut n = 0;
            for (x, r) in roles.iter_mut() {
                let new = match r {
                    Role::Market => o.key,
                    Role::BaseVault => o.base_vault,
                    Role::QuoteVault => o.quote_vault,
                    Role::Seat => match w.actors.iter().find(|t| keys::seat(&k.key, t).0 == x.pubkey) {
                        Some(t) => keys::seat(&o.key, t).0,
                        None => continue,
                    },
                    _ => continue,
                };
                if new != x.pubkey && keep >> n & 1 == 1 {
                    x.pubkey = new;
                }
                n += 1;
            }
            what = format!("{} accounts, selection {:#b}", if blank { "a blank market's" } else { "other market's" }, keep & ((1 << n) - 1));
        }
        9 => {
            let j = s.draw(roles.len() as u64) as usize;
            let (Some(a), Some(b)) = (candidates(s, w, f, op, roles[i].1, &roles[i].0.pubkey), candidates(s, w, f, op, roles[j].1, &roles[j].0.pubkey)) else { return Ok(()) };
            if i == j {
                return Ok(());
            }
            what = format!("{:?} <- {} and {:?} <- {}", roles[i].1, a.kind, roles[j].1, b.kind);
            for (q, c) in [(i, a), (j, b)] {
                if matches!(roles[q].1, Role::Signer | Role::Payer | Role::PrevRecipient) {
                    roles[q].0.is_signer = s.chance(3, 4);
                }
                roles[q].0.pubkey = c.key;
            }
        }
        0 => {
            // drop a signature
            let Some(j) = (0..roles.len()).map(|d| (i + d) % roles.len()).find(|j| roles[*j].0.is_signer) else { return Ok(()) };
            let k = roles[j].0.pubkey;
            for r in roles.iter_mut().filter(|r| r.0.pubkey == k) {
                r.0.is_signer = false;
            }
            what = format!("{:?} not signed", roles[j].1);
        }
        1 => {
            let j = s.draw(roles.len() as u64) as usize;
            if i == j {
                return Ok(());
            }
            let (a, b) = (roles[i].0.pubkey, roles[j].0.pubkey);
            if a == b {
                return Ok(());
            }
            roles[i].0.pubkey = b;
            roles[j].0.pubkey = a;
            // signatures stay with the keys
            let (sa, sb) = (roles[i].0.is_signer, roles[j].0.is_signer);
            roles[i].0.is_signer = sb;
            roles[j].0.is_signer = sa;
            what = format!("{:?} and {:?} swapped", roles[i].1, roles[j].1);
        }
        _ => {
            let Some(c) = candidates(s, w, f, op, roles[i].1, &roles[i].0.pubkey) else { return Ok(()) };
            if matches!(roles[i].1, Role::Signer | Role::Payer | Role::PrevRecipient) {
                roles[i].0.is_signer = s.chance(3, 4);
            }
            roles[i].0.pubkey = c.key;
            // a forged log authority may be a signer too
            if roles[i].1 == Role::LogAuth && s.chance(1, 2) {
                roles[i].0.is_signer = true;
            }
            what = format!("{:?} <- {}", roles[i].1, c.kind);
        }
    }
    let bad = illegitimate(w, &op.act, &roles);
    // who acts, on which market, about whom
    let mkey = roles.iter().find(|r| r.1 == Role::Market).unwrap().0.pubkey;
    let skey = roles.iter().find(|r| r.1 == Role::Signer).unwrap().0.pubkey;
    if let Some(m) = w.mk.iter().position(|k| k.key == mkey) {
        op2.m = m;
    }
    op2.who = w.actor_of(&skey).unwrap_or(op.who);
    if let Some(t) = roles.iter().find(|r| r.1 == Role::Trader) {
        match &mut op2.act {
            Act::Evict { trader } | Act::ForceCancel { trader, .. } | Act::RequestSeatAuth { trader, .. } => *trader = t.0.pubkey,
            _ => {}
        }
    }
    let ix = Instruction { program_id: keys::program(), accounts: roles.iter().map(|r| r.0.clone()).collect(), data: enc_data(&op.act) };
    let mut w2 = w.clone();
    let mut h2 = h.clone();
    let r = step_ix(&mut w2, &mut h2, &op2, &ix, Some(any_pred("substituted account", if bad.is_some() { Out::Err } else { Out::Any })));
    st.evals += 1;
    tr.add(|| format!("attempt: {} with {what} -> {}", op_text(w, op), if r.res.ok { "ok".into() } else { format!("refused: {}", r.res.err) }));
    if would {
        let kind = match bad {
            None => "harmless",
            Some(_) => "must be refused",
        };
        let hsh = hash(&(op.act.tag(), op.m, &what, op.who, w.st[op.m].as_ref().map(|m| (m.bids.len(), m.asks.len(), m.hdr.status()))));
        let lab = if what.contains(" and ") && !what.ends_with("swapped") { "two substitutes" } else if what.starts_with("a blank") { "several of a blank market's accounts" } else if what.starts_with("other market") { "several of the other market's accounts" } else { &what };
        st.hit(&format!("{kind}: {lab}"), hsh, || format!("{} | {}", op_text(w, op), pre_text(&w.st[op.m])));
    }
    if !r.res.ok {
        if w2.bank.accts != w.bank.accts {
            return Err("EFFECT: a refused instruction changed accounts".into());
        }
        if let Some((why, _)) = bad {
            // it is the program that has to refuse, before the runtime's own rules stop it
            let e = &r.res.err;
            if ["external ", "readonly account", "missing account", "illegal owner", "unbalanced", "executable modified"].iter().any(|x| e.starts_with(x)) {
                return Err(format!("RUNTIME: {} went ahead with a substituted account ({why}) until the runtime stopped it ({e}): {what}", op.act.name()));
            }
        }
        return Ok(());
    }
    if let Some((why, _)) = bad {
        return Err(format!("ACCEPTED: {} was accepted with a substituted account ({why}): {what}", op.act.name()));
    }
    if let Some(m) = facets_msg(&r, SAFE) {
        return Err(m);
    }
    for m in 0..w2.mk.len() {
        if m != op2.m {
            if let Some((_, x)) = invariants(&w2, &h2, m).first() {
                return Err(format!("OTHER: market {m}: {x}"));
            }
        }
    }
    if let Some(x) = other_market_direct(&w2, &r) {
        return Err(format!("OTHER: {x}"));
    }
    // tokens leave only vaults of this market and token accounts owned by the signer,
    // and go only to the subject of the instruction
    let k = &w.mk[op2.m];
    for (key, a) in &w2.bank.accts {
        if a.owner != keys::token_program() || a.data.len() != 165 || *key == k.base_vault || *key == k.quote_vault {
            continue;
        }
        let (x, y) = (tok_amount(&w.bank, key).unwrap_or(0), g64(&a.data, 64));
        let own = gk(&a.data, 32);
        let subject = match &op2.act {
            Act::Evict { trader } | Act::ForceCancel { trader, .. } => *trader,
            Act::CollectFees { .. } => r.pre.as_ref().map(|m| m.hdr.fee_recipient()).unwrap_or(skey),
            _ => skey,
        };
        if (y < x && own != skey) || (y > x && own != subject) {
            return Err(format!("TOKENS: token account {key} of {} went from {x} to {y} ({what})", w.label(&own)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C18
pub const R18: &str = "random packets of all three types with every option present or absent, encoded by the harness; exact, truncated, extended, bit-flipped and random byte strings fed to the program's decoder and compared with a strict independent decoder. Non-trivial: a string that is (or is a damaged form of) a complete packet.";

pub fn raw_packet(s: &mut Src) -> Pkt {
    let v = |s: &mut Src| match s.draw(4) {
        0 => s.draw(100),
        1 => 0,
        2 => s.draw(0),
        _ => u64::MAX,
    };
    let o = |s: &mut Src| match s.draw(3) {
        0 => None,
        1 => Some(s.draw(1000)),
        _ => Some(s.draw(0)),
    };
    let side = if s.chance(1, 2) { Side::Ask } else { Side::Bid };
    let stb = *s.pick(&[Stb::Abort, Stb::CancelProvide, Stb::DecrementTake]);
    let (ff, silent, reject) = (s.chance(1, 2), s.chance(1, 2), s.chance(1, 2));
    let client = match s.draw(3) {
        0 => 0,
        1 => s.draw(1000) as u128,
        _ => (s.draw(0) as u128) << 64 | s.draw(0) as u128,
    };
    let (slot, ts) = (o(s), o(s));
    match s.draw(3) {
        0 => Pkt::PostOnly { side, price: v(s), base: v(s), client, reject, free_only: ff, slot, ts, silent },
        1 => Pkt::Limit { side, price: v(s), base: v(s), stb, ml: o(s), client, free_only: ff, slot, ts, silent },
        _ => Pkt::Ioc { side, price: o(s), base: v(s), quote: v(s), min_base: v(s), min_quote: v(s), stb, ml: o(s), client, free_only: ff, slot, ts },
    }
}

pub fn c18(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    for _ in 0..20 {
        s.begin();
        if !more(s, 15) {
            break;
        }
        let p = raw_packet(s);
        let full = enc_pkt(&p);
        let mut d = full.clone();
        let how: &'static str = match s.draw(10) {
            0 | 1 => "exact",
            2 | 3 => {
                // leave out trailing absent optional fields
                let k = 1 + s.draw(3) as usize;
                d.truncate(d.len() - k);
                "trailing bytes missing"
            }
            4 => {
                let k = s.draw(d.len() as u64 + 1) as usize;
                d.truncate(k);
                "truncated"
            }
            5 => {
                for _ in 0..1 + s.draw(4) {
                    let b = s.draw(256) as u8;
                    d.push(if s.chance(1, 2) { 0 } else { b });
                }
                "extended"
            }
            6 => {
                let i = s.draw(d.len() as u64) as usize;
                d[i] = s.draw(256) as u8;
                "byte changed"
            }
            7 => {
                let i = s.draw(d.len() as u64) as usize;
                d[i] = s.draw(6) as u8;
                if s.chance(1, 2) {
                    let k = s.draw(5) as usize;
                    d.truncate(d.len().saturating_sub(k));
                }
                "byte set small"
            }
            8 => {
                let n = s.draw(90) as usize;
                d = (0..n).map(|_| s.draw(256) as u8).collect();
                if n > 2 && s.chance(3, 4) {
                    d[0] = s.draw(3) as u8;
                    d[1] = s.draw(2) as u8;
                }
                "random"
            }
            _ => {
                let n = s.draw(90) as usize;
                d = (0..n).map(|_| s.draw(3) as u8).collect();
                "random small bytes"
            }
        };
        s.end();
        st.evals += 1;
        let mut want = None;
        let mut pad = 0;
        for k in 0..=3usize {
            let mut x = d.clone();
            x.resize(d.len() + k, 0);
            if let Some(q) = dec_pkt(&x) {
                want = Some((q, x));
                pad = k;
                break;
            }
        }
        let got = phoenix::state::decode_order_packet(&d);
        tr.add(|| format!("{how}: {p:?} as {d:?} -> {got:?}"));
        let kind = ["PostOnly", "Limit", "IOC"][full[0] as usize];
        if d.len() > 20 {
            st.hit(&format!("{kind} {how}: {}", if want.is_some() { format!("accepted, {pad} bytes implied") } else { "refused".into() }), hash(&d), || format!("{d:?}"));
        }
        match (&want, &got) {
            (None, None) => {}
            (Some((q, x)), Some(g)) => {
                let back = borsh::BorshSerialize::try_to_vec(g).unwrap();
                if back != *x {
                    return Err(format!("DECODE: {d:?} decodes to {g:?}, expected {q:?}"));
                }
                check_meta(q, g)?;
            }
            (Some((q, _)), None) => return Err(format!("REFUSED: {d:?} encodes {q:?} but was refused")),
            (None, Some(g)) => return Err(format!("ACCEPTED: {d:?} is no packet encoding but was accepted as {g:?}")),
        }
    }
    Ok(())
}

/// the packet's accessors agree with its fields
fn check_meta(q: &Pkt, g: &phoenix::state::OrderPacket) -> Result<(), String> {
    use phoenix::quantities::WrapperU64;
    use phoenix::state::OrderPacketMetadata;
    let side = if g.side() == phoenix::state::Side::Bid { Side::Bid } else { Side::Ask };
    let ok = side == q.side()
        && g.is_take_only() == q.take_only()
        && g.is_post_only() == matches!(q, Pkt::PostOnly { .. })
        && g.no_deposit_or_withdrawal() == q.free_only()
        && g.fail_silently_on_insufficient_funds() == q.silent()
        && g.client_order_id() == q.client()
        && g.num_base_lots().as_u64() == q.base()
        && g.get_last_valid_slot() == q.tif().0
        && g.get_last_valid_unix_timestamp_in_seconds() == q.tif().1;
    if ok {
        Ok(())
    } else {
        Err(format!("ACCESSOR: accessors of {g:?} disagree with its fields"))
    }
}

// ------------------------------------------------------------------------------------------ C21
pub const R21: &str = "market creation with random sizes, decimals, lot/tick parameters (divisible or not, zero, huge), fees around 10000 bps, account states (wrong size, owner, used, program-unowned), mints (missing, forged, equal) and vault addresses (wrong, pre-funded), followed by trading-free inspection and a second creation attempt. Non-trivial: the creation was accepted, or refused because of exactly one bad input.";

pub fn c21(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let cfg = gen_cfg(s, &CfgOpts { two: 0, big: false, nofee: 2 });
    let mut w = World::bare(&cfg);
    let salt = cfg.salt;
    let (mut bm, mut qm) = (keys::key("basemint", salt), keys::key("quotemint", salt));
    let mut size = SIZES[if s.chance(1, 6) { s.draw(12) as usize } else { 0 }];
    let mut p = cfg.init(w.actors[FEE]);
    p.fee_collector = w.actors[s.draw(NACT as u64) as usize];
    p.size = size;
    let mut bad: Vec<&'static str> = vec![];
    let (mut bd, mut qd) = (cfg.base_dec, cfg.quote_dec);
    if s.chance(1, 3) {
        bd = s.draw(20) as u8;
        qd = s.draw(20) as u8;
        w.bank.put(bm, mint_acct(bd, true));
        w.bank.put(qm, mint_acct(qd, true));
    }
    let mut good_accts = true;
    let nbad = s.weighted(&[5, 5, 1]);
    let mut space = market_space(size).unwrap_or(HDR);
    let mut owner = keys::program();
    let mut fill: Option<u8> = None;
    let mut nosign = false;
    let mut exists = true;
    for _ in 0..nbad {
        match s.draw(16) {
            0 => p.fee_bps = *s.pick(&[10_001u16, u16::MAX, 10_000, 20_000]),
            1 => p.base_lots_per_base_unit = *s.pick(&[3u64, 7, 1 << 40, 0, u64::MAX]),
            2 => p.quote_lots_per_quote_unit = *s.pick(&[3u64, 7, 1 << 40, 0, u64::MAX]),
            3 => p.tick = *s.pick(&[1u64, 3, u64::MAX, 0, 1 << 40]),
            4 => p.raw = Some(*s.pick(&[0u32, 3, u32::MAX, 10])),
            5 => {
                // unsupported size
                let d = *s.pick(&[(511u64, 512u64, 128u64), (512, 512, 129), (512, 1024, 128), (0, 0, 0), (u64::MAX, 1, 1), (4096, 4096, 128)]);
                p.size = d;
            }
            6 => {
                space = (space + *s.pick(&[1usize, 16, 64])).saturating_sub(if s.chance(1, 2) { 64 } else { 0 });
            }
            7 => owner = *s.pick(&[keys::evil(), keys::system(), keys::token_program()]),
            8 => fill = Some(s.draw(3) as u8),
            9 => {
                qm = bm;
                bad.push("same mint twice");
            }
            10 => {
                // mint that is not one
                let k = if s.chance(1, 2) { bm } else { qm };
                match s.draw(4) {
                    0 => w.bank.put(k, mint_acct(6, false)),
                    1 => w.bank.put(k, Acct { owner: keys::evil(), ..mint_acct(6, true) }),
                    2 => w.bank.put(k, tok_acct(&bm, &w.actors[0], 5)),
                    _ => {
                        w.bank.accts.remove(&k);
                    }
                }
                bad.push("bad mint");
                good_accts = false;
            }
            11 => {
                nosign = true;
                bad.push("creator did not sign");
            }
            12 => {
                exists = false;
                bad.push("no market account");
            }
            13 => {
                size = SIZES[0];
                p.raw = Some(*s.pick(&[1u32, 10, 1000]));
            }
            14 => {
                p.fee_bps = 10_000;
            }
            _ => p.tick = p.base_lots_per_base_unit.saturating_mul(1 + s.draw(5)),
        }
    }
    let m = {
        let k = mkt_keys(salt, 0, bm, qm);
        if exists {
            w.bank.put(k.key, Acct { lamports: Rent::default().minimum_balance(space), data: vec![0; space], owner, exec: false });
        }
        w.mk.push(k);
        w.st.push(None);
        0
    };
    let k = w.mk[m].clone();
    if let (Some(f), true) = (fill, exists) {
        let mut a = (**w.bank.get(&k.key).unwrap()).clone();
        match f {
            0 => a.data[..8].copy_from_slice(&MKT_DISC.to_le_bytes()),
            1 => {
                // leftovers where the order sequence lives would mean "already initialized"
                let o = HDR + 32 * 8 + 8 + 8;
                if a.data.len() > o + 8 {
                    a.data[o] = 1;
                }
            }
            _ => a.data[..8].copy_from_slice(&SEAT_DISC.to_le_bytes()),
        }
        w.bank.put(k.key, a);
        if f != 1 {
            bad.push("used account");
        }
    }
    // vault addresses may have received lamports beforehand
    let rent165 = Rent::default().minimum_balance(165);
    let mut prefund = [0u64; 2];
    for (i, v) in [k.base_vault, k.quote_vault].iter().enumerate() {
        if s.chance(1, 6) {
            let l = *s.pick(&[1u64, rent165 - 1, rent165, rent165 + 5, 5_000_000_000]);
            prefund[i] = l;
            w.bank.put(*v, Acct { lamports: l, ..Acct::default() });
        }
    }
    let mut ix = build(&k, &w.actors[AUTH], nosign, &Act::Init(p.clone()));
    let mut wrong = false;
    if s.chance(1, 8) {
        let i = 4 + s.draw(6) as usize;
        let sub = match i {
            4 | 5 => keys::key("othermint", salt),
            6 => *s.pick(&[k.quote_vault, keys::ata(&w.actors[AUTH], &bm), w.actors[3]]),
            7 => *s.pick(&[k.base_vault, keys::ata(&w.actors[AUTH], &qm), w.actors[3]]),
            _ => keys::evil(),
        };
        if ix.accounts[i].pubkey != sub {
            ix.accounts[i].pubkey = sub;
            wrong = true;
            bad.push("substituted account");
        }
    }
    // expectation
    let pow = |d: u8| 10u64.checked_pow(d as u32);
    let supported = SIZES.contains(&p.size);
    if !supported {
        bad.push("unsupported size");
    } else if space < market_space(p.size).unwrap() {
        bad.push("account too small");
    }
    if owner != keys::program() {
        bad.push("account not owned by the program");
    }
    if p.fee_bps > 10_000 {
        bad.push("fee above 10000 bps");
    }
    let mut any = fill == Some(1) || (supported && space > market_space(p.size).unwrap());
    let mut lots = (0, 0);
    if good_accts {
        let bau = pow(bd).and_then(|x| x.checked_mul(p.raw.unwrap_or(1) as u64));
        let qau = pow(qd);
        match (bau, qau) {
            (Some(b), Some(q)) => {
                if b == 0 {
                    bad.push("no atoms per base unit");
                } else if p.base_lots_per_base_unit == 0 || b % p.base_lots_per_base_unit != 0 {
                    bad.push("base lots do not divide a base unit");
                } else {
                    lots.0 = b / p.base_lots_per_base_unit;
                }
                if p.quote_lots_per_quote_unit == 0 || q % p.quote_lots_per_quote_unit != 0 {
                    bad.push("quote lots do not divide a quote unit");
                } else {
                    lots.1 = q / p.quote_lots_per_quote_unit;
                }
            }
            _ => bad.push("atoms per unit overflow"),
        }
        if p.tick == 0 {
            bad.push("tick size zero");
        } else if p.base_lots_per_base_unit != 0 && p.tick % p.base_lots_per_base_unit != 0 {
            bad.push("tick not a multiple of base lots per unit");
        }
        if bad.is_empty() && p.tick.checked_mul(lots.1).is_none() {
            bad.push("tick overflow");
        }
    }
    bad.dedup();
    if bad.is_empty() && qm == bm {
        any = true;
    }
    let pre = w.bank.clone();
    let res = w.bank.exec(&ix);
    st.evals += 1;
    tr.add(|| format!("{p:?} decimals {bd}/{qd} space {space} owner {owner} prefund {prefund:?} expected to fail for {bad:?} -> {}", if res.ok { "ok".into() } else { res.err.clone() }));
    let label = if !bad.is_empty() {
        if bad.len() == 1 {
            Some(format!("refused: {}", bad[0]))
        } else {
            None
        }
    } else if any {
        None
    } else {
        Some(format!("created{}", if prefund != [0, 0] { " over pre-funded vault address" } else { "" }))
    };
    if let Some(l) = label {
        st.hit(&l, hash(&(&p, bd, qd, prefund, space, bad.len(), salt)), || format!("{p:?} decimals {bd}/{qd}"));
    }
    if !res.ok {
        if w.bank.accts != pre.accts {
            return Err("EFFECT: a refused creation changed accounts".into());
        }
        if owner != keys::program() && (res.err.starts_with("external ") || res.err.starts_with("illegal owner")) {
            return Err(format!("RUNTIME: creation in an account of another program went ahead until the runtime stopped it ({})", res.err));
        }
        if bad.is_empty() && !any {
            return Err(format!("REFUSED: valid creation refused: {}", res.err));
        }
        return Ok(());
    }
    if !bad.is_empty() {
        return Err(format!("ACCEPTED: creation accepted although: {}", bad.join(", ")));
    }
    if wrong {
        return Err("ACCEPTED: creation accepted with a substituted account".into());
    }
    // the state it must have left
    let a = w.bank.get(&k.key).ok_or("MARKET: market account missing")?.clone();
    let mk = read_market(&a).map_err(|e| format!("MARKET: {e}"))?;
    let auth = w.actors[AUTH];
    let hd = &mk.hdr;
    let mut want = hd.clone();
    want.0 = vec![0; HDR];
    want.set64(0, MKT_DISC);
    want.set_status(2);
    want.set64(16, p.size.0);
    want.set64(24, p.size.1);
    want.set64(32, p.size.2);
    let put = |h: &mut Hdr, o: usize, dec: u8, bump: u8, mint: &Pubkey, vault: &Pubkey| {
        h.0[o..o + 4].copy_from_slice(&(dec as u32).to_le_bytes());
        h.0[o + 4..o + 8].copy_from_slice(&(bump as u32).to_le_bytes());
        h.setk(o + 8, mint);
        h.setk(o + 40, vault);
    };
    put(&mut want, 40, bd, keys::vault(&k.key, &bm).1, &bm, &k.base_vault);
    want.set64(112, lots.0);
    put(&mut want, 120, qd, keys::vault(&k.key, &qm).1, &qm, &k.quote_vault);
    want.set64(192, lots.1);
    want.set64(200, p.tick * lots.1);
    want.set_authority(&auth);
    want.set_fee_recipient(&p.fee_collector);
    want.set_successor(&auth);
    want.0[312..316].copy_from_slice(&p.raw.unwrap_or(1).to_le_bytes());
    // the log sequence number counts the creation itself
    want.set_seqno(1);
    if want != *hd {
        let i = want.0.iter().zip(hd.0.iter()).position(|(x, y)| x != y).unwrap();
        return Err(format!("HEADER: header byte {i} is {}, expected {}", hd.0[i], want.0[i]));
    }
    if !mk.bids.is_empty() || !mk.asks.is_empty() || !mk.traders.is_empty() || mk.unclaimed != 0 || mk.collected != 0 || !mk.broken.is_empty() {
        return Err("MARKET: a new market is not empty".into());
    }
    if mk.fee_bps != p.fee_bps as u64 || mk.tick != p.tick || mk.blpbu != p.base_lots_per_base_unit || mk.seq != 1 {
        return Err(format!("PARAMS: market parameters {:?} differ from the request", (mk.fee_bps, mk.tick, mk.blpbu, mk.seq)));
    }
    if mk.caps.0 < p.size.0 || mk.caps.1 < p.size.1 || mk.caps.2 < p.size.2 {
        return Err(format!("CAPACITY: market holds {:?}, advertised {:?}", mk.caps, p.size));
    }
    let mut paid = 0i128;
    for (i, (v, mint)) in [(k.base_vault, bm), (k.quote_vault, qm)].iter().enumerate() {
        let a = w.bank.get(v).ok_or("VAULT: vault missing")?;
        if a.owner != keys::token_program() || a.data != tok_acct(mint, v, 0).data {
            return Err(format!("VAULT: vault {i} is not an empty token account of the mint owned by itself"));
        }
        let need = rent165.max(prefund[i]);
        if a.lamports != need {
            return Err(format!("VAULT: vault {i} holds {} lamports, expected {need}", a.lamports));
        }
        paid += need as i128 - prefund[i] as i128;
    }
    if pre.lamports(&auth) as i128 - w.bank.lamports(&auth) as i128 != paid {
        return Err("VAULT: creator paid something else than the vaults' rent".into());
    }
    for (key, b) in &w.bank.accts {
        if ![k.key, k.base_vault, k.quote_vault, auth].contains(key) && pre.get(key) != Some(b) {
            return Err(format!("FRAME: unrelated account {key} changed"));
        }
    }
    if a.lamports != pre.lamports(&k.key) {
        return Err("FRAME: market lamports changed".into());
    }
    // creation cannot be repeated, by anyone, with any parameters
    let mut p2 = p.clone();
    if s.chance(1, 2) {
        p2.fee_bps = 0;
        p2.fee_collector = w.actors[3];
    }
    let snap = w.bank.clone();
    let who = *s.pick(&[AUTH, 0]);
    let ix2 = build(&k, &w.actors[who], false, &Act::Init(p2));
    if w.bank.exec(&ix2).ok {
        return Err("REINIT: an initialized market was initialized again".into());
    }
    if snap.accts != w.bank.accts {
        return Err("EFFECT: a refused creation changed accounts".into());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C22
pub const R22: &str = "in states reached by histories, instruction data mutated (truncated, extended, flipped, extreme integers written in, other tag, random body, the internal log tag) and sent with the accounts of a real instruction; a strict independent decoder says whether the bytes are malformed (must be refused), decode to the same instruction (must do exactly what the model says), or belong to another instruction (invariants and bystander checks). Non-trivial: the bytes differ from the valid encoding.";

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn n(&mut self, k: usize) -> Option<&'a [u8]> {
        if self.0.len() < k {
            return None;
        }
        let (a, b) = self.0.split_at(k);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.n(1)?[0])
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.n(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.n(8)?.try_into().unwrap()))
    }
    fn opt<T>(&mut self, f: impl Fn(&mut Self) -> Option<T>) -> Option<Option<T>> {
        match self.u8()? {
            0 => Some(None),
            1 => Some(Some(f(self)?)),
            _ => None,
        }
    }
    fn side(&mut self) -> Option<Side> {
        match self.u8()? {
            0 => Some(Side::Bid),
            1 => Some(Side::Ask),
            _ => None,
        }
    }
    fn end<T>(&self, t: T) -> Option<T> {
        if self.0.is_empty() {
            Some(t)
        } else {
            None
        }
    }
}

enum Dec {
    Malformed,
    /// decodes to this instruction with the template's accounts
    Same(Act),
    Other,
}

fn decode_like(d: &[u8], t: &Act) -> Dec {
    let Some((tag, body)) = d.split_first() else { return Dec::Malformed };
    let mut r = Rd(body);
    let same = *tag == t.tag();
    let pk = |b: &[u8]| (0..=3usize).find_map(|k| dec_pkt(&[b, &[0u8; 3][..k]].concat()));
    // body of each tag: None = malformed
    let a: Option<Option<Act>> = match tag {
        0..=3 => pk(body).map(|p| Some(if *tag < 2 { Act::Swap { p, ff: *tag == 1 } } else { Act::Place { p, ff: *tag == 3 } })),
        4 | 5 => (|| {
            let x = Act::Reduce { side: r.side()?, price: r.u64()?, seq: r.u64()?, size: r.u64()?, ff: *tag == 5 };
            r.end(Some(x))
        })(),
        6 | 7 | 14 | 101 | 105 | 106 | 108 | 109 => Some(if body.is_empty() { Some(t.clone()) } else { None }),
        8 | 9 | 107 => (|| {
            let (side, tick, search, cancel) = (r.side()?, r.opt(|r| r.u64())?, r.opt(|r| r.u32())?, r.opt(|r| r.u32())?);
            r.end(Some(match (tag, t) {
                (107, Act::ForceCancel { trader, .. }) => Act::ForceCancel { trader: *trader, side, tick, search, cancel },
                _ => Act::CancelUpTo { side, tick, search, cancel, ff: *tag == 9 },
            }))
        })(),
        10 | 11 => (|| {
            let n = r.u32()? as usize;
            if n > body.len() {
                return None;
            }
            let mut ids = vec![];
            for _ in 0..n {
                ids.push((r.side()?, r.u64()?, r.u64()?));
            }
            r.end(Some(Act::CancelIds { ids, ff: *tag == 11 }))
        })(),
        12 => (|| {
            let (quote, base) = (r.opt(|r| r.u64())?, r.opt(|r| r.u64())?);
            r.end(Some(Act::Withdraw { quote, base }))
        })(),
        13 => (|| {
            let (quote, base) = (r.u64()?, r.u64()?);
            r.end(Some(Act::Deposit { quote, base }))
        })(),
        16 | 17 => (|| {
            let mut l = [vec![], vec![]];
            for x in l.iter_mut() {
                let n = r.u32()? as usize;
                if n > body.len() {
                    return None;
                }
                for _ in 0..n {
                    x.push(Cond { price: r.u64()?, size: r.u64()?, slot: r.opt(|r| r.u64())?, ts: r.opt(|r| r.u64())? });
                }
            }
            let client = r.opt(|r| Some(u128::from_le_bytes(r.n(16)?.try_into().unwrap())))?;
            let beh = r.u8()?;
            if beh > 3 {
                return None;
            }
            let [bids, asks] = l;
            r.end(Some(Act::Multi { bids, asks, client, beh, ff: *tag == 17 }))
        })(),
        100 => Some(None),
        102 => (|| {
            let k = Pubkey::new(r.n(32)?);
            r.end(Some(Act::NameSuccessor { to: k }))
        })(),
        103 => (|| {
            let st = r.u8()?;
            let rec = if let Act::ChangeStatus { receiver, .. } = t { *receiver } else { None };
            if st > 5 {
                return None;
            }
            r.end(Some(Act::ChangeStatus { status: st, receiver: rec }))
        })(),
        104 => (|| {
            let st = r.u8()?;
            if st > 2 {
                return None;
            }
            let x = if let Act::ChangeSeat { trader, .. } = t { Some(Act::ChangeSeat { trader: *trader, status: st }) } else { None };
            r.end(x)
        })(),
        // unknown tags, and the internal log instruction, which only the program itself may call
        _ => None,
    };
    match a {
        None => Dec::Malformed,
        Some(Some(a)) if same => Dec::Same(a),
        Some(_) => Dec::Other,
    }
}

pub fn c22(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let profs = vec![Prof { odd: 10, extreme: 20, ..Prof::default() }.set(&[(MULTI, 12), (CUP, 5), (FORCE, 3)]), Prof { odd: 10, two: 4, ..Prof::default() }.set(&[(SEATRQ, 3), (SEATCH, 4), (EVICT, 3), (FORCE, 4), (SUCCESS, 4), (FEEREC, 4), (CIDS, 8), (RED, 8)])];
    let (mut w, mut h, mut g) = start(s, st, tr, profs)?;
    let mut n = 0;
    loop {
        s.begin();
        if n > 200 || !more(s, 50) {
            break;
        }
        n += 1;
        let step = g.next(s, &w);
        let op = match &step {
            Step::Op(op) if w.st[op.m].is_some() && !matches!(op.act, Act::Init(_)) && s.chance(5, 8) => op.clone(),
            _ => {
                let r = apply(&mut w, &mut h, &step, tr);
                s.end();
                if r.map(|r| r.diffs.iter().any(|d| d.0 & SAFE != 0)).unwrap_or(false) {
                    break; // other properties report valid instructions
                }
                continue;
            }
        };
        let mut ix = build(&w.mk[op.m], &w.actors[op.who], false, &op.act);
        let orig = ix.data.clone();
        let d = &mut ix.data;
        let how = mutate(s, d);
        let dec = decode_like(d, &op.act);
        let mut op2 = Op { nosign: false, ..op.clone() };
        let (pred, kind, mask) = match dec {
            Dec::Malformed => (any_pred("malformed", Out::Err), "malformed", ALL),
            Dec::Same(a) => {
                op2.act = a;
                // a list of orders longer than the returned ids can carry is outside the model
                let big = matches!(&op2.act, Act::Multi { bids, asks, .. } if bids.len() + asks.len() > 60);
                if big {
                    (any_pred("large batch", Out::Any), "other", SAFE)
                } else {
                    (predict_on(&w, &op2).unwrap(), "well-formed", ALL)
                }
            }
            Dec::Other => (any_pred("other instruction", Out::Any), "other instruction", SAFE),
        };
        let dd = ix.data.clone();
        let fresh = dd != orig;
        let before = w.bank.clone();
        let r = step_ix(&mut w, &mut h, &op2, &ix, Some(pred));
        s.end();
        st.evals += 1;
        tr.add(|| format!("bytes {dd:?} ({how}, {kind}) with the accounts of: {} -> {}", op_text(&w, &op), if r.res.ok { "ok".into() } else { format!("refused: {}", r.res.err) }));
        if fresh {
            st.hit(&format!("{how}: {kind}, {}", if r.res.ok { "accepted" } else { "refused" }), hash(&(&dd, op.who, op.m, r.pre.as_ref().map(|m| (m.bids.len(), m.asks.len(), m.hdr.status())))), || format!("{dd:?} with the accounts of {}", op_text(&w, &op)));
        }
        if let Some(m) = facets_msg(&r, mask) {
            return Err(m);
        }
        if !r.res.ok && before.accts != w.bank.accts {
            return Err("EFFECT: a refused instruction changed accounts".into());
        }
        if r.res.ok {
            if let Some(x) = bystander_of(&w, &r, matches!(dd[0], 104 | 106 | 107)) {
                return Err(format!("BYSTANDER: {x}"));
            }
            if let (Some(a), Some(b)) = (&r.pre, &r.post) {
                let au = w.actors[op.who] == a.hdr.authority() || w.actors[op.who] == a.hdr.successor();
                let mut x = a.hdr.clone();
                x.set_seqno(b.hdr.seqno());
                if !au && x != b.hdr {
                    return Err("HEADER: the market header changed without its authority".into());
                }
            }
        }
    }
    Ok(())
}

fn mutate(s: &mut Src, d: &mut Vec<u8>) -> &'static str {
    const X: [u64; 10] = [u64::MAX, 0, 1, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u64::MAX / 10, u64::MAX / 2, 1 << 62];
    match s.draw(12) {
        0 => "unchanged",
        1 => {
            let k = s.draw(d.len() as u64 + 1) as usize;
            d.truncate(k);
            "truncated"
        }
        2 => {
            let k = 1 + s.draw(3) as usize;
            d.truncate(d.len().saturating_sub(k));
            "last bytes missing"
        }
        3 => {
            for _ in 0..1 + s.draw(4) {
                let b = s.draw(256) as u8;
                d.push(b);
            }
            "extended"
        }
        4 => {
            let i = s.draw(d.len() as u64) as usize;
            d[i] ^= 1 << s.draw(8);
            "bit flipped"
        }
        5 => {
            let i = s.draw(d.len() as u64) as usize;
            d[i] = s.draw(256) as u8;
            "byte changed"
        }
        6 | 7 => {
            if d.len() >= 9 {
                let i = 1 + s.draw((d.len() - 8) as u64) as usize;
                let v = *s.pick(&X);
                d[i..i + 8].copy_from_slice(&v.to_le_bytes());
            }
            "integer replaced"
        }
        8 => {
            let n = s.draw(40) as usize;
            d.truncate(1);
            for _ in 0..n {
                let b = s.draw(256) as u8;
                d.push(if s.chance(1, 2) { b % 3 } else { b });
            }
            "random body"
        }
        9 => {
            d[0] = if s.chance(1, 2) { s.draw(18) as u8 } else { 100 + s.draw(10) as u8 };
            "other tag"
        }
        10 => {
            d[0] = s.draw(256) as u8;
            "random tag"
        }
        _ => {
            d[0] = 15;
            "log tag"
        }
    }
}
