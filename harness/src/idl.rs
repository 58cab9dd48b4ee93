//! C31: the published interface description (idl/phoenix_v1.json) against the program.
use crate::enc::*;
use crate::engine::{hash, Stats, Trace};
use crate::gen::*;
use crate::hist::*;
use crate::keys;
use crate::obs::*;
use crate::step::*;
use crate::tape::Src;
use crate::world::*;
use phoenix::program as px;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap};

// ---- JSON
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct P<'a>(&'a [u8], usize);
impl P<'_> {
    fn ws(&mut self) {
        while self.1 < self.0.len() && self.0[self.1].is_ascii_whitespace() {
            self.1 += 1;
        }
    }
    fn peek(&mut self) -> Result<u8, String> {
        self.ws();
        self.0.get(self.1).copied().ok_or_else(|| "JSON ends early".into())
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek()? != c {
            return Err(format!("JSON: expected {:?} at byte {}", c as char, self.1));
        }
        self.1 += 1;
        Ok(())
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut v = vec![];
        loop {
            let c = *self.0.get(self.1).ok_or("JSON ends in a string")?;
            self.1 += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = *self.0.get(self.1).ok_or("JSON ends in a string")?;
                    self.1 += 1;
                    v.push(match e {
                        b'n' => b'\n',
                        b't' => b'\t',
                        b'u' => {
                            self.1 += 4;
                            b'?'
                        }
                        x => x,
                    });
                }
                c => v.push(c),
            }
        }
        String::from_utf8(v).map_err(|e| e.to_string())
    }
    fn val(&mut self) -> Result<J, String> {
        match self.peek()? {
            b'{' => {
                self.1 += 1;
                let mut v = vec![];
                if self.peek()? == b'}' {
                    self.1 += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.val()?));
                    if self.peek()? == b',' {
                        self.1 += 1;
                    } else {
                        break;
                    }
                }
                self.eat(b'}')?;
                Ok(J::Obj(v))
            }
            b'[' => {
                self.1 += 1;
                let mut v = vec![];
                if self.peek()? == b']' {
                    self.1 += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.val()?);
                    if self.peek()? == b',' {
                        self.1 += 1;
                    } else {
                        break;
                    }
                }
                self.eat(b']')?;
                Ok(J::Arr(v))
            }
            b'"' => Ok(J::Str(self.string()?)),
            _ => {
                let a = self.1;
                while self.1 < self.0.len() && !b",]} \n\r\t".contains(&self.0[self.1]) {
                    self.1 += 1;
                }
                let t = std::str::from_utf8(&self.0[a..self.1]).unwrap_or("");
                Ok(match t {
                    "true" => J::Bool(true),
                    "false" => J::Bool(false),
                    "null" => J::Null,
                    n => J::Num(n.parse().map_err(|_| format!("JSON: {n:?}"))?),
                })
            }
        }
    }
}

impl J {
    fn get(&self, k: &str) -> &J {
        const N: J = J::Null;
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(&N),
            _ => &N,
        }
    }
    fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    fn num(&self) -> i128 {
        match self {
            J::Num(n) => *n,
            _ => -1,
        }
    }
    fn truth(&self) -> bool {
        *self == J::Bool(true)
    }
}

// ---- values and types
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(u128),
    B(bool),
    K(Pubkey),
    O(Option<Box<V>>),
    L(Vec<V>),
    R(BTreeMap<String, V>),
    /// variant of an enumeration with its fields
    E(String, BTreeMap<String, V>),
}
use V::*;

fn rec(f: &[(&str, V)]) -> BTreeMap<String, V> {
    f.iter().map(|(a, b)| (camel(a), b.clone())).collect()
}
fn n(x: u64) -> V {
    N(x as u128)
}
fn o(x: Option<u64>) -> V {
    O(x.map(|x| Box::new(n(x))))
}
fn e(x: &str) -> V {
    E(x.into(), BTreeMap::new())
}
/// snake case to camel case: field names are compared without regard to the difference
fn camel(s: &str) -> String {
    let mut r = String::new();
    let mut up = false;
    for c in s.trim_start_matches('_').chars() {
        if c == '_' {
            up = true;
        } else if up {
            r.extend(c.to_uppercase());
            up = false;
        } else {
            r.push(c);
        }
    }
    r
}

pub struct Idl {
    j: J,
    types: HashMap<String, J>,
}

impl Idl {
    pub fn load() -> Result<Idl, String> {
        let p = std::env::var("PHX_IDL").unwrap_or_else(|_| "/repo/idl/phoenix_v1.json".into());
        let d = std::fs::read(&p).map_err(|e| format!("IDL: {p}: {e}"))?;
        let j = P(&d, 0).val()?;
        let types = j.get("types").arr().iter().map(|t| (t.get("name").str().to_string(), t.get("type").clone())).collect();
        Ok(Idl { j, types })
    }
    fn ins(&self, name: &str) -> Result<&J, String> {
        self.j.get("instructions").arr().iter().find(|i| i.get("name").str() == name).ok_or_else(|| format!("IDL: no instruction {name}"))
    }
    fn ty(&self, name: &str) -> Result<&J, String> {
        self.types.get(name).ok_or_else(|| format!("IDL: no type {name}"))
    }

    /// the fields of a struct or variant: (name, type); tuple fields are named by position
    fn fields(f: &J) -> Vec<(String, J)> {
        f.arr()
            .iter()
            .enumerate()
            .map(|(i, x)| match x.get("name") {
                J::Str(s) => (camel(s), x.get("type").clone()),
                _ => (i.to_string(), x.clone()),
            })
            .collect()
    }

    fn enc_fields(&self, f: &J, v: &BTreeMap<String, V>, out: &mut Vec<u8>, at: &str) -> Result<(), String> {
        let f = Self::fields(f);
        for (k, t) in &f {
            let x = v.get(k).ok_or_else(|| format!("IDL: {at} has a field {k} that the program does not know"))?;
            self.enc(t, x, out, &format!("{at}.{k}"))?;
        }
        for k in v.keys() {
            if !f.iter().any(|x| x.0 == *k) {
                return Err(format!("IDL: {at} lacks the field {k}"));
            }
        }
        Ok(())
    }

    fn enc(&self, t: &J, v: &V, out: &mut Vec<u8>, at: &str) -> Result<(), String> {
        let bad = || Err(format!("IDL: {at}: {v:?} is no {t:?}"));
        let fit = |x: u128, b: u32, out: &mut Vec<u8>| {
            if b < 128 && x >> b != 0 {
                return Err(format!("IDL: {at}: {x} does not fit {b} bits"));
            }
            out.extend(&x.to_le_bytes()[..b as usize / 8]);
            Ok(())
        };
        match t {
            J::Str(s) => match (s.as_str(), v) {
                ("u8", N(x)) => fit(*x, 8, out),
                ("u16", N(x)) => fit(*x, 16, out),
                ("u32", N(x)) => fit(*x, 32, out),
                ("u64", N(x)) | ("i64", N(x)) => fit(*x, 64, out),
                ("u128", N(x)) => fit(*x, 128, out),
                ("bool", B(b)) => {
                    out.push(*b as u8);
                    Ok(())
                }
                ("publicKey", K(k)) => {
                    out.extend(k.as_ref());
                    Ok(())
                }
                _ => bad(),
            },
            J::Obj(_) => {
                if let J::Str(d) = t.get("defined") {
                    let d0 = self.ty(d)?;
                    return match (d0.get("kind").str(), v) {
                        ("struct", R(f)) => self.enc_fields(d0.get("fields"), f, out, d),
                        ("enum", E(name, f)) => {
                            let vs = d0.get("variants").arr();
                            let i = vs.iter().position(|x| x.get("name").str() == name).ok_or_else(|| format!("IDL: {d} has no variant {name}"))?;
                            out.push(i as u8);
                            self.enc_fields(vs[i].get("fields"), f, out, &format!("{d}::{name}"))
                        }
                        _ => bad(),
                    };
                }
                match (t.get("option"), t.get("vec"), t.get("array"), v) {
                    (J::Null, J::Null, J::Arr(a), L(l)) if a.len() == 2 && a[1].num() == l.len() as i128 => l.iter().try_for_each(|x| self.enc(&a[0], x, out, at)),
                    (J::Null, y, J::Null, L(l)) if *y != J::Null => {
                        out.extend((l.len() as u32).to_le_bytes());
                        l.iter().try_for_each(|x| self.enc(y, x, out, at))
                    }
                    (y, J::Null, J::Null, O(x)) if *y != J::Null => match x {
                        None => {
                            out.push(0);
                            Ok(())
                        }
                        Some(x) => {
                            out.push(1);
                            self.enc(y, x, out, at)
                        }
                    },
                    _ => bad(),
                }
            }
            _ => bad(),
        }
    }

    fn dec_fields(&self, f: &J, p: &mut &[u8], at: &str) -> Result<BTreeMap<String, V>, String> {
        let mut r = BTreeMap::new();
        for (k, t) in Self::fields(f) {
            let x = self.dec(&t, p, &format!("{at}.{k}"))?;
            r.insert(k, x);
        }
        Ok(r)
    }

    fn dec(&self, t: &J, p: &mut &[u8], at: &str) -> Result<V, String> {
        let mut take = |k: usize| -> Result<&[u8], String> {
            if p.len() < k {
                return Err(format!("IDL: data ends within {at}"));
            }
            let (a, b) = p.split_at(k);
            *p = b;
            Ok(a)
        };
        let int = |b: &[u8]| {
            let mut x = [0u8; 16];
            x[..b.len()].copy_from_slice(b);
            N(u128::from_le_bytes(x))
        };
        match t {
            J::Str(s) => Ok(match s.as_str() {
                "u8" => int(take(1)?),
                "u16" => int(take(2)?),
                "u32" => int(take(4)?),
                "u64" | "i64" => int(take(8)?),
                "u128" => int(take(16)?),
                "bool" => match take(1)?[0] {
                    0 => B(false),
                    1 => B(true),
                    x => return Err(format!("IDL: {at}: {x} is no bool")),
                },
                "publicKey" => K(Pubkey::new(take(32)?)),
                x => return Err(format!("IDL: {at}: unknown type {x}")),
            }),
            J::Obj(_) => {
                if let J::Str(d) = t.get("defined") {
                    let d0 = self.ty(d)?;
                    if d0.get("kind").str() == "struct" {
                        return Ok(R(self.dec_fields(d0.get("fields"), p, d)?));
                    }
                    let i = take(1)?[0] as usize;
                    let v = d0.get("variants").arr().get(i).ok_or_else(|| format!("IDL: {d} has no variant {i}"))?;
                    let name = v.get("name").str().to_string();
                    let f = self.dec_fields(v.get("fields"), p, &name)?;
                    return Ok(E(name, f));
                }
                if *t.get("option") != J::Null {
                    return Ok(match take(1)?[0] {
                        0 => O(None),
                        1 => O(Some(Box::new(self.dec(t.get("option"), p, at)?))),
                        x => return Err(format!("IDL: {at}: {x} is no option")),
                    });
                }
                let (y, k) = if *t.get("vec") != J::Null {
                    let k = u32::from_le_bytes(take(4)?.try_into().unwrap()) as usize;
                    (t.get("vec"), k)
                } else {
                    let a = t.get("array").arr();
                    if a.len() != 2 {
                        return Err(format!("IDL: {at}: unknown type {t:?}"));
                    }
                    (&a[0], a[1].num() as usize)
                };
                let mut v = vec![];
                for _ in 0..k {
                    v.push(self.dec(y, p, at)?);
                }
                Ok(L(v))
            }
            _ => Err(format!("IDL: {at}: unknown type {t:?}")),
        }
    }

    fn dec_named(&self, name: &str, p: &mut &[u8]) -> Result<V, String> {
        self.dec(&J::Obj(vec![("defined".into(), J::Str(name.into()))]), p, name)
    }
}

// ---- what is asked, as values
fn side(s: &Side) -> V {
    e(if *s == Side::Bid { "Bid" } else { "Ask" })
}
fn stb(s: &Stb) -> V {
    e(match s {
        Stb::Abort => "Abort",
        Stb::CancelProvide => "CancelProvide",
        Stb::DecrementTake => "DecrementTake",
    })
}
fn packet(p: &Pkt) -> V {
    match p {
        Pkt::PostOnly { side: sd, price, base, client, reject, free_only, slot, ts, silent } => E(
            "PostOnly".into(),
            rec(&[
                ("side", side(sd)),
                ("price_in_ticks", n(*price)),
                ("num_base_lots", n(*base)),
                ("client_order_id", N(*client)),
                ("reject_post_only", B(*reject)),
                ("use_only_deposited_funds", B(*free_only)),
                ("last_valid_slot", o(*slot)),
                ("last_valid_unix_timestamp_in_seconds", o(*ts)),
                ("fail_silently_on_insufficient_funds", B(*silent)),
            ]),
        ),
        Pkt::Limit { side: sd, price, base, stb: b, ml, client, free_only, slot, ts, silent } => E(
            "Limit".into(),
            rec(&[
                ("side", side(sd)),
                ("price_in_ticks", n(*price)),
                ("num_base_lots", n(*base)),
                ("self_trade_behavior", stb(b)),
                ("match_limit", o(*ml)),
                ("client_order_id", N(*client)),
                ("use_only_deposited_funds", B(*free_only)),
                ("last_valid_slot", o(*slot)),
                ("last_valid_unix_timestamp_in_seconds", o(*ts)),
                ("fail_silently_on_insufficient_funds", B(*silent)),
            ]),
        ),
        Pkt::Ioc { side: sd, price, base, quote, min_base, min_quote, stb: b, ml, client, free_only, slot, ts } => E(
            "ImmediateOrCancel".into(),
            rec(&[
                ("side", side(sd)),
                ("price_in_ticks", o(*price)),
                ("num_base_lots", n(*base)),
                ("num_quote_lots", n(*quote)),
                ("min_base_lots_to_fill", n(*min_base)),
                ("min_quote_lots_to_fill", n(*min_quote)),
                ("self_trade_behavior", stb(b)),
                ("match_limit", o(*ml)),
                ("client_order_id", N(*client)),
                ("use_only_deposited_funds", B(*free_only)),
                ("last_valid_slot", o(*slot)),
                ("last_valid_unix_timestamp_in_seconds", o(*ts)),
            ]),
        ),
    }
}
fn cancel(sd: &Side, price: u64, seq: u64) -> V {
    R(rec(&[("side", side(sd)), ("price_in_ticks", n(price)), ("order_sequence_number", n(seq))]))
}
fn status_name(x: u8) -> Option<&'static str> {
    ["Uninitialized", "Active", "PostOnly", "Paused", "Closed", "Tombstoned"].get(x as usize).copied()
}
fn seat_name(x: u8) -> Option<&'static str> {
    ["NotApproved", "Approved", "Retired"].get(x as usize).copied()
}

/// the instruction's name and its argument, if it has one
fn asked(a: &Act) -> Option<(String, Option<V>)> {
    let ff = |s: &str, ff: bool| format!("{s}{}", if ff { "WithFreeFunds" } else { "" });
    let up = |sd: &Side, tick: &Option<u64>, search: &Option<u32>, cn: &Option<u32>| {
        R(rec(&[("side", side(sd)), ("tick_limit", o(*tick)), ("num_orders_to_search", o(search.map(|x| x as u64))), ("num_orders_to_cancel", o(cn.map(|x| x as u64)))]))
    };
    Some(match a {
        Act::Swap { p, ff: f } => (ff("Swap", *f), Some(packet(p))),
        Act::Place { p, ff: f } => (ff("PlaceLimitOrder", *f), Some(packet(p))),
        Act::Multi { bids, asks, client, beh, ff: f } => {
            let l = |v: &Vec<Cond>| L(v.iter().map(|c| R(rec(&[("price_in_ticks", n(c.price)), ("size_in_base_lots", n(c.size)), ("last_valid_slot", o(c.slot)), ("last_valid_unix_timestamp_in_seconds", o(c.ts))]))).collect());
            let b = ["FailOnInsufficientFundsAndAmendOnCross", "FailOnInsufficientFundsAndFailOnCross", "SkipOnInsufficientFundsAndAmendOnCross", "SkipOnInsufficientFundsAndFailOnCross"].get(*beh as usize)?;
            (
                ff("PlaceMultiplePostOnlyOrders", *f),
                Some(R(rec(&[("bids", l(bids)), ("asks", l(asks)), ("client_order_id", O(client.map(|c| Box::new(N(c))))), ("failed_multiple_limit_order_behavior", e(b))]))),
            )
        }
        Act::Reduce { side: sd, price, seq, size, ff: f } => (ff("ReduceOrder", *f), Some(R(rec(&[("base_params", cancel(sd, *price, *seq)), ("size", n(*size))])))),
        Act::CancelAll { ff: f } => (ff("CancelAllOrders", *f), None),
        Act::CancelUpTo { side: sd, tick, search, cancel, ff: f } => (ff("CancelUpTo", *f), Some(up(sd, tick, search, cancel))),
        Act::ForceCancel { side: sd, tick, search, cancel, .. } => ("ForceCancelOrders".into(), Some(up(sd, tick, search, cancel))),
        Act::CancelIds { ids, ff: f } => (ff("CancelMultipleOrdersById", *f), Some(R(rec(&[("orders", L(ids.iter().map(|(a, b, c)| cancel(a, *b, *c)).collect()))])))),
        Act::Withdraw { quote, base } => ("WithdrawFunds".into(), Some(R(rec(&[("quote_lots_to_withdraw", o(*quote)), ("base_lots_to_withdraw", o(*base))])))),
        Act::Deposit { quote, base } => ("DepositFunds".into(), Some(R(rec(&[("quote_lots_to_deposit", n(*quote)), ("base_lots_to_deposit", n(*base))])))),
        Act::RequestSeat => ("RequestSeat".into(), None),
        Act::RequestSeatAuth { .. } => ("RequestSeatAuthorized".into(), None),
        Act::ChangeSeat { status, .. } => ("ChangeSeatStatus".into(), Some(e(seat_name(*status)?))),
        Act::Evict { .. } => ("EvictSeat".into(), None),
        Act::NameSuccessor { to } => ("NameSuccessor".into(), Some(K(*to))),
        Act::Claim => ("ClaimAuthority".into(), None),
        Act::ChangeStatus { status, .. } => ("ChangeMarketStatus".into(), Some(e(status_name(*status)?))),
        Act::CollectFees { .. } => ("CollectFees".into(), None),
        Act::ChangeFeeRecipient { .. } => ("ChangeFeeRecipient".into(), None),
        Act::Init(i) => (
            "InitializeMarket".into(),
            Some(R(rec(&[
                ("market_size_params", R(rec(&[("bids_size", n(i.size.0)), ("asks_size", n(i.size.1)), ("num_seats", n(i.size.2))]))),
                ("num_quote_lots_per_quote_unit", n(i.quote_lots_per_quote_unit)),
                ("tick_size_in_quote_lots_per_base_unit", n(i.tick)),
                ("num_base_lots_per_base_unit", n(i.base_lots_per_base_unit)),
                ("taker_fee_bps", n(i.fee_bps as u64)),
                ("fee_collector", K(i.fee_collector)),
                ("raw_base_units_per_base_unit", O(i.raw.map(|x| Box::new(n(x as u64))))),
            ]))),
        ),
    })
}

fn roles(name: &str, ins: &str) -> &'static [Role] {
    use Role::*;
    match name {
        "phoenixProgram" => &[Program],
        "logAuthority" => &[LogAuth],
        "market" => &[Market],
        "trader" if ins == "EvictSeat" || ins == "ForceCancelOrders" || ins == "RequestSeatAuthorized" => &[Trader],
        "trader" | "marketAuthority" | "successor" | "sweeper" | "marketCreator" => &[Signer],
        "payer" => &[Payer, Signer],
        "seat" => &[Seat],
        "baseAccount" => &[BaseAcct],
        "quoteAccount" => &[QuoteAcct],
        "baseVault" => &[BaseVault],
        "quoteVault" => &[QuoteVault],
        "tokenProgram" => &[TokenProgram],
        "systemProgram" => &[System],
        "baseMint" => &[BaseMint],
        "quoteMint" => &[QuoteMint],
        "feeRecipient" => &[FeeAcct],
        "newFeeRecipient" => &[NewRecipient],
        _ => &[],
    }
}

/// the instruction as a client generated from the description would send it
fn by_idl(d: &Idl, k: &MktKeys, who: &Pubkey, op: &Op) -> Result<Option<(String, Instruction)>, String> {
    let Some((name, arg)) = asked(&op.act) else { return Ok(None) };
    let ins = d.ins(&name)?;
    let own = metas(k, who, op.nosign, &op.act);
    let mut accounts = vec![];
    for a in ins.get("accounts").arr() {
        let an = a.get("name").str();
        let want = roles(an, &name);
        let key = want.iter().find_map(|r| own.iter().find(|x| x.1 == *r)).ok_or_else(|| format!("IDL: {name} lists an account {an} that the program does not take"))?;
        let signs = a.get("isSigner").truth() && !(op.nosign && key.1 == Role::Signer);
        accounts.push(AccountMeta { pubkey: key.0.pubkey, is_signer: signs, is_writable: a.get("isMut").truth() });
    }
    // accounts that the program takes optionally, behind the described ones
    for x in own.iter().filter(|x| x.1 == Role::Receiver || x.1 == Role::PrevRecipient) {
        accounts.push(x.0.clone());
    }
    // whoever receives the rent of a deleted market must be writable; without a receiver that is the authority,
    // which pays for the transaction then
    if matches!(op.act, Act::ChangeStatus { status: 5, receiver: None }) {
        accounts[3].is_writable = true;
    }
    let mut data = vec![ins.get("discriminant").get("value").num() as u8];
    let args = ins.get("args").arr();
    match (&arg, args) {
        (None, []) => {}
        (Some(v), [a]) => d.enc(a.get("type"), v, &mut data, &name)?,
        _ => return Err(format!("IDL: {name} has {} arguments", args.len())),
    }
    let program_id: Pubkey = d.j.get("metadata").get("address").str().parse().map_err(|_| "IDL: program address")?;
    Ok(Some((name, Instruction { program_id, accounts, data })))
}

fn event(i: u16, ev: &Ev) -> V {
    let (name, mut f) = match ev {
        Ev::Fill { maker, seq, price, filled, remaining } => {
            ("Fill", vec![("maker_id", K(*maker)), ("order_sequence_number", n(*seq)), ("price_in_ticks", n(*price)), ("base_lots_filled", n(*filled)), ("base_lots_remaining", n(*remaining))])
        }
        Ev::Place { seq, client, price, placed } => ("Place", vec![("order_sequence_number", n(*seq)), ("client_order_id", N(*client)), ("price_in_ticks", n(*price)), ("base_lots_placed", n(*placed))]),
        Ev::Reduce { seq, price, removed, remaining } => ("Reduce", vec![("order_sequence_number", n(*seq)), ("price_in_ticks", n(*price)), ("base_lots_removed", n(*removed)), ("base_lots_remaining", n(*remaining))]),
        Ev::Evict { maker, seq, price, evicted } => ("Evict", vec![("maker_id", K(*maker)), ("order_sequence_number", n(*seq)), ("price_in_ticks", n(*price)), ("base_lots_evicted", n(*evicted))]),
        Ev::Summary { client, base, quote, fee } => ("FillSummary", vec![("client_order_id", N(*client)), ("total_base_lots_filled", n(*base)), ("total_quote_lots_filled", n(*quote)), ("total_fee_in_quote_lots", n(*fee))]),
        Ev::Fee { fees } => ("Fee", vec![("fees_collected_in_quote_lots", n(*fees))]),
        Ev::Tif { seq, slot, ts } => ("TimeInForce", vec![("order_sequence_number", n(*seq)), ("last_valid_slot", n(*slot)), ("last_valid_unix_timestamp_in_seconds", n(*ts))]),
        Ev::Expired { maker, seq, price, removed } => ("ExpiredOrder", vec![("maker_id", K(*maker)), ("order_sequence_number", n(*seq)), ("price_in_ticks", n(*price)), ("base_lots_removed", n(*removed))]),
    };
    f.push(("index", n(i as u64)));
    E(name.into(), [("0".to_string(), R(rec(&f)))].into())
}

fn read_log(d: &Idl, data: &[u8]) -> Result<usize, String> {
    let own = decode_batch(data)?;
    if data[0] as i128 != d.ins("Log")?.get("discriminant").get("value").num() {
        return Err("IDL: the log instruction has another discriminant".into());
    }
    let h = &own.hdr;
    let head = E(
        "Header".into(),
        [(
            "0".to_string(),
            R(rec(&[
                ("instruction", n(h.ins as u64)),
                ("sequence_number", n(h.seq)),
                ("timestamp", n(h.ts as u64)),
                ("slot", n(h.slot)),
                ("market", K(h.market)),
                ("signer", K(h.signer)),
                ("total_events", n(h.total as u64)),
            ])),
        )]
        .into(),
    );
    let mut p = &data[1..];
    let got = d.dec_named("PhoenixMarketEvent", &mut p)?;
    if got != head {
        return Err(format!("IDL: a log header reads as {got:?}, it is {head:?}"));
    }
    for (i, ev) in &own.evs {
        let got = d.dec_named("PhoenixMarketEvent", &mut p)?;
        let want = event(*i, ev);
        if got != want {
            return Err(format!("IDL: an event reads as {got:?}, it is {want:?}"));
        }
    }
    if !p.is_empty() {
        return Err(format!("IDL: {} bytes of a log batch are left over", p.len()));
    }
    Ok(own.evs.len())
}

fn read_accounts(d: &Idl, w: &World, m: usize) -> Result<(), String> {
    let Some(mk) = &w.st[m] else { return Ok(()) };
    let k = &w.mk[m];
    let h = &mk.hdr;
    let a = w.bank.get(&k.key).ok_or("no market account")?;
    let mut p = &a.data[..];
    let V::R(got) = d.dec_named("MarketHeader", &mut p)? else { return Err("IDL: MarketHeader is no struct".into()) };
    let used = a.data.len() - p.len();
    if used != 576 {
        return Err(format!("IDL: the market header is described with {used} bytes"));
    }
    let sz = h.size();
    let tok = |f: &V| match f {
        V::R(r) => (r.get("mintKey").cloned(), r.get("vaultKey").cloned(), r.get("decimals").cloned()),
        _ => (None, None, None),
    };
    let zero = V::N(0);
    let (b, q) = (tok(got.get("baseParams").unwrap_or(&zero)), tok(got.get("quoteParams").unwrap_or(&zero)));
    let dec = |mint: &Pubkey| w.bank.get(mint).map(|a| N(a.data[44] as u128));
    let want = [
        ("status", n(h.status())),
        ("marketSizeParams", R(rec(&[("bids_size", n(sz.0)), ("asks_size", n(sz.1)), ("num_seats", n(sz.2))]))),
        ("baseLotSize", n(h.base_lot())),
        ("quoteLotSize", n(h.quote_lot())),
        ("authority", K(h.authority())),
        ("feeRecipient", K(h.fee_recipient())),
        ("marketSequenceNumber", n(h.seqno())),
        ("successor", K(h.successor())),
        ("rawBaseUnitsPerBaseUnit", n(w.cfg.raw.unwrap_or(1) as u64)),
    ];
    for (f, v) in want {
        if got.get(f) != Some(&v) {
            return Err(format!("IDL: header field {f} reads as {:?}, it is {v:?}", got.get(f)));
        }
    }
    let wantb = (Some(K(k.base_mint)), Some(K(k.base_vault)), dec(&k.base_mint));
    let wantq = (Some(K(k.quote_mint)), Some(K(k.quote_vault)), dec(&k.quote_mint));
    if b != wantb || q != wantq {
        return Err(format!("IDL: token parameters read as {b:?} and {q:?}, they are {wantb:?} and {wantq:?}"));
    }
    for t in &w.actors {
        let Some(x) = read_seat(&w.bank, &k.key, t) else { continue };
        let a = w.bank.get(&keys::seat(&k.key, t).0).unwrap();
        let mut p = &a.data[..];
        let V::R(got) = d.dec_named("Seat", &mut p)? else { return Err("IDL: Seat is no struct".into()) };
        if !p.is_empty() || got.get("market") != Some(&K(x.market)) || got.get("trader") != Some(&K(x.trader)) || got.get("approvalStatus") != Some(&n(x.status)) {
            return Err(format!("IDL: a seat reads as {got:?} with {} bytes left, it is {x:?}", p.len()));
        }
        if !matches!(x.status, 0..=2) || d.ty("SeatApprovalStatus")?.get("variants").arr().get(x.status as usize).map(|v| v.get("name").str()) != seat_name(x.status as u8) {
            return Err(format!("IDL: seat status {} is not described", x.status));
        }
    }
    Ok(())
}

fn errors(d: &Idl) -> Result<(), String> {
    use px::PhoenixError as X;
    macro_rules! all {
        ($($n:ident)*) => { vec![$((stringify!($n), X::$n)),*] };
    }
    let own = all!(InvalidMarketParameters InvalidMarketAuthority FailedToLoadMarketFromAccount MarketAlreadyInitialized MarketUninitialized InvalidStateTransition
        InvalidMarketSigner InvalidLotSize InvalidTickSize InvalidMint InvalidBaseVault InvalidQuoteVault InvalidBaseAccount InvalidQuoteAccount TooManyEvents
        NewOrderError ReduceOrderError CancelMultipleOrdersError WithdrawFundsError RemoveEmptyOrdersError TraderNotFound InvalidSeatStatus EvictionError
        NonEmptyScratchBuffer FailedToSerializeEvent FailedToFlushBuffer);
    for (name, x) in own {
        let solana_program::program_error::ProgramError::Custom(c) = x.into() else { return Err(format!("IDL: {name} is no custom error")) };
        let l: Vec<&J> = d.j.get("errors").arr().iter().filter(|e| e.get("code").num() == c as i128).collect();
        if l.len() != 1 || l[0].get("name").str() != name {
            return Err(format!("IDL: the program's error {name} has code {c}, which is described as {:?}", l.iter().map(|x| x.get("name").str()).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

pub const R31: &str = "histories in which each instruction is built from the published description (idl/phoenix_v1.json: discriminant, accounts with flags, argument types encoded in borsh), executed and judged against the reference exchange; every log batch, market header and seat is read by the description and compared with the harness' own decoder; error codes. Non-trivial: an instruction that succeeds, or a log batch with events.";

thread_local! {
    static IDL: Result<Idl, String> = Idl::load();
}

pub fn c31(s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    IDL.with(|d| match d {
        Err(x) => Err(x.clone()),
        Ok(d) => go(d, s, st, tr),
    })
}

fn go(d: &Idl, s: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    let profs = vec![
        Prof { two: 3, odd: 5, tif: 3, ..Prof::default() }.set(&[(OUST, 3), (FORCE, 5), (EVICT, 4), (SEATCH, 5), (SEATRQ, 4), (COLLECT, 6), (FEEREC, 5), (SUCCESS, 5), (STATUS, 3), (CUP, 5), (CIDS, 6), (RED, 6)]),
        Prof { two: 1, tif: 2, own: 2, ..Prof::default() }.set(&[(OUST, 3), (FORCE, 5), (DRAIN, 1)]),
        Prof { tif: 3, own: 2, extreme: 2, fill: 3, ..Prof::default() },
    ];
    errors(d)?;
    let (mut w, mut h, mut g) = start(s, st, tr, profs)?;
    // creation, in every parameter
    let mut p = w.cfg.init(w.actors[FEE]);
    p.size = SIZES[s.draw(12) as usize];
    if s.chance(1, 2) {
        p.fee_bps = s.draw(65536) as u16;
        p.raw = if s.chance(1, 2) { None } else { Some(s.draw(1 << 32) as u32) };
    }
    let op = Op { m: 0, who: AUTH, nosign: false, act: Act::Init(p) };
    let me = w.actors[AUTH];
    let own = build(&w.mk[0], &me, false, &op.act);
    let Some((_, ix)) = by_idl(d, &w.mk[0], &me, &op)? else { return Ok(()) };
    if ix != own {
        return Err(format!("IDL: InitializeMarket differs: {ix:?} instead of {own:?}"));
    }
    let mut i = 0;
    loop {
        s.begin();
        if i > 300 || !more(s, 50) {
            break;
        }
        i += 1;
        let step = g.next(s, &w);
        let rec = match &step {
            Step::Op(op) if w.st[op.m].is_some() && !matches!(op.act, Act::Init(_)) => {
                let who = w.actors[op.who];
                match by_idl(d, &w.mk[op.m], &who, op)? {
                    None => apply(&mut w, &mut h, &step, tr),
                    Some((name, ix)) => {
                        let pred = predict_on(&w, op);
                        let r = step_ix(&mut w, &mut h, op, &ix, pred);
                        tr.add(|| format!("{name} by the description: {}", rec_text(&w, &r)));
                        st.evals += 1;
                        if let Some(x) = facets_msg(&r, OUTCOME | BOOK | MINE | FEES | HDRF | TOK | SEAT | STRUCT) {
                            return Err(format!("IDL: {name} as described: {x}"));
                        }
                        if r.res.ok {
                            for l in &r.res.logs {
                                let k = read_log(d, l).map_err(|x| format!("{x} (log of {name})"))?;
                                if l.len() > 2 && l[2] as i128 != d.ins(&name)?.get("discriminant").get("value").num() {
                                    return Err(format!("IDL: the log of {name} names instruction {}", l[2]));
                                }
                                st.count(&format!("log batches with {} events", if k == 0 { "no" } else if k < 5 { "1-4" } else { "5 or more" }));
                            }
                            read_accounts(d, &w, op.m)?;
                            st.hit(&name, hash(&(op.act.clone(), r.res.logs.len())), || rec_text(&w, &r));
                        }
                        Some(r)
                    }
                }
            }
            _ => apply(&mut w, &mut h, &step, tr),
        };
        s.end();
        if rec.map(|r| r.diffs.iter().any(|d| d.0 == STRUCT)).unwrap_or(false) {
            break;
        }
    }
    Ok(())
}
