//! The harness's own description and encoding of every instruction (independent of the
//! repository's instruction builders and borsh derives).
use crate::keys;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Side {
    Bid,
    Ask,
}
impl Side {
    pub fn opp(self) -> Side {
        match self {
            Side::Bid => Side::Ask,
            Side::Ask => Side::Bid,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Stb {
    Abort,
    CancelProvide,
    DecrementTake,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Pkt {
    PostOnly { side: Side, price: u64, base: u64, client: u128, reject: bool, free_only: bool, slot: Option<u64>, ts: Option<u64>, silent: bool },
    Limit { side: Side, price: u64, base: u64, stb: Stb, ml: Option<u64>, client: u128, free_only: bool, slot: Option<u64>, ts: Option<u64>, silent: bool },
    Ioc { side: Side, price: Option<u64>, base: u64, quote: u64, min_base: u64, min_quote: u64, stb: Stb, ml: Option<u64>, client: u128, free_only: bool, slot: Option<u64>, ts: Option<u64> },
}

impl Pkt {
    pub fn side(&self) -> Side {
        match self {
            Pkt::PostOnly { side, .. } | Pkt::Limit { side, .. } | Pkt::Ioc { side, .. } => *side,
        }
    }
    pub fn take_only(&self) -> bool {
        matches!(self, Pkt::Ioc { .. })
    }
    pub fn free_only(&self) -> bool {
        match self {
            Pkt::PostOnly { free_only, .. } | Pkt::Limit { free_only, .. } | Pkt::Ioc { free_only, .. } => *free_only,
        }
    }
    pub fn set_free_only(&mut self, v: bool) {
        match self {
            Pkt::PostOnly { free_only, .. } | Pkt::Limit { free_only, .. } | Pkt::Ioc { free_only, .. } => *free_only = v,
        }
    }
    pub fn silent(&self) -> bool {
        match self {
            Pkt::PostOnly { silent, .. } | Pkt::Limit { silent, .. } => *silent,
            _ => false,
        }
    }
    pub fn tif(&self) -> (Option<u64>, Option<u64>) {
        match self {
            Pkt::PostOnly { slot, ts, .. } | Pkt::Limit { slot, ts, .. } | Pkt::Ioc { slot, ts, .. } => (*slot, *ts),
        }
    }
    pub fn client(&self) -> u128 {
        match self {
            Pkt::PostOnly { client, .. } | Pkt::Limit { client, .. } | Pkt::Ioc { client, .. } => *client,
        }
    }
    pub fn base(&self) -> u64 {
        match self {
            Pkt::PostOnly { base, .. } | Pkt::Limit { base, .. } | Pkt::Ioc { base, .. } => *base,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Cond {
    pub price: u64,
    pub size: u64,
    pub slot: Option<u64>,
    pub ts: Option<u64>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct InitP {
    pub size: (u64, u64, u64),
    pub quote_lots_per_quote_unit: u64,
    pub tick: u64,
    pub base_lots_per_base_unit: u64,
    pub fee_bps: u16,
    pub fee_collector: Pubkey,
    pub raw: Option<u32>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    Place { p: Pkt, ff: bool },
    Swap { p: Pkt, ff: bool },
    Multi { bids: Vec<Cond>, asks: Vec<Cond>, client: Option<u128>, beh: u8, ff: bool },
    Reduce { side: Side, price: u64, seq: u64, size: u64, ff: bool },
    CancelAll { ff: bool },
    CancelUpTo { side: Side, tick: Option<u64>, search: Option<u32>, cancel: Option<u32>, ff: bool },
    CancelIds { ids: Vec<(Side, u64, u64)>, ff: bool },
    Withdraw { quote: Option<u64>, base: Option<u64> },
    Deposit { quote: u64, base: u64 },
    RequestSeat,
    RequestSeatAuth { trader: Pubkey, payer: Pubkey },
    ChangeSeat { trader: Pubkey, status: u8 },
    Evict { trader: Pubkey },
    ForceCancel { trader: Pubkey, side: Side, tick: Option<u64>, search: Option<u32>, cancel: Option<u32> },
    NameSuccessor { to: Pubkey },
    Claim,
    ChangeStatus { status: u8, receiver: Option<Pubkey> },
    CollectFees { to: Pubkey },
    ChangeFeeRecipient { new: Pubkey, prev: Option<Pubkey> },
    Init(InitP),
}

impl Act {
    pub fn tag(&self) -> u8 {
        match self {
            Act::Swap { ff, .. } => *ff as u8,
            Act::Place { ff, .. } => 2 + *ff as u8,
            Act::Reduce { ff, .. } => 4 + *ff as u8,
            Act::CancelAll { ff } => 6 + *ff as u8,
            Act::CancelUpTo { ff, .. } => 8 + *ff as u8,
            Act::CancelIds { ff, .. } => 10 + *ff as u8,
            Act::Withdraw { .. } => 12,
            Act::Deposit { .. } => 13,
            Act::RequestSeat => 14,
            Act::Multi { ff, .. } => 16 + *ff as u8,
            Act::Init(_) => 100,
            Act::Claim => 101,
            Act::NameSuccessor { .. } => 102,
            Act::ChangeStatus { .. } => 103,
            Act::ChangeSeat { .. } => 104,
            Act::RequestSeatAuth { .. } => 105,
            Act::Evict { .. } => 106,
            Act::ForceCancel { .. } => 107,
            Act::CollectFees { .. } => 108,
            Act::ChangeFeeRecipient { .. } => 109,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Act::Swap { ff: false, .. } => "Swap",
            Act::Swap { .. } => "SwapFF",
            Act::Place { ff: false, p: Pkt::PostOnly { .. } } => "PlacePO",
            Act::Place { ff: true, p: Pkt::PostOnly { .. } } => "PlacePOFF",
            Act::Place { ff: false, .. } => "PlaceLimit",
            Act::Place { .. } => "PlaceLimitFF",
            Act::Reduce { ff: false, .. } => "Reduce",
            Act::Reduce { .. } => "ReduceFF",
            Act::CancelAll { ff: false } => "CancelAll",
            Act::CancelAll { .. } => "CancelAllFF",
            Act::CancelUpTo { ff: false, .. } => "CancelUpTo",
            Act::CancelUpTo { .. } => "CancelUpToFF",
            Act::CancelIds { ff: false, .. } => "CancelIds",
            Act::CancelIds { .. } => "CancelIdsFF",
            Act::Withdraw { .. } => "Withdraw",
            Act::Deposit { .. } => "Deposit",
            Act::RequestSeat => "RequestSeat",
            Act::Multi { ff: false, .. } => "Multi",
            Act::Multi { .. } => "MultiFF",
            Act::Init(_) => "Init",
            Act::Claim => "Claim",
            Act::NameSuccessor { .. } => "NameSuccessor",
            Act::ChangeStatus { .. } => "ChangeStatus",
            Act::ChangeSeat { .. } => "ChangeSeat",
            Act::RequestSeatAuth { .. } => "RequestSeatAuth",
            Act::Evict { .. } => "Evict",
            Act::ForceCancel { .. } => "ForceCancel",
            Act::CollectFees { .. } => "CollectFees",
            Act::ChangeFeeRecipient { .. } => "ChangeFeeRecipient",
        }
    }
    pub fn is_taker(&self) -> bool {
        matches!(self, Act::Swap { .. } | Act::Place { .. })
    }
    pub fn places(&self) -> bool {
        matches!(self, Act::Place { .. } | Act::Multi { .. })
    }
    pub fn is_cancel(&self) -> bool {
        matches!(self, Act::Reduce { .. } | Act::CancelAll { .. } | Act::CancelUpTo { .. } | Act::CancelIds { .. })
    }
    pub fn is_admin(&self) -> bool {
        self.tag() >= 101
    }
}

pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    pub fn b(&mut self, v: bool) -> &mut Self {
        self.u8(v as u8)
    }
    pub fn u16(&mut self, v: u16) -> &mut Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u128(&mut self, v: u128) -> &mut Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn key(&mut self, v: &Pubkey) -> &mut Self {
        self.0.extend_from_slice(v.as_ref());
        self
    }
    pub fn o64(&mut self, v: Option<u64>) -> &mut Self {
        match v {
            None => self.u8(0),
            Some(x) => self.u8(1).u64(x),
        }
    }
    pub fn o32(&mut self, v: Option<u32>) -> &mut Self {
        match v {
            None => self.u8(0),
            Some(x) => self.u8(1).u32(x),
        }
    }
    pub fn side(&mut self, s: Side) -> &mut Self {
        self.u8(s as u8)
    }
}

pub fn enc_pkt(p: &Pkt) -> Vec<u8> {
    let mut w = W(vec![]);
    match p {
        Pkt::PostOnly { side, price, base, client, reject, free_only, slot, ts, silent } => {
            w.u8(0).side(*side).u64(*price).u64(*base).u128(*client).b(*reject).b(*free_only).o64(*slot).o64(*ts).b(*silent);
        }
        Pkt::Limit { side, price, base, stb, ml, client, free_only, slot, ts, silent } => {
            w.u8(1).side(*side).u64(*price).u64(*base).u8(*stb as u8).o64(*ml).u128(*client).b(*free_only).o64(*slot).o64(*ts).b(*silent);
        }
        Pkt::Ioc { side, price, base, quote, min_base, min_quote, stb, ml, client, free_only, slot, ts } => {
            w.u8(2).side(*side).o64(*price).u64(*base).u64(*quote).u64(*min_base).u64(*min_quote).u8(*stb as u8).o64(*ml).u128(*client).b(*free_only).o64(*slot).o64(*ts);
        }
    }
    w.0
}

/// Strict decoder of exactly one complete packet encoding.
pub fn dec_pkt(d: &[u8]) -> Option<Pkt> {
    struct R<'a>(&'a [u8]);
    impl<'a> R<'a> {
        fn n(&mut self, k: usize) -> Option<&'a [u8]> {
            if self.0.len() < k {
                return None;
            }
            let (a, b) = self.0.split_at(k);
            self.0 = b;
            Some(a)
        }
        fn u8(&mut self) -> Option<u8> {
            Some(self.n(1)?[0])
        }
        fn b(&mut self) -> Option<bool> {
            match self.u8()? {
                0 => Some(false),
                1 => Some(true),
                _ => None,
            }
        }
        fn u64(&mut self) -> Option<u64> {
            Some(u64::from_le_bytes(self.n(8)?.try_into().unwrap()))
        }
        fn u128(&mut self) -> Option<u128> {
            Some(u128::from_le_bytes(self.n(16)?.try_into().unwrap()))
        }
        fn o64(&mut self) -> Option<Option<u64>> {
            match self.u8()? {
                0 => Some(None),
                1 => Some(Some(self.u64()?)),
                _ => None,
            }
        }
        fn side(&mut self) -> Option<Side> {
            match self.u8()? {
                0 => Some(Side::Bid),
                1 => Some(Side::Ask),
                _ => None,
            }
        }
        fn stb(&mut self) -> Option<Stb> {
            match self.u8()? {
                0 => Some(Stb::Abort),
                1 => Some(Stb::CancelProvide),
                2 => Some(Stb::DecrementTake),
                _ => None,
            }
        }
    }
    let mut r = R(d);
    let p = match r.u8()? {
        0 => Pkt::PostOnly { side: r.side()?, price: r.u64()?, base: r.u64()?, client: r.u128()?, reject: r.b()?, free_only: r.b()?, slot: r.o64()?, ts: r.o64()?, silent: r.b()? },
        1 => Pkt::Limit { side: r.side()?, price: r.u64()?, base: r.u64()?, stb: r.stb()?, ml: r.o64()?, client: r.u128()?, free_only: r.b()?, slot: r.o64()?, ts: r.o64()?, silent: r.b()? },
        2 => Pkt::Ioc { side: r.side()?, price: r.o64()?, base: r.u64()?, quote: r.u64()?, min_base: r.u64()?, min_quote: r.u64()?, stb: r.stb()?, ml: r.o64()?, client: r.u128()?, free_only: r.b()?, slot: r.o64()?, ts: r.o64()? },
        _ => return None,
    };
    if r.0.is_empty() {
        Some(p)
    } else {
        None
    }
}

pub fn enc_data(a: &Act) -> Vec<u8> {
    let mut w = W(vec![a.tag()]);
    match a {
        Act::Place { p, .. } | Act::Swap { p, .. } => w.0.extend(enc_pkt(p)),
        Act::Multi { bids, asks, client, beh, .. } => {
            for l in [bids, asks] {
                w.u32(l.len() as u32);
                for c in l {
                    w.u64(c.price).u64(c.size).o64(c.slot).o64(c.ts);
                }
            }
            match client {
                None => w.u8(0),
                Some(c) => w.u8(1).u128(*c),
            };
            w.u8(*beh);
        }
        Act::Reduce { side, price, seq, size, .. } => {
            w.side(*side).u64(*price).u64(*seq).u64(*size);
        }
        Act::CancelAll { .. } | Act::RequestSeat | Act::RequestSeatAuth { .. } | Act::Evict { .. } | Act::Claim | Act::CollectFees { .. } | Act::ChangeFeeRecipient { .. } => {}
        Act::CancelUpTo { side, tick, search, cancel, .. } | Act::ForceCancel { side, tick, search, cancel, .. } => {
            w.side(*side).o64(*tick).o32(*search).o32(*cancel);
        }
        Act::CancelIds { ids, .. } => {
            w.u32(ids.len() as u32);
            for (s, p, q) in ids {
                w.side(*s).u64(*p).u64(*q);
            }
        }
        Act::Withdraw { quote, base } => {
            w.o64(*quote).o64(*base);
        }
        Act::Deposit { quote, base } => {
            w.u64(*quote).u64(*base);
        }
        Act::ChangeSeat { status, .. } => {
            w.u8(*status);
        }
        Act::NameSuccessor { to } => {
            w.key(to);
        }
        Act::ChangeStatus { status, .. } => {
            w.u8(*status);
        }
        Act::Init(i) => {
            w.u64(i.size.0).u64(i.size.1).u64(i.size.2).u64(i.quote_lots_per_quote_unit).u64(i.tick).u64(i.base_lots_per_base_unit).u16(i.fee_bps).key(&i.fee_collector).o32(i.raw);
        }
    }
    w.0
}

/// What is needed to name a market's accounts.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MktKeys {
    pub key: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
}

/// Names the role each account plays (index-aligned with the metas), used by the substitution check.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Program,
    LogAuth,
    Market,
    Signer,
    Seat,
    BaseAcct,
    QuoteAcct,
    BaseVault,
    QuoteVault,
    TokenProgram,
    System,
    Trader,
    Payer,
    FeeAcct,
    NewRecipient,
    PrevRecipient,
    Receiver,
    BaseMint,
    QuoteMint,
}

pub fn metas(m: &MktKeys, who: &Pubkey, nosign: bool, a: &Act) -> Vec<(AccountMeta, Role)> {
    use Role::*;
    let ro = |k: Pubkey, r: Role| (AccountMeta::new_readonly(k, false), r);
    let rw = |k: Pubkey, r: Role| (AccountMeta::new(k, false), r);
    let mut v = vec![ro(keys::program(), Program), ro(keys::log_authority(), LogAuth), rw(m.key, Market)];
    let wsig = matches!(a, Act::RequestSeat | Act::Init(_) | Act::ChangeStatus { .. });
    v.push((if wsig { AccountMeta::new(*who, !nosign) } else { AccountMeta::new_readonly(*who, !nosign) }, Signer));
    let vaults = |v: &mut Vec<(AccountMeta, Role)>, owner: &Pubkey| {
        v.push(rw(keys::ata(owner, &m.base_mint), BaseAcct));
        v.push(rw(keys::ata(owner, &m.quote_mint), QuoteAcct));
        v.push(rw(m.base_vault, BaseVault));
        v.push(rw(m.quote_vault, QuoteVault));
        v.push(ro(keys::token_program(), TokenProgram));
    };
    let seat = |t: &Pubkey| keys::seat(&m.key, t).0;
    match a {
        Act::Swap { ff: false, .. } => vaults(&mut v, who),
        Act::Swap { ff: true, .. } | Act::Place { ff: true, .. } | Act::Multi { ff: true, .. } => v.push(ro(seat(who), Seat)),
        Act::Place { ff: false, .. } | Act::Multi { ff: false, .. } | Act::Deposit { .. } => {
            v.push(ro(seat(who), Seat));
            vaults(&mut v, who)
        }
        Act::Reduce { ff, .. } | Act::CancelAll { ff } | Act::CancelUpTo { ff, .. } | Act::CancelIds { ff, .. } => {
            if !ff {
                vaults(&mut v, who)
            }
        }
        Act::Withdraw { .. } => vaults(&mut v, who),
        Act::RequestSeat => {
            v.push(rw(seat(who), Seat));
            v.push(ro(keys::system(), System));
        }
        Act::RequestSeatAuth { trader, payer } => {
            v.push((AccountMeta::new(*payer, true), Payer));
            v.push(ro(*trader, Trader));
            v.push(rw(seat(trader), Seat));
            v.push(ro(keys::system(), System));
        }
        Act::ChangeSeat { trader, .. } => v.push(rw(seat(trader), Seat)),
        Act::Evict { trader } | Act::ForceCancel { trader, .. } => {
            v.push(ro(*trader, Trader));
            v.push(ro(seat(trader), Seat));
            vaults(&mut v, trader);
        }
        Act::NameSuccessor { .. } | Act::Claim => {}
        Act::ChangeStatus { receiver, .. } => {
            if let Some(r) = receiver {
                v.push(rw(*r, Receiver));
            }
        }
        Act::CollectFees { to } => {
            v.push(rw(keys::ata(to, &m.quote_mint), FeeAcct));
            v.push(rw(m.quote_vault, QuoteVault));
            v.push(ro(keys::token_program(), TokenProgram));
        }
        Act::ChangeFeeRecipient { new, prev } => {
            v.push(ro(*new, NewRecipient));
            if let Some(p) = prev {
                v.push((AccountMeta::new_readonly(*p, true), PrevRecipient));
            }
        }
        Act::Init(_) => {
            v.push(ro(m.base_mint, BaseMint));
            v.push(ro(m.quote_mint, QuoteMint));
            v.push(rw(m.base_vault, BaseVault));
            v.push(rw(m.quote_vault, QuoteVault));
            v.push(ro(keys::system(), System));
            v.push(ro(keys::token_program(), TokenProgram));
        }
    }
    v
}

pub fn build(m: &MktKeys, who: &Pubkey, nosign: bool, a: &Act) -> Instruction {
    Instruction { program_id: keys::program(), accounts: metas(m, who, nosign, a).into_iter().map(|x| x.0).collect(), data: enc_data(a) }
}
