F="state/markets/fifo.rs"; NO="program/processor/new_order.rs"; LD="program/validation/loaders.rs"; TU="program/token_utils.rs"
GV="program/processor/governance.rs"; MS="program/processor/manage_seat.rs"; ER="program/event_recorder.rs"; WD="program/processor/withdraw.rs"
IN="program/processor/initialize.rs"; OP="state/order_schema/order_packet.rs"; MT="state/markets/market_traits.rs"; L="lib.rs"
AI="program/instruction_builders/market_authority_instructions.rs"; DM="program/dispatch_market.rs"; PC="program/validation/checkers/phoenix_checkers.rs"
SEEDS=[]
def seed(id, prop, needs, breaks, subs, main): SEEDS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,subs=subs,main=main))

seed("c01-unfunded-deposit","C01","an order or deposit whose token requirement exceeds what the trader's token account holds",
 "the transfer into the vault is skipped instead of failing, so the market credits tokens it never received",
 [(TU,"    if deposit_amount > 0 {\n        invoke(","    if deposit_amount > 0 && deposit_account.amount()? >= deposit_amount {\n        invoke(")],
"""
    let mut s = S::new(|_| {});
    // the trader holds 10^9 quote lots; the order needs twice that
    s.no(0, post(Bid, 1_000_000, 2000));
    s.ok(0, post(Bid, 1_000_000, 1000));
    want!(s.vaults() == (0, 1_000_000_000), "vaults {:?}", s.vaults());
""")
seed("c02-reduce-by-more-than-rests","C02","reducing an order, without claiming the funds, by more than it still holds while another order on that side keeps funds locked",
 "the whole requested size is unlocked instead of what rested, so the remaining orders are no longer covered",
 [(F,"""                    let base_lots_to_remove = size
                        .map(|s| s.min(order.num_base_lots))
                        .unwrap_or(order.num_base_lots);""","""                    let base_lots_to_remove = size
                        .map(|s| {
                            if claim_funds {
                                s.min(order.num_base_lots)
                            } else {
                                s
                            }
                        })
                        .unwrap_or(order.num_base_lots);"""),
  (F,"""                            base_lots_to_remove == order.num_base_lots,
                            base_lots_to_remove,""","""                            base_lots_to_remove >= order.num_base_lots,
                            base_lots_to_remove,""")],
"""
    let mut s = S::new(|_| {});
    s.ok(0, post(Ask, 100, 10));
    s.ok(0, post(Ask, 101, 20));
    s.ok(1, swap(Bid, None, 4));
    let o = s.m().asks[0].clone();
    s.ok(0, Act::Reduce { side: Ask, price: o.price, seq: o.seq, size: 10, ff: true });
    want!(s.m().asks.len() == 1 && s.tr(0).bl == 20 && s.tr(0).bf == 6, "{:?} with {:?}", s.tr(0), s.m().asks);
""")
seed("c03-bid-age-16-bits","C03","bids at one price whose sequence numbers straddle a multiple of 65536",
 "time priority among equal-priced bids compares only the low 16 bits of the sequence number",
 [(F,"""                other
                    .order_sequence_number
                    .partial_cmp(&self.order_sequence_number)?,""","""                (other.order_sequence_number as u16)
                    .partial_cmp(&(self.order_sequence_number as u16))?,""")],
"""
    let mut s = S::new(|c| c.age = 2);
    for t in 0..4 {
        s.ok(t, post(Bid, 100, 5));
    }
    let r = s.ok(4, swap(Ask, None, 12));
    let makers: Vec<Pubkey> = S::evs(&r).iter().filter_map(|e| if let Ev::Fill { maker, .. } = e { Some(*maker) } else { None }).collect();
    want!(makers == vec![s.key(0), s.key(1), s.key(2)], "filled out of turn: {makers:?}");
""")
seed("c04-min-quote-gross","C04","a sell whose minimum quote lies between the proceeds net of fees and the gross proceeds",
 "the minimum fill of a sell is compared with the proceeds before fees",
 [(F,"""                || matching_engine_response.num_quote_lots() < min_quote_lots_to_fill
            {""","""                || matching_engine_response.num_quote_lots()
                    + fee_estimate(&matching_engine_response, self.taker_fee_bps)
                    < min_quote_lots_to_fill
            {"""),
  (F,"""#[repr(C)]
#[derive(Default, Debug, Copy, Clone, Zeroable, Pod)]
pub struct FIFORestingOrder {""","""fn fee_estimate(response: &MatchingEngineResponse, taker_fee_bps: u64) -> QuoteLots {
    QuoteLots::new(response.num_quote_lots_out.as_u64() * taker_fee_bps / 10000)
}

#[repr(C)]
#[derive(Default, Debug, Copy, Clone, Zeroable, Pod)]
pub struct FIFORestingOrder {""")],
"""
    let mut s = S::new(|c| c.fee = 10);
    s.ok(0, post(Bid, 1000, 1000));
    // 1 000 000 gross, 999 000 net
    s.no(1, Act::Swap { p: ioc(Ask, None, 1000, 0, 0, 999_500), ff: false });
    let q = s.quote(1);
    s.ok(1, Act::Swap { p: ioc(Ask, None, 1000, 0, 0, 999_000), ff: false });
    want!(s.quote(1) - q == 999_000, "received {}", s.quote(1) - q);
""")
seed("c05-fee-rounding","C05","a fee whose exact value lies less than a tenth of a quote lot above a whole number of quote lots",
 "the fee is rounded down to whole quote lots in that range instead of up",
 [(F,"((size_in_adjusted_quote_lots.as_u128() * self.taker_fee_bps as u128 + 10000 - 1)","((size_in_adjusted_quote_lots.as_u128() * self.taker_fee_bps as u128\n                + self.base_lots_per_base_unit.as_u128().min(10000)\n                - 1)")],
"""
    let mut s = S::new(|c| c.fee = 73);
    s.ok(0, post(Ask, 137, 1));
    // 137 quote lots at 73 basis points: 1.0001, rounded up to 2
    let q = s.quote(1);
    s.ok(1, swap(Bid, None, 1));
    want!(q - s.quote(1) == 139, "paid {}", q - s.quote(1));
    want!(s.m().unclaimed == 2, "fee {}", s.m().unclaimed);
""")
seed("c06-id-reuse-on-full-book","C06","two new bids in a row that each evict an order from a full bid side",
 "the order sequence number does not advance when a bid is posted on a full book, so the next order gets the same id",
 [(F,"""                // Increment the order sequence number after successfully placing an order
                self.order_sequence_number += 1;""","""                // Increment the order sequence number after successfully placing an order
                if !book_full || side == Side::Ask {
                    self.order_sequence_number += 1;
                }""")],
"""
    let mut s = S::new(|_| {});
    for k in 0..11u64 {
        let n = if k == 10 { 32 } else { 48 };
        s.ok((k % 5) as usize, Act::Multi { bids: (0..n).map(|i| cond(100 + (k * 48 + i) % 300, 1)).collect(), asks: vec![], client: None, beh: 0, ff: false });
    }
    want!(s.m().bids.len() <= 512, "{} bids", s.m().bids.len());
    while s.m().bids.len() < 512 {
        s.ok(0, post(Bid, 450, 1));
    }
    s.ok(1, post(Bid, 500, 1));
    let a = s.m().bids[0].age();
    s.ok(2, post(Bid, 501, 1));
    let b = s.m().bids[0].age();
    want!(s.m().bids.len() == 512 && b > a, "ids {a} then {b}");
""")
seed("c07-post-only-behind-expired","C07","a post-only order at exactly the price of an expired order with a live order behind it at the same price",
 "after removing the expired order the cross check stops, and the post-only order is posted against the live one",
 [(F,"""                            true,
                            false,
                            record_event_fn,
                        )?;
                    } else {
                        return Some(o_id.price_in_ticks);""","""                            true,
                            false,
                            record_event_fn,
                        )?;
                        if num_ticks == o_id.price_in_ticks {
                            break;
                        }
                    } else {
                        return Some(o_id.price_in_ticks);""")],
"""
    let mut s = S::new(|_| {});
    let now = s.w.bank.slot;
    s.ok(0, post_tif(Ask, 100, 5, Some(now + 1), None));
    s.ok(1, post(Ask, 100, 5));
    s.w.bank.slot += 5;
    s.no(2, post(Bid, 100, 5));
    s.ok(2, Act::Place { p: Pkt::PostOnly { side: Bid, price: 100, base: 5, client: 1, reject: false, free_only: false, slot: None, ts: None, silent: false }, ff: false });
    want!(s.m().bids[0].price == 99 && s.m().asks.len() == 1, "book {:?} {:?}", s.m().bids, s.m().asks);
""")
seed("c08-selftrade-on-last-match","C08","a self-trade reached when exactly one match is left of the match limit",
 "the self-trade rule is skipped for the last match and the trader fills its own order",
 [(F,"            if trader_index == current_trader_index as u64 {\n","            if trader_index == current_trader_index as u64 && inflight_order.match_limit > 1 {\n")],
"""
    let mut s = S::new(|_| {});
    s.ok(1, post(Ask, 99, 1));
    s.ok(0, post(Ask, 100, 5));
    s.no(0, limit(Bid, 100, 6, Stb::Abort, Some(2)));
    let r = s.ok(0, limit(Bid, 100, 6, Stb::CancelProvide, Some(2)));
    want!(!S::evs(&r).iter().any(|e| matches!(e, Ev::Fill { maker, .. } if *maker == s.key(0))), "filled its own order");
""")
seed("c09-both-limits","C09","a resting order that carries both a last slot (not yet passed) and a last time (passed)",
 "matching ignores the timestamp of an order that also carries a slot",
 [(F,"""                || (last_valid_unix_timestamp_in_seconds != 0
                    && last_valid_unix_timestamp_in_seconds < current_unix_timestamp)
            {
                self""","""                || (last_valid_slot == 0
                    && last_valid_unix_timestamp_in_seconds != 0
                    && last_valid_unix_timestamp_in_seconds < current_unix_timestamp)
            {
                self""")],
"""
    let mut s = S::new(|_| {});
    let (slot, ts) = (s.w.bank.slot, s.w.bank.ts as u64);
    s.ok(0, post_tif(Ask, 100, 5, Some(slot + 1000), Some(ts + 10)));
    s.w.bank.slot += 20;
    s.w.bank.ts += 11;
    let r = s.ok(1, swap(Bid, Some(100), 5));
    want!(!S::evs(&r).iter().any(|e| matches!(e, Ev::Fill { .. })), "an expired order was filled");
    want!(s.tr(0).bf == 5 && s.m().asks.is_empty(), "not refunded: {:?}", s.tr(0));
""")
seed("c10-cancel-bid-claims-base","C10","cancelling a bid (with withdrawal) while holding free base lots",
 "cancelling a bid also withdraws all free base of the trader",
 [(F,"""                Some(num_quote_lots),
                Some(num_base_lots),
                false,
            )
        } else {""","""                Some(num_quote_lots),
                Some(num_base_lots).filter(|b| *b > BaseLots::ZERO),
                false,
            )
        } else {""")],
"""
    let mut s = S::new(|_| {});
    s.deposit(0, 0, 50);
    s.ok(0, post(Bid, 100, 5));
    let (b, q) = (s.base(0), s.quote(0));
    let o = s.m().bids[0].clone();
    s.ok(0, Act::CancelIds { ids: vec![(Bid, o.price, o.seq)], ff: false });
    want!(s.quote(0) - q == 500 && s.base(0) == b && s.tr(0).bf == 50, "paid {} quote, {} base", s.quote(0) - q, s.base(0) - b);
""")
seed("c11-own-order-not-evictable","C11","a full side whose least aggressive order belongs to the trader of the new, better order",
 "a new order that would evict the trader's own worst order is rejected",
 [(F,"                    self.evict_least_aggressive_order(side, record_event_fn, &order_id);","                    self.evict_least_aggressive_order(side, record_event_fn, &order_id)\n                        .filter(|evicted| evicted.trader_index != trader_index as u64)?;")],
"""
    let mut s = S::new(|_| {});
    s.ok(3, post(Ask, 900, 1));
    for k in 0..11u64 {
        let n = if k == 10 { 31 } else { 48 };
        s.ok((k % 3) as usize, Act::Multi { bids: vec![], asks: (0..n).map(|i| cond(100 + k * 48 + i, 1)).collect(), client: None, beh: 0, ff: false });
    }
    want!(s.m().asks.len() == 512, "{} asks", s.m().asks.len());
    let r = s.ok(3, post(Ask, 90, 2));
    want!(S::evs(&r).iter().any(|e| matches!(e, Ev::Evict { price: 900, evicted: 1, .. })), "nothing evicted");
    want!(s.tr(3).bl == 2 && s.tr(3).bf == 0, "balance {:?}", s.tr(3));
""")
seed("c12-closed-market-keeps-funds","C12","a market that has been closed while traders still have orders and balances",
 "a closed market no longer lets traders cancel their orders",
 [("program/status.rs","""                | MarketStatus::Paused
                | MarketStatus::Closed
        )
    }

    // TODO""","""                | MarketStatus::Paused
        )
    }

    // TODO""")],
"""
    let mut s = S::new(|_| {});
    s.ok(0, post(Ask, 100, 5));
    s.ok(0, post(Bid, 90, 5));
    let o = s.m().asks[0].clone();
    s.status(3);
    s.status(4);
    s.ok(0, Act::Reduce { side: Ask, price: o.price, seq: o.seq, size: 2, ff: false });
    s.ok(0, Act::CancelAll { ff: true });
    s.ok(0, Act::Withdraw { quote: None, base: None });
    want!(s.vaults() == (0, 0), "left behind: {:?}", s.vaults());
""")
seed("c13-retired-seat-returns","C13","approving a seat that was retired before",
 "a retired seat can be approved again",
 [(MS,"        (SeatApprovalStatus::NotApproved, SeatApprovalStatus::Approved) => {","        (SeatApprovalStatus::NotApproved, SeatApprovalStatus::Approved)\n        | (SeatApprovalStatus::Retired, SeatApprovalStatus::Approved) => {")],
"""
    let mut s = S::new(|_| {});
    let t = s.key(0);
    s.ok(AUTH, Act::ChangeSeat { trader: t, status: 2 });
    s.no(AUTH, Act::ChangeSeat { trader: t, status: 1 });
    s.no(AUTH, Act::ChangeSeat { trader: t, status: 0 });
    s.no(0, post(Ask, 100, 1));
""")
seed("c13-borrowed-seat","C13","a trader without a seat on a market who has an approved seat on another market of the same program",
 "the seat account is no longer tied to the market (both the recorded market and the address are unchecked)",
 [(PC,"""        assert_with_msg(
            &seat.market == market,
            ProgramError::InvalidAccountData,
            "Invalid market for seat",
        )?;
""",""),
  (PC,"""        assert_with_msg(
            &seat_address == info.key,
            ProgramError::InvalidInstructionData,
            "Invalid address for seat",
        )?;
        let seat_bytes""","""        let _ = seat_address;
        let seat_bytes""")],
"""
    let mut s = S::new(|c| { c.nm = 2; c.seated = 1; });
    // T1 gets a seat on the second market only
    let t = s.key(1);
    s.at = 1;
    s.ok(1, Act::RequestSeat);
    s.ok(AUTH, Act::ChangeSeat { trader: t, status: 1 });
    s.at = 0;
    s.no(1, post(Ask, 100, 1));
    let here = s.w.mk[0].key;
    let there = s.w.mk[1].key;
    let mut ix = s.ix(1, &post(Ask, 100, 1));
    for a in ix.accounts.iter_mut() {
        if a.pubkey == keys::seat(&here, &t).0 {
            a.pubkey = keys::seat(&there, &t).0;
        }
    }
    s.raw_no(ix);
""")
seed("c14-renaming-hands-over","C14","naming the same successor twice",
 "naming an already named successor again transfers the authority without the successor claiming it",
 [(GV,"    market_info.get_header_mut()?.successor = successor;","    let mut header = market_info.get_header_mut()?;\n    if header.successor == successor {\n        header.authority = successor;\n    }\n    header.successor = successor;")],
"""
    let mut s = S::new(|_| {});
    let k = s.key(SUCC);
    s.ok(AUTH, Act::NameSuccessor { to: k });
    s.ok(AUTH, Act::NameSuccessor { to: k });
    want!(s.m().hdr.authority() == s.key(AUTH), "the authority changed without a claim");
    s.ok(SUCC, Act::Claim);
    want!(s.m().hdr.authority() == k, "claim had no effect");
    s.no(AUTH, Act::ChangeStatus { status: 2, receiver: None });
""")
seed("c14-claim-without-successor","C14","a market whose named successor is the default key (a withdrawn nomination)",
 "anyone can claim the authority while no successor is named",
 [(GV,"    market_info.assert_valid_successor(successor.key)?;","    if market_info.get_header()?.successor != Pubkey::default() {\n        market_info.assert_valid_successor(successor.key)?;\n    }")],
"""
    let mut s = S::new(|_| {});
    s.ok(AUTH, Act::NameSuccessor { to: s.key(SUCC) });
    s.ok(AUTH, Act::NameSuccessor { to: Pubkey::default() });
    s.no(SUCC, Act::Claim);
    s.no(3, Act::Claim);
    want!(s.m().hdr.authority() == s.key(AUTH), "authority moved");
""")
seed("c15-tombstone-with-balances","C15","deleting a closed market where a registered trader still holds free funds in one currency",
 "the market is deleted although traders with one-sided balances are registered",
 [(GV,"                    market.get_registered_traders().is_empty(),","                    market.get_registered_traders().iter().all(|(_, state)| {\n                        state.base_lots_free == BaseLots::ZERO\n                            || state.quote_lots_free == QuoteLots::ZERO\n                    }),"),
  (GV,"    quantities::QuoteLots,","    quantities::{BaseLots, QuoteLots, WrapperU64},")],
"""
    let mut s = S::new(|_| {});
    s.deposit(0, 500, 0);
    s.status(2);
    s.status(4);
    s.no(AUTH, Act::ChangeStatus { status: 5, receiver: None });
    want!(s.tr(0).qf == 500, "balance lost");
""")
seed("c15-rent-not-to-new-wallet","C15","deleting a market naming a receiver that holds nothing yet",
 "the rent of the deleted market goes to the authority although a receiver was named",
 [(GV,"                Some(r) => r,\n                None => authority.as_ref(),","                Some(r) if r.lamports() > 0 => r,\n                _ => authority.as_ref(),")],
"""
    let mut s = S::new(|c| c.seated = 0);
    for k in s.m().traders.keys().cloned().collect::<Vec<_>>() {
        s.ok(AUTH, Act::ChangeSeat { trader: k, status: 0 });
        s.ok(AUTH, Act::Evict { trader: k });
    }
    s.status(2);
    s.status(4);
    want!(s.m().traders.is_empty(), "seats left");
    let to = Pubkey::new_from_array([77; 32]);
    let rent = s.w.bank.lamports(&s.w.mk[0].key);
    s.ok(AUTH, Act::ChangeStatus { status: 5, receiver: Some(to) });
    want!(rent > 0 && s.w.bank.lamports(&to) == rent, "receiver got {} of {rent}", s.w.bank.lamports(&to));
""")
seed("c16-third-batch-count","C16","an instruction whose events need at least three log batches",
 "the third batch announces one event more than it holds",
 [(ER,"        self.events_emitted = self.events_added;","        self.events_emitted = self.events_added.saturating_sub(self.batch_index.min(1) as u16);")],
"""
    let mut s = S::new(|_| {});
    let slot = s.w.bank.slot;
    let l: Vec<Cond> = (0..48u64).map(|i| Cond { price: 100 + i, size: 1, slot: Some(slot + 100), ts: None }).collect();
    let r = s.ok(0, Act::Multi { bids: vec![], asks: l, client: None, beh: 0, ff: false });
    let mut next = 0u16;
    let mut n = 0;
    for b in r.logs.iter().map(|x| decode_batch(x).unwrap()) {
        n += 1;
        want!(b.hdr.total as usize == b.evs.len(), "batch says {} events, holds {}", b.hdr.total, b.evs.len());
        for (i, _) in &b.evs {
            want!(*i == next, "event {i} where {next} was due");
            next += 1;
        }
    }
    want!(n >= 3 && next == 96, "{n} batches, {next} events");
""")
seed("c17-foreign-quote-vault","C17","an instruction that names another quote token account in place of the quote vault",
 "the quote vault is checked for its mint only, so a deposit into one's own account is credited",
 [(LD,"""            quote_vault: TokenAccountInfo::new_with_owner_and_key(
                next_account_info(account_iter)?,
                &quote_params.mint_key,
                &quote_params.vault_key,
                &quote_params.vault_key,
            )?,
            token_program: Program::new(next_account_info(account_iter)?, &spl_token::id())?,
        })
    }
}

pub(crate) struct InitializeMarketContext""","""            quote_vault: TokenAccountInfo::new(
                next_account_info(account_iter)?,
                &quote_params.mint_key,
            )?,
            token_program: Program::new(next_account_info(account_iter)?, &spl_token::id())?,
        })
    }
}

pub(crate) struct InitializeMarketContext""")],
"""
    let mut s = S::new(|_| {});
    let act = Act::Deposit { quote: 1000, base: 0 };
    let v = s.w.mk[0].quote_vault;
    let mine = keys::ata(&s.key(1), &s.w.mk[0].quote_mint);
    let mut ix = s.ix(0, &act);
    for a in ix.accounts.iter_mut() {
        if a.pubkey == v {
            a.pubkey = mine;
        }
    }
    s.raw_no(ix);
    s.ok(0, act);
    want!(s.vaults().1 == 1000, "vault {}", s.vaults().1);
""")
seed("c17-fees-to-anyone","C17","fee collection signed by the fee recipient itself but naming another party's token account",
 "the destination of collected fees need not belong to the recorded recipient",
 [(LD,"""            fee_recipient_token_account: TokenAccountInfo::new_with_owner(
                next_account_info(account_iter)?,
                &quote_params.mint_key,
                &fee_recipient,
            )?,""","""            fee_recipient_token_account: {
                let token_account = next_account_info(account_iter)?;
                TokenAccountInfo::new_with_owner(
                    token_account,
                    &quote_params.mint_key,
                    &fee_recipient,
                )
                .or_else(|e| {
                    if market_context.signer.key == &fee_recipient {
                        TokenAccountInfo::new(token_account, &quote_params.mint_key)
                    } else {
                        Err(e)
                    }
                })?
            },""")],
"""
    let mut s = S::new(|c| c.fee = 100);
    s.ok(0, post(Ask, 1000, 50));
    s.ok(1, swap(Bid, None, 50));
    want!(s.m().unclaimed == 500, "fees {}", s.m().unclaimed);
    s.no(FEE, Act::CollectFees { to: s.key(2) });
    s.ok(FEE, Act::CollectFees { to: s.key(FEE) });
    want!(s.quote(FEE) == 500, "received {}", s.quote(FEE));
""")
seed("c18-garbage-behind-short-packet","C18","an order packet followed by extra bytes",
 "a complete packet followed by garbage is accepted by the padded decoding",
 [(OP,"                if let Ok(order_packet) = OrderPacket::try_from_slice(&padded_bytes) {","                if let Ok(order_packet) = OrderPacket::deserialize(&mut padded_bytes.as_slice()) {")],
"""
    let mut s = S::new(|_| {});
    for extra in [vec![9u8], vec![1, 2, 3], vec![0; 5]] {
        let mut ix = s.ix(0, &post(Ask, 100, 1));
        ix.data.extend(extra);
        s.raw_no(ix);
    }
    s.ok(0, post(Ask, 100, 1));
""")
seed("c19-skip-counts-free-funds-twice","C19","a batch with the skip option where an earlier order used deposited funds and a later one exceeds what is left by less than that",
 "the funds left are overstated after free funds were used, so an order that should be skipped fails the batch",
 [(NO,"""                    quote_lots_available -=
                        quote_lots_deposited + matching_engine_response.num_free_quote_lots_used;""","""                    quote_lots_available -=
                        quote_lots_deposited;""")],
"""
    let mut s = S::new(|_| {});
    s.deposit(0, 1000, 0);
    // 999 999 000 left in the wallet
    s.ok(0, Act::Multi { bids: vec![cond(100, 10), cond(99, 5_050_505), cond(98, 5_102_040)], asks: vec![], client: None, beh: 2, ff: false });
    let b: Vec<u64> = s.m().bids.iter().map(|o| o.price).collect();
    want!(b == vec![100, 99], "placed {b:?}");
    want!(s.tr(0).qf == 0 && s.tr(0).ql == 1000 + 99 * 5_050_505, "balance {:?}", s.tr(0));
""")
seed("c20-withdraw-zero-means-all","C20","a withdrawal that asks for exactly zero base lots",
 "zero base lots requested withdraws the whole free base balance",
 [(WD,"                base_lots_to_withdraw.map(BaseLots::new),","                base_lots_to_withdraw\n                    .filter(|lots| *lots > 0)\n                    .map(BaseLots::new),")],
"""
    let mut s = S::new(|_| {});
    s.deposit(0, 700, 50);
    let (b, q) = (s.base(0), s.quote(0));
    s.ok(0, Act::Withdraw { quote: Some(200), base: Some(0) });
    want!(s.base(0) == b && s.quote(0) == q + 200 && s.tr(0).bf == 50 && s.tr(0).qf == 500, "paid {} base, left {:?}", s.base(0) - b, s.tr(0));
""")
seed("c21-wrong-vault-bump","C21","a market whose two vault addresses have different bump seeds",
 "one vault's bump seed is recorded for the other, so that vault cannot be paid from",
 [(IN,"            vault_bump: bumps[1] as u32,","            vault_bump: bumps[0] as u32,")],
"""
    for salt in 0..40 {
        let mut s = S::new(|c| c.salt = salt);
        s.deposit(0, 700, 50);
        s.ok(0, Act::Withdraw { quote: None, base: None });
        want!(s.vaults() == (0, 0), "vaults {:?}", s.vaults());
        if salt > 6 { break; }
    }
""")
seed("c21-raw-units-ignored","C21","a market created with more than one raw base unit per base unit",
 "the base lot size leaves out the raw base units",
 [(IN,"        base_atoms_per_base_unit / num_base_lots_per_base_unit,","        BaseAtomsPerBaseUnit::new(10u64.pow(base_mint.decimals as u32))\n            / num_base_lots_per_base_unit,")],
"""
    let mut s = S::new(|c| c.raw = Some(10));
    let b = s.base(0);
    s.deposit(0, 0, 5);
    // 10 * 10^9 atoms per base unit, 1000 lots per base unit
    want!(b - s.base(0) == 5 * 10_000_000, "5 lots cost {} atoms", b - s.base(0));
""")
seed("c22-empty-withdraw","C22","a withdraw instruction with no parameters at all",
 "a truncated (empty) withdraw instruction is taken as a withdrawal of everything",
 [(WD,"    } = WithdrawParams::try_from_slice(data)?;","    } = if data.is_empty() {\n        WithdrawParams::default()\n    } else {\n        WithdrawParams::try_from_slice(data)?\n    };")],
"""
    let mut s = S::new(|_| {});
    s.deposit(0, 700, 50);
    let mut ix = s.ix(0, &Act::Withdraw { quote: None, base: None });
    for n in 1..ix.data.len() {
        let mut i = ix.clone();
        i.data.truncate(n);
        s.raw_no(i);
    }
    ix.data[1] = 2;
    s.raw_no(ix);
""")
seed("c23-ladder-time-from-slot","C23","an expiry-aware ladder asked for a slot only, over orders with a timestamp limit",
 "the slot is used as the time when no time is given, so orders with a small timestamp vanish from the ladder",
 [(MT,"        let unix_timestamp_expiration = last_valid_unix_timestamp_in_seconds.unwrap_or(0);","        let unix_timestamp_expiration =\n            last_valid_unix_timestamp_in_seconds.unwrap_or(slot_expiration);")],
"""
    let mut s = S::new(|_| {});
    s.w.bank.ts = 100;
    s.ok(0, post_tif(Ask, 100, 5, None, Some(500)));
    let a = s.w.bank.get(&s.w.mk[0].key).unwrap().clone();
    let sp = phoenix::program::MarketSizeParams { bids_size: 512, asks_size: 512, num_seats: 128 };
    let m = phoenix::program::load_with_dispatch(&sp, &a.data[HDR..]).unwrap();
    let l = m.inner.get_ladder_with_expiration(5, Some(s.w.bank.slot), None);
    want!(l.asks.len() == 1, "{} levels", l.asks.len());
    want!(m.inner.get_ladder_with_expiration(5, None, Some(501)).asks.is_empty(), "expired order listed");
    want!(m.inner.get_ladder_with_expiration(5, None, Some(500)).asks.len() == 1, "valid order missing");
""")
seed("c24-one-id-per-price","C24","a batch that posts two orders at the same price with different terms",
 "only one id per price level is returned",
 [(L,"    if !order_ids.is_empty() {\n","    if !order_ids.is_empty() {\n        order_ids.dedup_by_key(|order_id| order_id.price_in_ticks);\n")],
"""
    let mut s = S::new(|_| {});
    let slot = s.w.bank.slot;
    let l = vec![Cond { price: 100, size: 1, slot: Some(slot + 5), ts: None }, Cond { price: 100, size: 2, slot: None, ts: None }, cond(101, 3)];
    let r = s.ok(0, Act::Multi { bids: vec![], asks: l, client: None, beh: 0, ff: false });
    let n = r.ret.as_ref().map(|d| (d.len() - 4) / 16).unwrap_or(0);
    want!(s.m().asks.len() == 3 && n == 3, "{} orders rest, {n} ids returned", s.m().asks.len());
""")
seed("c25-force-cancel-one-side","C25","a forced cancel, through the builder, of a trader with resting asks",
 "the pair of forced-cancel instructions cancels the bids twice and the asks never",
 [(AI,"            quote,\n            Side::Ask,\n        ),\n    ]","            quote,\n            Side::Bid,\n        ),\n    ]")],
"""
    let mut s = S::new(|_| {});
    s.ok(0, post(Bid, 100, 5));
    s.ok(0, post(Ask, 200, 5));
    s.ok(AUTH, Act::ChangeSeat { trader: s.key(0), status: 0 });
    let k = s.w.mk[0].clone();
    for ix in phoenix::program::instruction_builders::create_force_cancel_orders_instructions(&k.key, &s.key(0), &s.key(AUTH), &k.base_mint, &k.quote_mint) {
        let r = s.w.bank.exec(&ix);
        want!(r.ok, "refused: {}", r.err);
    }
    s.w.refresh(0).unwrap();
    want!(s.m().bids.is_empty() && s.m().asks.is_empty(), "left {:?} {:?}", s.m().bids, s.m().asks);
""")
seed("c26-owner-check-8-bits","C26","two traders whose places in the trader table differ by a multiple of 256",
 "the ownership check of a cancel compares the low 8 bits of the trader index, so a stranger can cancel the order",
 [(F,"                    if order.trader_index != trader_index as u64 {","                    if order.trader_index as u8 != trader_index as u8 {")],
"""
    let mut s = S::new(|c| { c.size = 1; c.crowd = 254; });
    s.ok(0, post(Ask, 100, 7));
    s.ok(2, post(Ask, 100, 7));
    let o = s.m().asks[0].clone();
    s.run(2, Act::CancelIds { ids: vec![(Ask, o.price, o.seq)], ff: true });
    want!(s.m().asks.len() == 2, "a stranger cancelled the order");
    want!(s.tr(0).bl == 7 && s.tr(2).bl == 7, "{:?} {:?}", s.tr(0), s.tr(2));
""")
seed("c27-evicted-with-locked-base","C27","evicting a trader who still has resting asks but no bids",
 "a trader counts as empty although base lots are locked, and is removed with its asks on the book",
 [(F,"                *trader_state == TraderState::default(),\n","                trader_state.quote_lots_free + trader_state.quote_lots_locked == QuoteLots::ZERO\n                    && trader_state.base_lots_free == BaseLots::ZERO,\n")],
"""
    let mut s = S::new(|_| {});
    s.ok(0, post(Ask, 100, 5));
    let t = s.key(0);
    s.ok(AUTH, Act::ChangeSeat { trader: t, status: 0 });
    s.no(AUTH, Act::Evict { trader: t });
    s.ok(AUTH, Act::ForceCancel { trader: t, side: Ask, tick: None, search: None, cancel: None });
    s.ok(AUTH, Act::Evict { trader: t });
    want!(!s.m().traders.contains_key(&t) && s.vaults() == (0, 0), "not removed");
""")
seed("c27-full-withdrawal-unseats","C27","a voluntary withdrawal of everything by a trader without resting orders",
 "withdrawing everything removes the trader from the market",
 [(WD,"                base_lots_to_withdraw.map(BaseLots::new),\n                evict_seat,","                base_lots_to_withdraw.map(BaseLots::new),\n                evict_seat || (quote_lots_to_withdraw.is_none() && base_lots_to_withdraw.is_none()),")],
"""
    let mut s = S::new(|_| {});
    s.deposit(0, 700, 50);
    s.ok(0, Act::Withdraw { quote: None, base: None });
    want!(s.m().traders.contains_key(&s.key(0)), "a withdrawal removed the trader");
""")
seed("c28-short-trader-table","C28","seating more than 4097 traders on a (2048, 2048, 4225) market",
 "one supported size is written with the trader table of a smaller one",
 [(DM,"        (2048, 2048, 4225) => fifo_market_mut!(2048, 2048, 4225, bytes),","        (2048, 2048, 4225) => fifo_market_mut!(2048, 2048, 4097, bytes),")],
"""
    let mut s = S::new(|c| { c.size = 8; c.crowd = 4092; c.seated = 2; });
    for t in 2..5 {
        s.ok(t, Act::RequestSeat);
        s.ok(AUTH, Act::ChangeSeat { trader: s.key(t), status: 1 });
        s.deposit(t, 10, 10);
    }
    for t in 0..60u64 {
        let k = keys::key("more", t);
        s.ok(AUTH, Act::RequestSeatAuth { trader: k, payer: s.key(AUTH) });
        s.ok(AUTH, Act::ChangeSeat { trader: k, status: 1 });
    }
    want!(s.m().traders.len() == 4157, "{} traders", s.m().traders.len());
""")

seed("c29-unsigned-log-authority","C29","a log call that lists the log authority without its signature",
 "anyone can publish log records in the program's name",
 [(L,"""        assert_with_msg(
            authority.is_signer,
            ProgramError::MissingRequiredSignature,
            "Log authority must sign through CPI",
        )?;
        assert_with_msg(
            authority.key == &phoenix_log_authority::id(),
            ProgramError::InvalidArgument,
            "Invalid log authority",
        )?;
        return Ok(());""","""        let signed = accounts.iter().skip(1).all(|a| a.is_signer) || authority.is_signer;
        assert_with_msg(
            signed,
            ProgramError::MissingRequiredSignature,
            "Log authority must sign through CPI",
        )?;
        assert_with_msg(
            authority.key == &phoenix_log_authority::id(),
            ProgramError::InvalidArgument,
            "Invalid log authority",
        )?;
        return Ok(());""")],
"""
    use solana_program::instruction::{AccountMeta, Instruction};
    let mut s = S::new(|_| {});
    let r = s.ok(0, post(Ask, 100, 5));
    want!(!r.logs.is_empty(), "nothing logged");
    let la = keys::log_authority();
    let me = s.key(1);
    for metas in [
        vec![AccountMeta::new_readonly(la, false)],
        vec![AccountMeta::new_readonly(la, false), AccountMeta::new_readonly(me, true)],
        vec![AccountMeta::new_readonly(me, true)],
    ] {
        s.raw_no(Instruction { program_id: keys::program(), accounts: metas, data: r.logs[0].clone() });
    }
""")
seed("c30-cancel-all-first-128","C30","a trader with more than 128 resting orders who cancels all",
 "cancel-all leaves every order after the first 128 on the book, with its funds locked",
 [(F,"""                    .filter(|(_o_id, o)| {
                        o.trader_index == trader_index as u64 && o.num_base_lots > BaseLots::ZERO
                    })
                    .map(|(o_id, _)| *o_id)
            })
            .collect::<Vec<_>>();""","""                    .filter(|(_o_id, o)| {
                        o.trader_index == trader_index as u64 && o.num_base_lots > BaseLots::ZERO
                    })
                    .map(|(o_id, _)| *o_id)
            })
            .take(128)
            .collect::<Vec<_>>();""")],
"""
    let mut s = S::new(|_| {});
    for k in 0..5u64 {
        s.ok(0, Act::Multi { bids: vec![], asks: (0..30).map(|i| cond(100 + k * 30 + i, 1)).collect(), client: None, beh: 0, ff: false });
    }
    let all = s.m().asks.len();
    want!(all == 150, "{all} orders");
    s.ok(0, Act::CancelAll { ff: false });
    s.ok(0, Act::Withdraw { quote: None, base: None });
    let x = s.tr(0);
    want!(s.m().asks.is_empty() && x.bl == 0 && x.bf == 0, "left: {} orders, {} lots locked", s.m().asks.len(), x.bl);
""")
seed("c31-batch-behaviours-swapped","C31","a batch with one of the two middle options that crosses, or that the trader's funds cannot cover",
 "two options of the batch instruction trade places in the encoding, so clients of the published description get the other one",
 [(NO,"""    /// If any order crosses the spread or has insufficient funds, the entire transaction will fail.
    FailOnInsufficientFundsAndFailOnCross,

    /// Orders will be skipped if the user has insufficient funds.
    /// Crossing orders will be amended to the closest non-crossing price.
    SkipOnInsufficientFundsAndAmendOnCross,
""","""    /// Orders will be skipped if the user has insufficient funds.
    /// Crossing orders will be amended to the closest non-crossing price.
    SkipOnInsufficientFundsAndAmendOnCross,

    /// If any order crosses the spread or has insufficient funds, the entire transaction will fail.
    FailOnInsufficientFundsAndFailOnCross,
""")],
"""
    let mut s = S::new(|_| {});
    s.ok(1, post(Ask, 100, 5));
    s.ok(0, Act::Multi { bids: vec![cond(90, 1)], asks: vec![], client: None, beh: 1, ff: false });
    s.no(0, Act::Multi { bids: vec![cond(101, 1)], asks: vec![], client: None, beh: 1, ff: false });
    s.ok(0, Act::Multi { bids: vec![cond(101, 1)], asks: vec![], client: None, beh: 2, ff: false });
    want!(s.m().bids.iter().any(|o| o.price == 99), "book {:?}", s.m().bids);
""")
seed("c32-self-trade-index-low-byte","C32","a taker whose place in the trader table is a multiple of 256 away from a maker's",
 "a stranger's order is taken for the taker's own, so the result depends on how many traders registered in between",
 [(F,"            // Handle self trade\n            if trader_index == current_trader_index as u64 {","            // Handle self trade\n            if trader_index as u8 == current_trader_index as u8 {")],
"""
    let mut left = vec![];
    for crowd in [0u16, 254] {
        let mut s = S::new(|c| { c.size = 1; c.crowd = crowd; });
        s.ok(0, post(Ask, 100, 5));
        s.ok(2, limit(Bid, 100, 3, Stb::DecrementTake, None));
        left.push(s.m().asks.iter().map(|o| (o.price, o.size)).chain(s.m().bids.iter().map(|o| (o.price, o.size))).collect::<Vec<_>>());
        want!(s.tr(0).qf == 300, "the maker got {} quote lots with {crowd} idle traders", s.tr(0).qf);
    }
    want!(left[0] == left[1], "books {left:?}");
""")
seed("c33-expiry-flag-in-padding","C33","a market account that holds orders with a limited life but was not filled by this build (a market from before the change)",
 "whether the market ever saw an expiring order is remembered in unused bytes of the account, so on a market whose account lacks the mark expired orders trade",
 [(F,"            if (last_valid_slot != 0 && last_valid_slot < current_slot)\n                || (last_valid_unix_timestamp_in_seconds != 0\n                    && last_valid_unix_timestamp_in_seconds < current_unix_timestamp)\n            {","            if self._padding[0] != 0\n                && ((last_valid_slot != 0 && last_valid_slot < current_slot)\n                    || (last_valid_unix_timestamp_in_seconds != 0\n                        && last_valid_unix_timestamp_in_seconds < current_unix_timestamp))\n            {"),
  (F,"                    // Record the time in force event\n                    record_event_fn(","                    // Markets without such orders skip the expiry comparison while matching\n                    self._padding[0] = 1;\n                    // Record the time in force event\n                    record_event_fn(")],
"""
    for from_before in [false, true] {
        let mut s = S::new(|_| {});
        let now = s.w.bank.slot;
        s.ok(0, post_tif(Ask, 100, 5, Some(now + 5), None));
        s.ok(1, post(Ask, 101, 5));
        s.w.bank.slot = now + 6;
        if from_before {
            // the same contents without anything in the bytes that mean nothing
            let k = s.w.mk[0].key;
            let mut a = (**s.w.bank.get(&k).unwrap()).clone();
            let before = read_market(&a).unwrap();
            a.data[HDR..HDR + 256].fill(0);
            want!(read_market(&a).unwrap() == before, "contents changed");
            s.w.bank.put(k, a);
        }
        s.ok(2, limit(Bid, 101, 3, Stb::DecrementTake, None));
        want!(s.tr(0).qf == 0 && s.tr(1).qf == 303, "makers got {} and {} (account rewritten: {from_before})", s.tr(0).qf, s.tr(1).qf);
    }
""")
