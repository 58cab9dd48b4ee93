#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay reviewable)."""
import json, os
H, I, C = "histories", "inputs", "configurations"
FIFO="src/state/markets/fifo.rs"; NEW="src/program/processor/new_order.rs"; CAN="src/program/processor/cancel_multiple_orders.rs"
RED="src/program/processor/reduce_order.rs"; WD="src/program/processor/withdraw.rs"; DEP="src/program/processor/deposit.rs"
LOAD="src/program/validation/loaders.rs"; CHK="src/program/validation/checkers/phoenix_checkers.rs"; TCHK="src/program/validation/checkers/token_checkers.rs"
REC="src/program/event_recorder.rs"; EV="src/program/events.rs"; LIB="src/lib.rs"; STAT="src/program/status.rs"; GOV="src/program/processor/governance.rs"
SEAT="src/program/processor/manage_seat.rs"; FEES="src/program/processor/fees.rs"; INIT="src/program/processor/initialize.rs"
OP="src/state/order_schema/order_packet.rs"; TS="src/state/trader_state.rs"; DISP="src/program/dispatch_market.rs"; QTY="src/quantities.rs"
MT="src/state/markets/market_traits.rs"; ACC="src/program/accounts.rs"; TOK="src/program/token_utils.rs"; INF="src/state/inflight_order.rs"
BI="src/program/instruction_builders/market_instructions.rs"; BA="src/program/instruction_builders/market_authority_instructions.rs"; SYS="src/program/system_utils.rs"
UNIT="The 31 stable tests call the matching engine on a handful of fixed books and never execute an instruction end to end"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
                   **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
VA="token balances of the market's vault accounts"; TSOBS="the per-trader locked/free balances stored in the market account"
BOOK="the bids and asks stored in the market account"; LOG="the event-log self-CPI data"; RES="the result of the instruction"; TOKB="token balances of the participants' accounts"
prop("C01","Vaults always hold exactly what the market owes",
 "After every instruction, the base vault holds exactly the sum of all traders' free and locked base, and the quote vault exactly the sum of all traders' free and locked quote plus the uncollected fees (each lot count times its lot size; tokens sent to a vault from outside stay as a constant surplus). No instruction sequence, whether its instructions succeed or fail, creates, loses or strands tokens owed to a trader or to the fee recipient.",
 [H,I,C],"every history of instructions by any set of traders and authorities, on every market size, lot size, tick size and fee rate",
 UNIT+"; conservation over long mixed histories of orders, fills, expiry, eviction, cancels, withdrawals, fee collection is never checked.",
 [FIFO,NEW,CAN,WD,DEP,FEES,TOK,TS],[("matching engine settles maker/taker lots",FIFO),("token transfers derived from the engine's response",NEW),("fee withdrawal",FEES)],[VA,TSOBS],
 [("locked/free lots","what the market owes each trader",TS),("unclaimed fees","quote lots owed to the fee recipient",FIFO)])
prop("C02","Locked funds are exactly what resting orders require",
 "After every instruction, each trader's locked quote equals the quote value of that trader's resting bids at their limit prices, and the trader's locked base equals the size of the trader's resting asks. Every resting order belongs to a trader registered on the market.",
 [H,I,C],"every history that posts, fills, reduces, cancels, expires or evicts orders",
 UNIT+"; drift between the book and the locked balances needs particular sequences (partial fill then cancel, expiry during matching, eviction, self-trade).",
 [FIFO,TS],[("lock/unlock on post, fill, reduce, expire, evict",FIFO),("TraderState lock/unlock helpers",TS)],[TSOBS,BOOK])
prop("C03","Takers match in strict price-time priority at the maker's price",
 "A taker order trades only with opposite resting orders whose price is at or better than its limit, best price first and, at equal prices, the order posted earliest first, each trade executing at the resting order's price, until its size, budget, match limit or the eligible liquidity is exhausted. A resting order that is partly filled keeps its price, identity and place in the queue, and orders not reached are untouched.",
 [H,I],"every book state and every taker order (swap, limit; bid, ask; base- or quote-sized; with and without a limit price or match limit)",
 UNIT+"; priority must hold for every book shape, including equal prices, partial fills, expired and own orders in between.",
 [FIFO,INF],[("match loop over the ordered book",FIFO),("order ids that order by price then time",FIFO)],[BOOK,LOG])
prop("C04","Takers never trade worse than their limit, budget or minimum fill",
 "An order never trades at a price worse than its limit price, never buys or sells more base than its size, never spends more quote (fee included) than its quote budget, and never uses more matches than its match limit. A swap either receives at least the minimum base (buy) or the minimum quote net of fees (sell), and a limit or fill-or-kill swap its stated requirements, or the instruction fails and nothing at all changes.",
 [H,I],"every book, every taker order parameter combination, every fee rate",
 UNIT+"; budgets interact with fees, rounding, self-trade and expiry in ways single examples cannot cover.",
 [FIFO,NEW,OP],[("budget adjustment for fees and min-fill checks",FIFO)],[TOKB,TSOBS,LOG,RES])
prop("C05","Taker fees are charged exactly and reach only the fee recipient",
 "Each taker order that trades pays one fee: the market's basis-point rate applied to its matched quote volume, rounded up to whole quote lots, added to the cost of a buy and deducted from the proceeds of a sell; makers pay nothing. Every fee charged is added to the uncollected fees, collection pays out exactly the uncollected amount to a token account of the recorded fee recipient exactly once, and total collected plus uncollected always equals all fees ever charged.",
 [H,I,C],"every fee rate from 0 to 10000 bps, every fill pattern, every interleaving of trading, collection and recipient changes",
 UNIT+"; rounding over multi-fill orders and collection end to end are not exercised.",
 [FIFO,FEES,GOV],[("fee computation with ceiling rounding",FIFO),("CollectFees",FEES)],[LOG,"collected/uncollected fee counters",TOKB])
prop("C06","The order book is never crossed and always well formed",
 "After every instruction, among orders not expired at the current slot and time, the best resting bid is strictly below the best resting ask. Both sides are sorted by price then age, every resting order has a positive price and size, and every order id identifies its side and is newer than every id assigned before it, so ids are never reused in the life of a market.",
 [H,I,C],"every history of orders, including ones that stop at a match limit, expire, self-trade or amend post-only prices",
 UNIT+"; crossing needs sequences where matching stops early or expired/own orders sit at the top of the book.",
 [FIFO,OP],[("cross check before posting",FIFO),("sequence number assignment",FIFO)],[BOOK])
prop("C07","Post-only orders never take liquidity",
 "A post-only order never trades with a resting order and never pays a fee. If its price would cross an unexpired opposite order it is rejected with no effect when rejection was requested, and otherwise is posted exactly one tick behind the best opposite price (or rejected if no positive price is left).",
 [H,I],"every book state and every post-only order, single or in a batch",
 UNIT+"; amend-versus-reject at the boundary prices with expired or own orders on top is not enumerated.",
 [FIFO,OP,NEW],[("crossing check and amend",FIFO)],[BOOK,LOG,RES])
prop("C08","Self-trades follow the requested behaviour and never fill",
 "A trader's order never trades with that trader's own resting order: when its match sequence reaches one, Abort makes the whole instruction fail with no effect, CancelProvide removes the resting order and returns its full lock to the trader, and DecrementTake reduces both by the smaller size, returning the lock and charging no fee on that part. A self-trade never changes the trader's total holdings.",
 [H,I],"every book with own orders interleaved among others' and every taker order of that trader",
 UNIT+"; only a few fixed self-trade layouts are tested.",
 [FIFO,INF,OP],[("self-trade branch of the match loop",FIFO)],[BOOK,TSOBS,LOG])
prop("C09","Expired orders never trade and refund their owner",
 "A resting order whose last valid slot or timestamp has passed never trades; when matching or a post-only check reaches it, it is removed, its whole lock returns to its owner's free balance, and an expiry event is logged. An order that is already expired on arrival has no effect on book or balances, and an order is still valid at exactly its last valid slot and time.",
 [H,I],"every clock progression, every combination of slot and timestamp limits",
 UNIT+"; time advancing between instructions is barely sampled.",
 [FIFO,OP],[("is_expired checks in matching and crossing",FIFO)],[BOOK,TSOBS,LOG])
prop("C10","Only the owner can cancel or reduce, with an exact refund",
 "A cancel or reduce instruction removes or shrinks only orders of its signer, exactly those selected (all; the first found up to the given counts within the tick limit and side; the listed ids; one id by the given size), and frees exactly the lock of what was removed. The freed amount, and nothing more, is sent to the signer's token accounts, or stays in the signer's free balance in the free-funds variants; ids that do not exist change nothing.",
 [H,I],"every book, every set of ids (missing, other traders', wrong side, duplicated), every selection limit",
 UNIT+"; cancel instructions are never executed end to end by the stable tests.",
 [FIFO,CAN,RED],[("cancel/reduce in the engine",FIFO),("withdrawal of freed funds",CAN)],[BOOK,TSOBS,TOKB,LOG])
prop("C11","A full book evicts only the worst order, only for a better one",
 "When a side of the book is full, a new order is posted only if its price is strictly more aggressive than that side's least aggressive order; then exactly that one order is removed and its entire lock is returned to its owner's free balance and an eviction is logged. Otherwise the new order is rejected with no effect, and no order is ever evicted while its side has room.",
 [H,I,C],"every book at or near capacity, on both sides",
 "One unit test fills a book with one pattern; which order is least aggressive, equal prices, the evicted owner being the poster, and the exact capacity boundary vary without limit.",
 [FIFO],[("least aggressive order lookup and eviction",FIFO)],[BOOK,TSOBS,LOG,RES])
prop("C12","Market status gates which actions are possible",
 "New orders trade only while the market is active; posting orders and depositing require an active or post-only market; reducing or cancelling with withdrawal and withdrawing work in every status from active to closed. An instruction the current status forbids fails and changes nothing, and the status itself never blocks a permitted one.",
 [H,I,C],"every instruction in every market status",
 "No stable test executes an instruction against a market account in a given status.",
 [STAT,LOAD,NEW,CHK],[("status predicates",STAT),("context loaders",LOAD)],[RES,BOOK,TOKB])
prop("C13","Only approved seats can post, and seat status follows its lifecycle",
 "A trader can place resting orders, deposit or trade with free funds only with an approved seat of its own on that market. Seats are created unapproved, once per trader and market, at the seat's derived address; only the market authority changes a seat's status, only along not-approved to approved, approved to not-approved, and either to retired; approval registers the trader on the market.",
 [H,I],"every sequence of seat requests and status changes and every instruction that needs a seat",
 "Seat instructions are not executed by any stable test.",
 [SEAT,CHK,LOAD],[("seat account checks",CHK),("status transition table",SEAT)],[RES,"seat account data","registered traders"])
prop("C14","Only the authority administers a market; handover is two-step",
 "Changing market or seat status, forced cancels and evictions, authorized seat requests, naming a successor and changing the fee recipient succeed only when signed by the market's current authority; the authority changes only when the named successor claims it. Changing the fee recipient while fees are uncollected also needs the current recipient's signature, and every such instruction changes only what it names.",
 [H,I],"every signer for every administrative instruction, over histories of succession and recipient changes",
 "Administrative instructions are not executed by any stable test.",
 [GOV,FEES,CHK,LOAD,SEAT],[("authority context",LOAD),("successor claim",GOV)],[RES,"market header"])
prop("C15","Market status moves only along the lifecycle; deletion strands nothing",
 "A market starts post-only and its status changes only along the documented transitions: active to post-only or paused; post-only to active, paused or closed; paused to active, post-only or closed; closed to post-only, paused or tombstoned (restating the current status is allowed). A market can be tombstoned only when closed with empty books, no registered traders and no uncollected fees, and its rent then goes to the authority (or the receiver it names), after which no instruction can use it.",
 [H,I],"every sequence of status changes interleaved with trading, seats and fees",
 "Market status changes are not executed by any stable test.",
 [STAT,GOV],[("transition table",STAT),("tombstone checks",GOV)],[RES,"market header","lamports"])
prop("C16","The event log reconstructs every book and balance change",
 "Each successful instruction emits, through authenticated self-calls, log batches whose header names the instruction, market, signer, slot, time and a market sequence number that grows by exactly one per instruction; event indices are contiguous across batches, and every batch's event count matches its content and fits the call-size limit. Replaying logged place, fill, reduce, evict and expiry events from an empty book always gives exactly the current book, and the fill summary states the exact totals and fee of the taker order.",
 [H,I],"every history, including instructions with enough events to need several batches",
 "The stable tests check a few event fields in memory; serialization, batching, sequence numbers and reconstructability over histories are untested.",
 [REC,EV,LIB,FIFO],[("event recorder batching",REC),("event conversion",EV)],[LOG,BOOK])
prop("C17","Substituted accounts are rejected",
 "An instruction in which any expected account is replaced (another market's or trader's vault, token account, mint, seat, market, log authority, token program, fee account, or a look-alike account of the wrong owner, size or type) or in which a required signature is missing is refused by the program itself (it does not go ahead until the runtime stops it), or moves no tokens and no authority except between the accounts that genuinely belong to that market and its signer. It never debits a party that did not sign, and never credits a trader from or to another market's vault.",
 [I,H],"every instruction, every account position, every plausible substitute account",
 "Account validation is not executed by any stable test.",
 [LOAD,CHK,TCHK,ACC,"src/program/validation/checkers/mod.rs"],[("account loaders and checkers",LOAD)],[RES,TOKB,"market header"])
prop("C18","Order packet encoding is unambiguous and backward compatible",
 "Every order packet decodes back to itself from its encoding, and an encoding that omits the trailing optional time-in-force and silent-failure fields decodes to the same order with those fields unset. A byte string is accepted only if it, or it with one to three zero bytes appended, is exactly one complete encoding; anything else (extra bytes, invalid tags, deeper truncation) is rejected.",
 [I],"every packet of every kind and every byte string",
 "Unit tests decode a few fixed packets.",
 [OP],[("decode_order_packet",OP)],["return value of the decoder",RES])
prop("C19","Batch placement equals placing each order once, or changes nothing",
 "A multi-order placement posts every listed order at its price and size (identical consecutive terms may merge into one order of the summed size), bids and asks, as post-only orders with the batch's client id, collects exactly the missing funds once per currency, and is rejected if its own bids and asks cross. If any order fails the whole batch has no effect, except that with a skip option an order that the trader's remaining funds cannot cover is left out and the rest are placed.",
 [H,I],"every batch of bids and asks, funded or not, against every book",
 "Batch placement is not executed by any stable test.",
 [NEW],[("process_multiple_new_orders",NEW)],[BOOK,TOKB,TSOBS,RES])
prop("C20","Deposits, withdrawals and order funding settle exactly",
 "A deposit credits exactly the deposited lots and debits exactly that many tokens; a withdrawal pays exactly the lesser of the amount requested and the free balance; a registered trader's order uses its free funds first, draws only the shortfall from its token account, and pays out swap proceeds exactly. Free-funds variants move no tokens at all and fail without effect when free funds do not suffice.",
 [H,I,C],"every balance split between free funds and wallet, every order, deposit and withdrawal",
 "Token settlement is not executed by any stable test.",
 [NEW,WD,DEP,FIFO,TOK],[("lots in/out of the matching engine response",FIFO),("try_deposit/try_withdraw",TOK)],[TOKB,TSOBS,VA])
prop("C21","Market creation validates parameters and binds the vaults",
 "A market can be created only on a fresh program-owned account large enough for supported size parameters, with lot and tick sizes that are positive and divide evenly into the raw units, and a fee of at most 10000 bps; it starts with empty books, no traders, no fees, the given fee recipient, and the signer as authority. Its vaults are created at addresses derived from market and mint, owned by themselves, and prices, lots and ticks convert exactly; an already initialized market can never be re-initialized.",
 [I,C],"every parameter combination, mint decimals and account state, vault addresses pre-funded or not",
 "Market creation is not executed by any stable test.",
 [INIT,SYS,CHK,LOAD,ACC],[("process_initialize_market",INIT),("create_account",SYS)],[RES,"market header","vault accounts"])
prop("C22","Arbitrary instruction bytes cannot corrupt a market",
 "For any instruction tag and any data bytes, well-formed or not, sent with any signer's accounts, the instruction either fails with no effect or leaves the market in a valid state: vaults exactly cover obligations, locks match orders, the book is uncrossed, and nothing is taken from traders who did not sign. Malformed data (unknown tags, truncated or invalid fields) is always rejected.",
 [I,H],"every byte string as instruction data against every market state, extreme integer values included",
 "No stable test executes instructions from raw bytes; extreme amounts and overflow boundaries are unexplored.",
 [LIB,NEW,CAN,OP,FIFO,QTY],[("checked arithmetic and decoding",LIB),("quantity newtypes",QTY)],[RES,VA,TSOBS,BOOK])
prop("C23","Ladder views agree with the book",
 "The price ladder of a market lists, for each side, the best price levels in order, each with exactly the total size of the resting orders at that price, up to the requested depth; the expiry-aware ladder counts exactly the orders still valid at the given slot and time. Conversions between ticks, lots, atoms and units are exact and consistent with how trades settle.",
 [H,I,C],"every book, depth, slot and time",
 "A few fixed ladders are tested.",
 [MT,FIFO,ACC,QTY],[("ladder aggregation",MT),("price conversion",ACC)],["return value of the view functions"])
prop("C24","Returned order ids identify exactly the orders that were posted",
 "An instruction that places orders returns exactly the ids of the orders it left resting on the book, in placement order, and nothing when none rests; each id refers to an order owned by the signer with the stated side, price, remaining size, expiry, and the place event with the given client order id. Such an id can be cancelled by its owner in a later instruction.",
 [H,I],"every placement instruction and outcome (fully filled, partly filled, merged, skipped, evicting)",
 "Return data is not read by any stable test.",
 [LIB,NEW,FIFO],[("order id collection and set_return_data",LIB)],["instruction return data",BOOK,LOG])
prop("C25","Instruction builders produce exactly the instruction they name",
 "For all parameters, the transaction-building helpers produce an instruction that the program accepts from the accounts it names whenever that action is permitted, with the signer and writable flags it needs, and whose effect is exactly the requested action on the requested market, with the requested accounts.",
 [I,C],"every builder and every parameter value",
 "Builders are used only by the integration tests, which cannot run here.",
 [BI,BA],[("instruction builders",BI)],[RES,BOOK,TOKB])
prop("C26","Bystanders and other markets are unaffected",
 "Apart from trades at its own resting price, expiry refunds, full-book eviction refunds and actions of the market authority on its seat, no instruction changes the orders, locked or free funds, tokens or seat of a trader who did not sign it. No instruction on one market changes any account of another market, and a maker filled for n lots receives exactly the counterpart value at its own price.",
 [H,I],"every history of interleaved traders on two markets sharing mints",
 UNIT+"; cross-market and bystander effects are never checked.",
 [FIFO,LOAD,CAN],[("per-trader state indexing",FIFO),("account validation",LOAD)],[TSOBS,BOOK,TOKB])
prop("C27","Forced cancel and eviction return everything to the trader",
 "A forced cancel or eviction by the authority works only on a trader whose seat is not approved; a forced cancel pays exactly the cancelled orders' locks and an eviction pays the entire free balance, always to that trader's own token accounts, and a trader is removed only when nothing is left locked. A removed trader has no balance, order or slot left, and can be seated again later with an empty balance; voluntary withdrawals never remove a trader.",
 [H,I],"every seat history, order set and balance of the evicted trader, including a full trader table",
 "Forced cancel and eviction are not executed by any stable test.",
 [WD,CAN,FIFO,LOAD],[("evict_seat",WD),("authorized action context",LOAD)],[TOKB,TSOBS,BOOK])
prop("C28","All supported market sizes behave identically",
 "The same history of instructions has the same results, fills, balances, events and ids on every supported market size, as long as no capacity limit is reached. Each supported size accepts at least its advertised number of bids, asks and traders before any capacity limit takes effect, and unsupported sizes are rejected.",
 [C,H],"every supported size and every history",
 "The stable tests use one or two sizes and never go through the size dispatch.",
 [DISP,FIFO],[("size dispatch",DISP)],[RES,BOOK,TSOBS,LOG])
prop("C29","Log records can only come from the program itself",
 "The log instruction is refused, whatever accounts, data and other signatures accompany it, unless the program's own log authority signed it, which only the program's self-calls can do; so no outsider can publish a log record, genuine or forged. An instruction that names any other account as the program or as the log authority is refused, and every successful instruction publishes at least one record.",
 [I,H],"every log call an outsider can make, with every account list, signature set and payload, at any point of a history",
 "No stable test goes through the instruction processor, so the log instruction is never called.",
 [LIB,LOAD,REC],[("log authority check",LIB),("log context",LOAD)],[RES,LOG])
prop("C30","Traders can always get out in full",
 "From every reachable state of a market, in any status, each registered trader can, by its own signature alone and by any of the cancel and withdraw routes, cancel all of its orders however many there are and withdraw everything the market recorded for it, locked and free, regardless of who else leaves and in what order. Once everyone has left the books are empty and the vaults hold exactly the uncollected fees, which can be paid out, besides tokens that strangers sent.",
 [H,I],"every history, market status, order of leaving and exit route",
 "Unit tests cancel a handful of orders of one trader and never move tokens.",
 [CAN,WD,FIFO,LOAD],[("cancel paths",CAN),("withdrawal",WD),("claiming funds",FIFO)],[RES,TOKB,TSOBS,BOOK])
IDL="idl/phoenix_v1.json"; ERR="src/program/error.rs"; INS="src/program/instruction.rs"
prop("C31","The published interface description matches the program",
 "Every instruction encoded as the published IDL describes it (discriminant, account list with signer and writable flags, argument types; plus optional trailing accounts, and a writable authority where it receives a deleted market's rent) is understood by the program as exactly the request it names, and is accepted whenever that request is permitted. Every log batch, market header and seat account reads completely by the IDL's types with every field in its place, and the program's error codes are those the IDL lists.",
 [H,I],"every instruction with every argument value, every log batch and every reachable account state",
 "Nothing in the tests reads the IDL, and clients are generated from it.",
 [IDL,INS,EV,ACC,ERR,NEW,RED,CAN],[("instruction tags",INS),("event types",EV),("account layouts",ACC)],[RES,LOG,BOOK])
prop("C32","Results do not depend on keys, seating, idle traders or the market's past",
 "The same history of requests has the same outcomes, fills, fees, payouts, balances, books and evictions whatever the parties' and accounts' keys are, in which order the traders were seated and how many idle traders are registered, as long as no capacity is reached. It has the same results whatever the market processed before (orders placed and gone, order numbers and log numbers used up) and at whatever slot and time it starts, order ids and expiries being shifted accordingly.",
 [H,C],"every history, every assignment of keys, every seating, every number of idle traders, every past and starting time",
 "The stable tests use one or two traders, small order numbers and slot 0, where an index, number or time cut short still fits.",
 [FIFO,NEW,CAN,WD,LOAD],[("trader indices in resting orders",FIFO),("order sequence numbers",FIFO),("expiry comparison",FIFO)],[RES,BOOK,TSOBS,TOKB,LOG])
prop("C33","What a market does depends only on the contents of its account",
 "A market account that carries given header fields, parameters, counters, orders and trader balances in the established byte layout behaves the same whoever wrote it and however its tables are arranged: whatever node each order and trader occupies, whatever shape the trees have, and whatever the freed nodes and unused bytes hold from before. Every instruction then has the same outcome, events, ids, payouts and contents as on the account that the program filled itself, so accounts written by earlier builds keep working.",
 [H,C],"every reachable contents, every valid arrangement of the tables, every later history",
 "The stable tests only see tables freshly filled by the code under test, so state hidden elsewhere or a moved field goes unnoticed.",
 [FIFO,TS,ACC,MT],[("market struct and order layout",FIFO),("trader state layout",TS),("header layout",ACC)],[RES,BOOK,TSOBS,TOKB,LOG])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for p in P:
            assert len(p["title"])<=80,(p["id"],len(p["title"]))
            assert p["statement"].count(". ")<=2,(p["id"],)
            f.write(json.dumps(p)+"\n")
    print(len(P))
