#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, obs, state=None):
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=obs, hook_needed=None)))

BALST = [("balances row", "settled and inflight credit, debit and net amounts, version", "blnk.balances"),
         ("transactions row", "immutable journal entry with status, parent and precise amount", "blnk.transactions")]

p("C01", "Every posting is an exact double entry",
  "Posting a transaction raises the source's debits and the destination's credits by exactly its precise amount (in the settled or the inflight columns according to its kind) and changes no other balance. Every balance therefore always equals credits minus debits, and the amounts of all balances of a currency sum to zero at every committed point. A rejected or failed transaction changes no balance.",
  ["histories", "inputs"],
  "Every sequence of accepted and refused operations (direct, queued, split, inflight, partial commit, void, refund, bulk, overdraft), every amount and precision.",
  "The tests post a handful of fixed transactions and read two balances; the equation is over every committed state of every history.",
  ["transaction_execution.go", "model/balance.go", "model/transaction.go", "database/transaction.go", "database/balance.go", "transaction_inflight.go"],
  [("balance arithmetic", "model/balance.go UpdateBalances/CommitInflight*/RollbackInflight*"), ("one SQL transaction per posting", "database/transaction.go RecordTransactionWithBalancesAndOutbox")],
  ["committed row changes of balances and transactions", "GET /balances/:id"], BALST)

p("C02", "No debit exceeds available funds or the overdraft limit",
  "A transaction without overdraft permission is applied or held only if the source's settled balance less its outstanding holds covers the amount at the moment it is committed; with an overdraft limit the source's resulting position never goes below minus the limit. A transaction refused for this reason reports it and leaves balances untouched. With queued checks enabled, amounts already queued against the source also count as spent.",
  ["histories", "schedules", "inputs"],
  "Every history and interleaving of debits, holds, commits and voids on shared balances, every amount, limit and overdraft flag.",
  "Tests check single debits against static balances; the bound has to hold at commit time under every interleaving and on the exact boundary values.",
  ["model/balance.go", "model/transaction.go", "transaction_execution.go", "database/balance.go", "transaction_coalescing.go"],
  [("funds check", "model/balance.go canProcessTransaction"), ("locks and version check", "transaction_execution.go / database/balance.go updateBalance")],
  ["committed balance rows", "HTTP status of the refused call"], BALST)

p("C03", "A reference is posted at most once",
  "However often and however concurrently transactions carrying the same reference are submitted, at most one of them ever moves money. Every later submission is refused (or recorded without effect) and leaves balances unchanged.",
  ["schedules", "histories"],
  "All sequences and interleavings of submissions with equal references, over the direct, queued, bulk and worker paths, including redelivery of queued work.",
  "Tests submit one duplicate after the first has finished; they do not race submissions or mix paths.",
  ["transaction_execution.go", "transaction_queue.go", "database/transaction.go", "cmd/workers.go", "transaction_coalescing.go"],
  [("reference check", "transaction_execution.go validateTxn"), ("unique index on reference", "sql migrations"), ("duplicate handling in the worker", "cmd/workers.go processTransaction")],
  ["transactions rows by reference", "balances"], BALST)

p("C04", "A posting is all-or-nothing under crashes and database faults",
  "If the process dies or the database fails at any point while a transaction is being posted, then afterwards either the transaction row and all its balance changes are durable or none of them are. Submitting the same transaction again then completes it exactly once.",
  ["crash_points", "fault_sequences"],
  "Every statement of every posting path (direct, inflight, commit, void, refund, coalesced batch, bulk) as the point of death or of a database error.",
  "No test stops the process or fails a statement in the middle of a posting.",
  ["database/transaction.go", "database/transaction_coalescing.go", "database/balance.go", "transaction_execution.go"],
  [("single SQL transaction with rollback", "database/transaction.go RecordTransactionWithBalancesAndOutbox"), ("batched form", "database/transaction_coalescing.go")],
  ["committed row changes", "state after restart and resubmission"], BALST)

p("C05", "Concurrent postings never lose an update, with or without the lock",
  "Transactions posted concurrently from any number of processes leave balances equal to executing the successful ones one after another in commit order. This holds even if a process's balance lock expires or is lost while it works: a posting computed from an outdated balance is refused rather than written.",
  ["schedules"],
  "All interleavings of postings, holds, commits and voids on shared balances at statement granularity, including lock expiry at any point.",
  "Tests run operations one at a time; the stale-read window needs a chosen interleaving and an expired lock.",
  ["transaction_execution.go", "internal/lock/lock.go", "database/balance.go", "database/transaction_coalescing.go"],
  [("distributed lock", "internal/lock"), ("optimistic version check", "database/balance.go updateBalance")],
  ["committed balance rows with versions", "returned statuses"],
  BALST + [("version", "row version incremented by each update", "blnk.balances.version")])

p("C06", "An inflight hold is settled or released for at most its amount",
  "The amounts committed from an inflight transaction never total more than its amount, a void releases exactly the uncommitted remainder, and after a void or a full commit nothing further is committed or released. This holds for partial commits, repeated requests and concurrent commits and voids, and each refused action leaves the hold untouched.",
  ["histories", "schedules", "inputs"],
  "All sequences and interleavings of commit, partial commit, void, expiry and retried actions on a hold, all amounts.",
  "Tests commit or void once or twice in sequence; over-commit needs concurrent or repeated partial actions.",
  ["transaction_inflight.go", "database/transaction_inflight.go", "model/balance.go", "cmd/workers.go", "api/transactions.go"],
  [("commit/void lock and remaining-amount check", "transaction_inflight.go"), ("idempotent action references", "transaction_inflight.go RunInflightActionByParent")],
  ["child transactions of the hold", "inflight columns of both balances"], BALST)

p("C07", "A refund reverses its transaction exactly once",
  "A refund moves the refunded transaction's exact amount back from its destination to its source. However often, and however concurrently, a refund of the same transaction is requested, it is reversed at most once, and a refused refund request moves no money. Only applied or voided transactions can be refunded.",
  ["histories", "schedules"],
  "All sequences and interleavings of refund requests over direct, queued, inflight-committed, bulk and already refunded transactions.",
  "Tests refund once, or check an error code after a second request without looking at all balances.",
  ["transaction_refunds.go", "database/transaction_refunds.go", "database/transaction_queries.go", "api/transactions.go"],
  [("refund lock and already-refunded check", "transaction_refunds.go"), ("refundable set query", "database/transaction_refunds.go")],
  ["refund rows", "balances before and after"], BALST)

p("C08", "An atomic bulk request takes effect wholly or not at all",
  "When a bulk request marked atomic fails at any member, every member that had already taken effect is reversed or released, so that once pending work has run all balances are as before the request. When it succeeds every member has its full effect exactly once. A non-atomic batch stops at the failing member and keeps the earlier ones.",
  ["histories", "inputs"],
  "All batch shapes up to the bound: sizes, failing positions and failure reasons, inflight or not, queued or direct, shared balances between members.",
  "Tests use one or two fixed batches and check the error message rather than every balance.",
  ["transaction_bulk.go", "transaction_refunds.go", "transaction_inflight.go", "api/transactions.go"],
  [("rollback of a failed batch", "transaction_bulk.go")],
  ["balances and member statuses after the request and after the queue drained"], BALST)

p("C09", "A split distributes exactly the transaction's amount",
  "A transaction with several sources or destinations posts legs whose amounts follow the given percentages and fixed amounts, are never negative, and sum exactly to the transaction's amount, with any rounding remainder assigned to one leg. A distribution that asks for more than the amount, or for none of it, is refused and moves nothing; what a distribution leaves over goes to one of its legs.",
  ["inputs"],
  "All distributions up to the bound: number of legs, fixed, percentage and remainder legs, amounts that do not divide evenly, all precisions.",
  "Tests check a few round numbers; rounding loss appears only for amounts and percentages that do not divide.",
  ["model/transaction.go", "transaction_queue.go", "transaction_execution.go"],
  [("distribution arithmetic", "model/transaction.go CalculateDistributionsPrecise/SplitTransactionPrecise")],
  ["legs persisted or enqueued", "balances"], BALST)

p("C10", "Every accepted queued transaction gets exactly one outcome",
  "A transaction accepted for asynchronous processing is, once the queue has drained, either applied (or held) exactly once or rejected exactly once with a recorded reason, never both and never neither. This holds when its task is delivered more than once, delivered concurrently to two workers, or when a worker dies at any point and the task is redelivered.",
  ["schedules", "crash_points", "histories", "fault_sequences"],
  "All redeliveries, worker deaths at every statement, concurrent deliveries and retry counts, for every mix of transactions that succeed or fail.",
  "Tests deliver a task once, or twice in sequence.",
  ["cmd/workers.go", "transaction_queue.go", "queue.go", "transaction_rejection.go", "transaction_execution.go", "transaction_coalescing.go"],
  [("duplicate reference treated as done", "cmd/workers.go"), ("rejection", "transaction_rejection.go"), ("task ids and retries", "queue.go")],
  ["children of each queued transaction", "balances", "queue contents"], BALST)

p("C11", "Coalesced processing equals one-by-one processing",
  "Processing a group of queued transactions together gives the same set of outcomes and final balances as processing them one at a time in some order consistent with the funds rule, and each member is committed at most once. If the group cannot be committed together every member is still processed individually.",
  ["inputs", "histories", "crash_points"],
  "All groups up to the bound over shared balances: mixes of sufficient and insufficient funds, holds, duplicates already posted, self-conflicting members, and failure of any statement of the group commit.",
  "Tests mock the batch insert; they do not compare the grouped and the sequential outcome on real balances.",
  ["transaction_coalescing.go", "database/transaction_coalescing.go", "queue.go", "cmd/workers.go"],
  [("in-memory sequential apply, one grouped commit", "transaction_coalescing.go"), ("fallback to single processing", "cmd/workers.go")],
  ["transactions and balances after the drain"], BALST)

p("C12", "Stuck queued transactions are recovered, once, and never overtaken",
  "A transaction left queued without an outcome for longer than the threshold is re-enqueued or completed by recovery, so that it ends applied or rejected exactly once even if its original task still runs. Recovery touches no transaction that is younger than the threshold, is scheduled for later, or already has an outcome, and gives up with a rejection after the bounded number of attempts.",
  ["histories", "schedules", "crash_points"],
  "All ages, statuses, attempt counts, and interleavings of recovery with the original task.",
  "Tests call recovery on single crafted rows.",
  ["queue_recovery.go", "database/transaction_recovery.go", "transaction_queue.go"],
  [("stuck query", "database/transaction_recovery.go"), ("attempt bound and duplicate handling", "queue_recovery.go")],
  ["rows touched", "tasks enqueued", "balances"], BALST)

p("C13", "Scheduled, expiring and auto-committing work happens at its time",
  "A transaction scheduled for a later time is not applied before that time, and is applied once the time has come and the queue is served. An inflight transaction with an expiry is released at, and not before, its expiry if still open, and one with a commit date is committed at, and not before, that date. Each of these acts at most once and only on what is still uncommitted.",
  ["inputs", "histories", "schedules"],
  "All combinations of schedule, expiry and commit dates in the past and future with manual commits and voids in between, over the direct, queued and bulk paths.",
  "Tests check that a task was enqueued, not when it becomes due and what it does after other actions.",
  ["queue.go", "transaction_queue.go", "transaction_inflight.go", "cmd/workers.go", "transaction_execution.go"],
  [("delayed tasks", "queue.go Enqueue/queueInflightExpiry/queueInflightCommit"), ("handlers", "cmd/workers.go")],
  ["due times of enqueued tasks", "effects of running them"], BALST)

p("C14", "Distributed locks exclude, are owned, and are all-or-nothing",
  "At any time at most one holder holds a given lock key within its time to live, and only the holder can release or extend it, also after the key expired and was taken by someone else. Acquiring several locks acquires all of them or leaves none behind, in an order in which no two requesters can deadlock.",
  ["schedules", "histories", "fault_sequences"],
  "All sequences and interleavings of acquire, wait, extend, release, expiry and multi-key acquire over several clients and keys, and a Redis error at any command.",
  "Tests acquire and release single locks in sequence.",
  ["internal/lock/lock.go"],
  [("SETNX with owner value", "internal/lock/lock.go"), ("compare-and-delete script", "internal/lock/lock.go"), ("sorted multi-lock with rollback", "internal/lock/lock.go")],
  ["keys and values in Redis", "results of the lock calls"])

p("C15", "A balance at a past time is the sum of the history up to then",
  "The balance reported for a past instant equals the sum of the applied transactions effective at or before that instant, for every instant and balance. The answer is the same whether it is computed from snapshots or from the source transactions, whenever snapshots were taken, and unaffected by inflight, queued, rejected or void entries.",
  ["histories", "inputs"],
  "All histories of postings with past and present effective dates, snapshots taken at any moments, every query instant including the boundaries.",
  "Tests query one or two instants with mocked rows.",
  ["database/balance.go", "balance.go", "api/balance.go", "sql"],
  [("snapshot plus delta query", "database/balance.go GetBalanceAtTime"), ("snapshot function", "sql migrations take_daily_balance_snapshots")],
  ["GET /balances/:id/at with and without from_source"],
  BALST + [("balance_snapshots", "daily copies of balances", "blnk.balance_snapshots")])

p("C16", "Fund lineage conserves every provider's money",
  "For a lineage-tracked balance the money attributed to each provider equals what the provider funded minus what was spent from it, is never negative, and every spend is drawn from providers in the order of the balance's allocation strategy without drawing more than the spend. Attribution follows a spend to a tracked destination.",
  ["histories", "inputs"],
  "All sequences of provider credits and spends up to the bound over tracked and untracked balances, every allocation strategy, every amount, direct and inflight.",
  "Tests allocate over one fixed set of sources; conservation is over whole histories and across balances.",
  ["lineage.go", "lineage_allocation.go", "lineage_credit.go", "lineage_debit.go", "lineage_shadow.go", "lineage_processing.go", "lineage_queries.go"],
  [("allocation", "lineage_allocation.go"), ("shadow postings", "lineage_credit.go, lineage_debit.go")],
  ["shadow balances", "GET /balances/:id/lineage"],
  BALST + [("lineage mappings", "provider to shadow balance", "blnk.lineage_mappings"), ("lineage outbox", "work left to do", "blnk.lineage_outbox")])

p("C17", "Lineage work survives crashes and is applied exactly once",
  "Lineage work is recorded together with the transaction that causes it and is eventually applied in full exactly once, even if the worker dies or the database fails at any point and the work is retried, or two workers process the outbox at the same time.",
  ["crash_points", "fault_sequences", "schedules"],
  "A crash or fault at every statement of processing, followed by retries, and all interleavings of two workers.",
  "Tests process entries without failures in the middle.",
  ["lineage_outbox.go", "lineage_worker.go", "database/lineage.go", "lineage_credit.go", "lineage_debit.go"],
  [("transactional outbox", "database/transaction.go"), ("claim with skip locked and retry", "database/lineage.go")],
  ["outbox rows", "shadow balances"],
  [("lineage outbox", "pending work", "blnk.lineage_outbox")])

p("C18", "The transaction hash chain exposes any tampering",
  "Every settled transaction is eventually linked exactly once into a gap-free hash chain, also when several chain workers run or die midway. Verification passes on an untouched ledger and fails after any change to a chained transaction's sealed content (its identifier, balances, amounts, currency, status, reference and creation time), removal of chained transactions anywhere including the end, insertion, or reordering.",
  ["histories", "crash_points", "schedules", "inputs"],
  "All small ledgers, every field of every chained row as tampering target, every removed subset, crash at each statement of chaining, two concurrent chainers.",
  "Tests tamper one or two fields of one row with mocked queries.",
  ["database/chain.go", "chain_worker.go", "cmd/verify_chain.go"],
  [("chain hash and state row lock", "database/chain.go")],
  ["VerifyChain result", "chain columns"],
  [("chain_state", "last sequence and hash", "blnk.chain_state")])

p("C19", "A dry run changes nothing and predicts the real outcome",
  "A dry run of a transaction, bulk request, refund or inflight action leaves the stored state and the queues exactly as they were. Its predicted acceptance and resulting balances equal what the same request does when executed in that state.",
  ["inputs", "histories"],
  "Every reachable small ledger state and every request shape (funds, limits, inflight, refunds, partial commits, bulk with shared balances).",
  "Tests preview a few requests and do not execute the same request afterwards to compare.",
  ["transaction_dryrun.go", "transaction_dryrun_bulk.go", "transaction_dryrun_inflight.go", "api/transactions.go"],
  [("projection on cloned balances", "transaction_dryrun.go")],
  ["all tables and queues before and after", "preview versus real response"], BALST)

p("C20", "A balance monitor fires exactly when its condition holds",
  "After a posting changes a balance, a notification is sent for each monitor of that balance whose condition holds on the resulting balance, and for no other. Creating, changing or deleting a monitor takes effect for the next posting.",
  ["inputs", "histories"],
  "All fields and operators, values around the threshold, and all histories of monitor creation, update, deletion and postings.",
  "Tests check operators on a struct, not the notifications over a history of edits.",
  ["balance.go", "model/balance.go", "database/balance.go", "api/balance.go"],
  [("condition check", "model/balance.go CheckCondition"), ("monitor lookup and cache", "balance.go, database/balance.go")],
  ["webhook tasks enqueued"], [("balance_monitors", "conditions", "blnk.balance_monitors")])

p("C21", "A request is served only with authority for its resource and action",
  "With security enabled a request is served only if it carries the master key or a valid API key whose scopes grant the request's action on the request's resource; every other request is refused without effect, for every route. Reading needs read, creating and changing need write, and deleting needs delete authority.",
  ["inputs", "configurations"],
  "Every route and method of the API with every scope set shape (exact, wildcard resource, wildcard action, none) and every kind of credential.",
  "Tests try a few routes and scopes.",
  ["api/middleware/auth.go", "api/api.go", "apikey.go", "model/api_key.go"],
  [("authentication and scope check", "api/middleware/auth.go")],
  ["HTTP status of every route", "state after refused requests"])

p("C22", "Only live API keys authenticate, and only owners revoke them",
  "A key authenticates from its creation until it is revoked or expires, and never after; a revocation takes effect at once for the process that performed it. Only the owner can revoke a key, a key cannot hand out authority or keys for other owners, and the stored form does not contain the secret.",
  ["histories", "inputs"],
  "All sequences of create, use, list, revoke (by owner or other) and expiry over several keys and owners.",
  "Tests check a single revoke without prior use, missing caches.",
  ["apikey.go", "database/api_key.go", "api/apikeys.go", "api/middleware/auth.go", "model/api_key.go"],
  [("hash comparison, cache and revocation", "database/api_key.go")],
  ["HTTP status with the key", "api_keys rows"], [("api_keys", "hashed keys", "blnk.api_keys")])

p("C23", "Filtering and paging return exactly the matching records",
  "A filtered listing returns exactly the records that satisfy all conditions (or any, when combined with or), in the requested order, and walking the pages visits each matching record exactly once. Filter values are only ever data: no value can change which condition is evaluated.",
  ["inputs"],
  "All operators, field types, combinations of conditions, sort orders, page sizes, metadata fields and hostile values up to the bound, for every filterable entity.",
  "Tests compare generated SQL strings for a few filters rather than the rows returned.",
  ["internal/filter", "database/transaction_filters.go", "database/balance.go", "database/ledger.go", "database/identity.go", "database/account.go", "api/filter_helper.go"],
  [("filter parser and SQL builder", "internal/filter")],
  ["POST /{entity}/filter and GET with filter parameters"])

p("C24", "Identity tokenization hides and faithfully restores data",
  "Tokenizing an identity field replaces the stored value with a token that does not contain it and detokenizing returns exactly the original, for every value and every tokenizable field. Tokenizing twice is refused and other fields are untouched, and detokenizing an untokenized field never returns something else than its value.",
  ["inputs", "histories"],
  "All tokenizable fields and subsets, values of every length and alphabet, both token styles, all sequences of tokenize and detokenize.",
  "Tests round-trip a few ASCII values.",
  ["identity.go", "internal/tokenization", "api/identity.go", "database/identity.go"],
  [("tokenization service", "internal/tokenization"), ("bookkeeping of tokenized fields", "identity.go")],
  ["identity rows", "HTTP responses"])

p("C25", "Reconciliation matches only what its rules allow",
  "A reconciliation matches an external record with an internal one only if every criterion of some given rule holds within its stated tolerance, and it counts each external record as matched or unmatched, never both. A dry run stores no matches and leaves internal transactions alone.",
  ["inputs"],
  "All small sets of external and internal records and rules with all operators and tolerances, for each strategy.",
  "Tests try one criterion at a time on crafted pairs.",
  ["reconciliation.go", "database/reconciliation.go", "model/reconciliation_model.go"],
  [("matching rules and strategies", "reconciliation.go")],
  ["reconciliation, matches rows and counters"])

p("C26", "Metadata updates merge and never lose unrelated keys",
  "Updating metadata of an entity sets exactly the given keys and keeps every other key, for ledgers, balances, identities, transactions and bulk batches with their members. Amounts, statuses and other attributes are unaffected.",
  ["inputs", "histories"],
  "All entity kinds and all sequences of updates with overlapping and disjoint keys and nested values.",
  "Tests update one key once.",
  ["metadata.go", "database/metadata.go", "api/metadata.go"],
  [("merge", "metadata.go, database/metadata.go")],
  ["meta_data columns and responses"])

p("C27", "Amounts keep exact value through every representation",
  "The precise amount recorded for a transaction equals its decimal amount times its precision exactly whenever that is an integer, a given precise amount is used unchanged, and neither loses digits at any magnitude, in storage, in queued tasks and in balances.",
  ["inputs"],
  "All amounts and precisions up to the bound including values beyond 2^53 and 2^63, given as amount or as precise amount, over the direct, queued, inflight and coalesced paths.",
  "Tests use small two-decimal amounts.",
  ["model/transaction.go", "transaction_queue.go", "database/transaction.go", "database/transaction_coalescing.go", "api/model"],
  [("precision arithmetic", "model ApplyPrecision"), ("big integers in SQL and JSON", "database/transaction.go")],
  ["precise_amount columns, balances, responses"], BALST)

p("C28", "Webhooks are signed and retried until accepted",
  "With a receiver configured, every outcome of a transaction (applied, held, voided, rejected), every end of an asynchronous batch and every new ledger, identity and balance produces exactly one notification, however often the work was tried, carrying the event and the record with every digit of its amounts, signed so that the receiver can verify body and timestamp with the shared secret. A delivery not answered with a 2xx code is retried, and work that did not happen produces no notification.",
  ["histories", "fault_sequences", "inputs"],
  "All event kinds and payloads, every response code and transport failure, any sequence of failures.",
  "Tests deliver one payload to a mock and check one code.",
  ["webhooks.go", "cmd/workers.go", "transaction_execution.go"],
  [("signature and error on refusal", "webhooks.go")],
  ["requests received, task outcome"])

p("C29", "An indicator names one balance per currency",
  "An indicator resolves to one and the same balance for a given currency, created on first use, for every path and however many requests use it first at the same time; different currencies or indicators never share a balance.",
  ["schedules", "inputs", "histories"],
  "All interleavings of first uses over several indicators and currencies.",
  "Tests resolve an indicator sequentially.",
  ["balance.go", "transaction_execution.go", "database/balance.go"],
  [("get-or-create with unique index", "balance.go getOrCreateBalanceByIndicator")],
  ["balances rows by indicator"], BALST)

p("C30", "Queue routing preserves order per source and finds hot pairs",
  "All queued transactions with the same source go to the same queue, within the configured number of queues, and are served in the order they entered it. A source and destination pair is moved to the hot lane only after the configured number of contentions, each within the time to live of the one before, and returns afterwards; what waits of a pair waits in one lane, so none of it is overtaken.",
  ["inputs", "histories", "configurations"],
  "All sources, numbers of queues, and sequences of contention events, successes and expiry.",
  "Tests check one queue name.",
  ["queue.go", "internal/hotpairs", "transaction_queue.go"],
  [("hash routing", "queue.go"), ("hot pair tracking", "internal/hotpairs")],
  ["queue of each task"])

p("C31", "Queued amounts are reported and reserved exactly",
  "The queued debit and credit reported for a balance equal the sums of the transactions that are queued against it and have no outcome yet, at every moment of their life.",
  ["histories", "schedules"],
  "All histories of submissions, processing, rejections, holds, scheduled entries and recovery.",
  "Tests use mocked sums.",
  ["database/balance.go", "balance.go", "transaction_execution.go"],
  [("queued amount query", "database/balance.go")],
  ["GET /balances/:id?with_queued=true"], BALST)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
