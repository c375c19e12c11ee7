From b0756e81df12faa1d23237dd5f7f19760035b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 01/39] fix: a repeated refund request no longer reverses the
 refund

The query for the transactions a refund applies to also returns the refund
itself, because it is an APPLIED child of what it refunds. Asking for the same
refund twice therefore reversed the first refund (and answered with a
conflict), and a single refund over several pages could see its own result.
Refunds reached through their parent are now left out.
---
 transaction_batch_processing.go | 40 +++++++++++++++++++++++++++++----
 transaction_dryrun.go           |  2 +-
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/transaction_batch_processing.go b/transaction_batch_processing.go
index 3456a5c..1e4be1e 100644
--- a/transaction_batch_processing.go
+++ b/transaction_batch_processing.go
@@ -31,16 +31,48 @@ func (l *Blnk) GetRefundableTransactionsByParentID(ctx context.Context, parentTr
 	ctx, span := tracer.Start(ctx, "GetRefundableTransactionsByParentID")
 	defer span.End()
 
-	transactions, err := l.datasource.GetRefundableTransactionsByParentID(ctx, parentTransactionID, batchSize, offset)
-	if err != nil {
-		span.RecordError(err)
-		return nil, err
+	// A refund is itself an APPLIED child of what it refunds, so it comes back
+	// from the query too. It is left out here: repeating a refund request must
+	// not reverse the refund, and a refund created while the pages are being
+	// read must not shift the ones that follow.
+	var transactions []*model.Transaction
+	skip := offset
+	for rawOffset := int64(0); ; {
+		page, err := l.datasource.GetRefundableTransactionsByParentID(ctx, parentTransactionID, batchSize, rawOffset)
+		if err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+		for _, txn := range page {
+			if isRefundOfAnother(txn, parentTransactionID) {
+				continue
+			}
+			if skip > 0 {
+				skip--
+				continue
+			}
+			if len(transactions) < batchSize {
+				transactions = append(transactions, txn)
+			}
+		}
+		if len(page) < batchSize || len(page) == 0 || len(transactions) >= batchSize {
+			break
+		}
+		rawOffset += int64(len(page))
 	}
 	span.SetAttributes(attribute.String("parent_transaction_id", parentTransactionID))
 	span.AddEvent("Refundable transactions retrieved")
 	return transactions, nil
 }
 
+// isRefundOfAnother reports whether txn is a refund that was reached through
+// the transaction it refunds, rather than requested by its own ID.
+func isRefundOfAnother(txn *model.Transaction, requestedID string) bool {
+	return txn.TransactionID != requestedID &&
+		txn.ParentTransaction != "" &&
+		txn.Reference == fmt.Sprintf("%s_refund", txn.ParentTransaction)
+}
+
 // ProcessTransactionInBatches processes transactions in batches or streams them based on the provided mode.
 // It starts a tracing span, initializes worker pools, fetches transactions, and processes them concurrently.
 //
diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index 2b1c8e8..fcd50a4 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -200,7 +200,7 @@ func (l *Blnk) refundableLegsForPreview(ctx context.Context, transactionID strin
 
 	var all []*model.Transaction
 	for offset := int64(0); ; offset += int64(batchSize) {
-		batch, err := l.datasource.GetRefundableTransactionsByParentID(ctx, transactionID, batchSize, offset)
+		batch, err := l.GetRefundableTransactionsByParentID(ctx, transactionID, batchSize, offset)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From dfa8e42958bef30de0a5e2503e52e2205d1da905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 02/39] fix: keep the overdraft limit of a queued transaction
 that is restored from its row

The flags of a queued transaction are restored from its stored metadata when it
is served together with another one or recovered, but the overdraft limit was
not stored: such a transaction was allowed an unlimited overdraft.
---
 transaction_coalescing.go | 3 +++
 transaction_queue.go      | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/transaction_coalescing.go b/transaction_coalescing.go
index bc2b02e..da5925a 100644
--- a/transaction_coalescing.go
+++ b/transaction_coalescing.go
@@ -605,4 +605,7 @@ func restoreTransactionFlagsFromMetadata(transaction *model.Transaction) {
 	if v, ok := transaction.MetaData["allow_overdraft"].(bool); ok {
 		transaction.AllowOverdraft = v
 	}
+	if v, ok := transaction.MetaData["overdraft_limit"].(float64); ok {
+		transaction.OverdraftLimit = v
+	}
 }
diff --git a/transaction_queue.go b/transaction_queue.go
index e037dd2..2f106b3 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -365,6 +365,14 @@ func setTransactionMetadata(transaction *model.Transaction) {
 	if transaction.AllowOverdraft {
 		transaction.MetaData["allow_overdraft"] = true
 	}
+
+	// The limit travels with allow_overdraft: without it a transaction restored
+	// from its stored row would be allowed an unlimited overdraft.
+	if transaction.OverdraftLimit > 0 {
+		transaction.MetaData["overdraft_limit"] = transaction.OverdraftLimit
+	} else if _, ok := transaction.MetaData["overdraft_limit"].(float64); ok {
+		delete(transaction.MetaData, "overdraft_limit")
+	}
 }
 
 // createQueueCopy creates a new copy of a transaction specifically for queueing.
-- 
2.43.0


From 0d326ac0ef7451f1fa1ba535a53944b817c4959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 03/39] fix: a queued refund of a committed inflight
 transaction does not become inflight

A refund starts from a copy of the original's metadata, including the inflight
marker of a committed hold. When the queued refund was restored from its row
(served together with another transaction, or recovered) it was therefore held
instead of applied.
---
 transaction_queue.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/transaction_queue.go b/transaction_queue.go
index 2f106b3..990bc46 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -356,15 +356,9 @@ func setTransactionMetadata(transaction *model.Transaction) {
 
 	// Set inflight flag in metadata if the transaction is inflight
 	//maybe move to their respective columns in the db later
-	if transaction.Inflight {
-		transaction.MetaData["inflight"] = true
-	}
-	if transaction.Atomic {
-		transaction.MetaData["atomic"] = true
-	}
-	if transaction.AllowOverdraft {
-		transaction.MetaData["allow_overdraft"] = true
-	}
+	setMetadataFlag(transaction.MetaData, "inflight", transaction.Inflight)
+	setMetadataFlag(transaction.MetaData, "atomic", transaction.Atomic)
+	setMetadataFlag(transaction.MetaData, "allow_overdraft", transaction.AllowOverdraft)
 
 	// The limit travels with allow_overdraft: without it a transaction restored
 	// from its stored row would be allowed an unlimited overdraft.
@@ -375,6 +369,17 @@ func setTransactionMetadata(transaction *model.Transaction) {
 	}
 }
 
+// setMetadataFlag records a flag that is later restored from the stored
+// metadata. A marker inherited from another transaction (a refund starts from
+// a copy of the original's metadata) is cleared when the flag is not set.
+func setMetadataFlag(metadata map[string]interface{}, key string, value bool) {
+	if value {
+		metadata[key] = true
+	} else if inherited, ok := metadata[key].(bool); ok && inherited {
+		metadata[key] = false
+	}
+}
+
 // createQueueCopy creates a new copy of a transaction specifically for queueing.
 // It generates new identifiers and maintains the relationship with the original transaction.
 //
-- 
2.43.0


From a8aba1d5ad959aa1fe80ec1c00cc2c642c6913f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:37 +0000
Subject: [PATCH 04/39] fix: a commit or void is checked against its hold again
 once the balances are read

What is left of an inflight transaction was only determined under the
inflight-commit lock. When that lock expired while a commit or void was under
way, another one of the same hold could be recorded in between, and as long as
the pair had some other inflight amount both went through: more than the hold
was settled, or it was voided and settled.
---
 transaction_execution.go |  7 +++++++
 transaction_inflight.go  | 27 +++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/transaction_execution.go b/transaction_execution.go
index d36f7a3..5dfeac0 100644
--- a/transaction_execution.go
+++ b/transaction_execution.go
@@ -507,6 +507,13 @@ func (l *Blnk) recordTransactionSingle(ctx context.Context, transaction *model.T
 			return nil, err
 		}
 
+		// Check again what is left of the hold, now that the balances (and so
+		// the versions they are written against) have been read.
+		if err := l.recheckInflightRemaining(ctx, transaction); err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+
 		// Process the balances by applying the transaction
 		if err := l.processBalances(ctx, transaction, sourceBalance, destinationBalance); err != nil {
 			span.RecordError(err)
diff --git a/transaction_inflight.go b/transaction_inflight.go
index 8a75b97..9cf4d67 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -590,6 +590,33 @@ func (l *Blnk) calculateRemainingAmount(ctx context.Context, transaction *model.
 	return remainingAmount, nil
 }
 
+// recheckInflightRemaining verifies that a commit or void about to be recorded
+// still fits what is left of its hold. The inflight-commit lock may have expired
+// since the amount was determined; any other commit or void of the same hold
+// recorded since then is seen here, and one recorded later changes the version
+// of the balances this one is written against.
+func (l *Blnk) recheckInflightRemaining(ctx context.Context, transaction *model.Transaction) error {
+	if transaction.ParentTransaction == "" || transaction.PreciseAmount == nil ||
+		(transaction.Status != StatusCommit && transaction.Status != StatusVoid) {
+		return nil
+	}
+	hold, err := l.fetchAndValidateInflightTransaction(ctx, transaction.ParentTransaction)
+	if err != nil {
+		return err
+	}
+	amountLeft, err := l.calculateRemainingAmount(ctx, hold)
+	if err != nil {
+		return err
+	}
+	if err := l.checkTransactionCommitStatus(amountLeft); err != nil {
+		return err
+	}
+	if transaction.Status == StatusVoid && transaction.PreciseAmount.Cmp(amountLeft) != 0 {
+		return errors.New("cannot void. The remaining amount has changed, please retry")
+	}
+	return l.validateRequestedAmount(hold, transaction.PreciseAmount, amountLeft)
+}
+
 // finalizeVoidTransaction finalizes the voiding of a transaction by updating its status and generating new identifiers.
 // It starts a tracing span, updates the transaction details, queues the transaction, and records relevant events and errors.
 //
-- 
2.43.0


From f093966bbb7911fc54b2355bb4a00e563ee05194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 05/39] fix: refuse to commit or void a hold that is still
 queued

A queued inflight transaction holds nothing yet, so committing or voiding
it settled or released money another hold had reserved between the same
balances.
---
 transaction_inflight.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transaction_inflight.go b/transaction_inflight.go
index 9cf4d67..882f303 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -604,6 +604,11 @@ func (l *Blnk) recheckInflightRemaining(ctx context.Context, transaction *model.
 	if err != nil {
 		return err
 	}
+	if hold.Status == StatusQueued {
+		// Its hold does not exist yet: settling it now would settle some other
+		// hold of the same balances.
+		return errors.New("the inflight transaction is still queued, please retry once it is processed")
+	}
 	amountLeft, err := l.calculateRemainingAmount(ctx, hold)
 	if err != nil {
 		return err
-- 
2.43.0


From 4a51586791a4457c5ca77b50b2822196e56b87d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 06/39] fix: keep the effective date of a queued transaction
 that is restored from its row

---
 transaction_coalescing.go |  6 ++++++
 transaction_queue.go      | 15 ++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/transaction_coalescing.go b/transaction_coalescing.go
index da5925a..26489a6 100644
--- a/transaction_coalescing.go
+++ b/transaction_coalescing.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"fmt"
 	"sort"
+	"time"
 
 	blnkhooks "github.com/blnkfinance/blnk/internal/hooks"
 	"github.com/blnkfinance/blnk/internal/hotpairs"
@@ -608,4 +609,9 @@ func restoreTransactionFlagsFromMetadata(transaction *model.Transaction) {
 	if v, ok := transaction.MetaData["overdraft_limit"].(float64); ok {
 		transaction.OverdraftLimit = v
 	}
+	if v, ok := transaction.MetaData[effectiveDateMetadataKey].(string); ok && transaction.EffectiveDate == nil {
+		if effectiveDate, err := time.Parse(time.RFC3339Nano, v); err == nil {
+			transaction.EffectiveDate = &effectiveDate
+		}
+	}
 }
diff --git a/transaction_queue.go b/transaction_queue.go
index 990bc46..313a04c 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -340,7 +340,8 @@ func setTransactionStatus(transaction *model.Transaction) {
 // - transaction *model.Transaction: The transaction for which to set metadata.
 func setTransactionMetadata(transaction *model.Transaction) {
 	transaction.CreatedAt = time.Now()
-	if transaction.EffectiveDate == nil {
+	backdated := transaction.EffectiveDate != nil
+	if !backdated {
 		transaction.EffectiveDate = &transaction.CreatedAt
 	}
 	transaction.Hash = transaction.HashTxn()
@@ -367,8 +368,20 @@ func setTransactionMetadata(transaction *model.Transaction) {
 	} else if _, ok := transaction.MetaData["overdraft_limit"].(float64); ok {
 		delete(transaction.MetaData, "overdraft_limit")
 	}
+
+	// A requested effective date travels the same way: a queued transaction that
+	// is recovered or coalesced is restored from its row and would otherwise be
+	// posted as effective when it was created.
+	if backdated && !transaction.SkipQueue {
+		transaction.MetaData[effectiveDateMetadataKey] = transaction.EffectiveDate.UTC().Format(time.RFC3339Nano)
+	} else {
+		delete(transaction.MetaData, effectiveDateMetadataKey)
+	}
 }
 
+// effectiveDateMetadataKey holds the effective date of a queued transaction.
+const effectiveDateMetadataKey = "blnk_effective_date"
+
 // setMetadataFlag records a flag that is later restored from the stored
 // metadata. A marker inherited from another transaction (a refund starts from
 // a copy of the original's metadata) is cleared when the flag is not set.
-- 
2.43.0


From 2a360157baa8701ab8212101758946ce466b4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 07/39] fix: a queued transaction does not count against itself
 under queued checks

---
 transaction_coalescing.go |  1 +
 transaction_execution.go  | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/transaction_coalescing.go b/transaction_coalescing.go
index 26489a6..92fa600 100644
--- a/transaction_coalescing.go
+++ b/transaction_coalescing.go
@@ -257,6 +257,7 @@ func (l *Blnk) prepareQueuedBatchTransaction(ctx context.Context, span trace.Spa
 	}
 
 	finalizedTxn := l.updateTransactionDetails(ctx, txn, sourceBalance, destinationBalance)
+	excludeOwnReservation(finalizedTxn, sourceBalance)
 	if err := l.processBalances(ctx, finalizedTxn, sourceBalance, destinationBalance); err != nil {
 		return queuedBatchPostCommitWork{}, err
 	}
diff --git a/transaction_execution.go b/transaction_execution.go
index 5dfeac0..e8c36e5 100644
--- a/transaction_execution.go
+++ b/transaction_execution.go
@@ -514,6 +514,8 @@ func (l *Blnk) recordTransactionSingle(ctx context.Context, transaction *model.T
 			return nil, err
 		}
 
+		excludeOwnReservation(transaction, sourceBalance)
+
 		// Process the balances by applying the transaction
 		if err := l.processBalances(ctx, transaction, sourceBalance, destinationBalance); err != nil {
 			span.RecordError(err)
@@ -721,6 +723,22 @@ func (l *Blnk) processBalances(ctx context.Context, transaction *model.Transacti
 	return nil
 }
 
+// excludeOwnReservation takes a queued transaction that is being processed out of
+// the queued debits of its source. Its own queued row is still open then, and
+// would otherwise count against the funds it is about to use. Scheduled rows are
+// not part of the queued amounts.
+func excludeOwnReservation(transaction *model.Transaction, sourceBalance *model.Balance) {
+	if sourceBalance.QueuedDebitBalance == nil || transaction.PreciseAmount == nil ||
+		transaction.SkipQueue || transaction.ParentTransaction == "" || !transaction.ScheduledFor.IsZero() {
+		return
+	}
+	remaining := new(big.Int).Sub(sourceBalance.QueuedDebitBalance, transaction.PreciseAmount)
+	if remaining.Sign() < 0 {
+		remaining.SetInt64(0)
+	}
+	sourceBalance.QueuedDebitBalance = remaining
+}
+
 // buildTransactionExecutionWork converts an in-memory-applied transaction into the shared
 // persistence and post-commit work shape used by both single and batched execution paths.
 func (l *Blnk) buildTransactionExecutionWork(ctx context.Context, transaction *model.Transaction, sourceBalance, destinationBalance *model.Balance) (queuedBatchPostCommitWork, bool) {
-- 
2.43.0


From 5e9e74dfe8d7737b93918c9cdb5ac8ee4dd91ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 08/39] fix: overdraft limit no longer wraps at 64 bits

The limit in minor units was converted through int64, so a limit whose
minor-unit value exceeds 2^63 wrapped and every debit below the balance
was refused (or, wrapped to a negative number, demanded a positive
resulting balance).
---
 model/model.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index 1cb52a2..858c19c 100644
--- a/model/model.go
+++ b/model/model.go
@@ -186,9 +186,8 @@ func canProcessTransaction(transaction *Transaction, sourceBalance *Balance) err
 		// decimal arithmetic: int64(limit*precision) truncates binary-float
 		// products (0.29*100 -> 28), rejecting transactions exactly at the
 		// configured limit.
-		overdraftLimitPrecise := decimal.NewFromFloat(transaction.OverdraftLimit).
-			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).IntPart()
-		overdraftLimitBigInt := new(big.Int).SetInt64(overdraftLimitPrecise)
+		overdraftLimitBigInt := decimal.NewFromFloat(transaction.OverdraftLimit).
+			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).BigInt()
 
 		// Negative of overdraft limit (as balance will be negative)
 		negativeOverdraftLimit := new(big.Int).Neg(overdraftLimitBigInt)
-- 
2.43.0


From 93d17d715bc9df5c27bd9b2cc5175b2bb9167169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 09/39] fix: detokenize values that contain a colon

The visible part of a format-preserving token keeps the colons of the
original value, so the encrypted part is what follows the last colon, not
the second.
---
 internal/tokenization/tokenization.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/tokenization/tokenization.go b/internal/tokenization/tokenization.go
index 9ccc45c..83a836e 100644
--- a/internal/tokenization/tokenization.go
+++ b/internal/tokenization/tokenization.go
@@ -244,14 +244,15 @@ func (s *TokenizationService) formatPreservingDetokenize(token string) (string,
 		return "", fmt.Errorf("not a format-preserving token")
 	}
 
-	// Split the token
-	parts := strings.SplitN(token, ":", 3)
-	if len(parts) < 3 {
+	// Split the token at its last colon: the visible part keeps the colons of
+	// the original value, the base64 of the standard token has none
+	sep := strings.LastIndex(token, ":")
+	if sep < len("FPT:") {
 		return "", fmt.Errorf("invalid format-preserving token format")
 	}
 
 	// Extract the standard token part
-	standardToken := parts[2]
+	standardToken := token[sep+1:]
 
 	// Use standard detokenization to get the original value
 	return s.standardDetokenize(standardToken)
-- 
2.43.0


From 57ef524e6a7f024422052fc630c5423c3260c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 10/39] fix: tokens of values without ASCII letters or digits
 showed the value

---
 internal/tokenization/tokenization.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/tokenization/tokenization.go b/internal/tokenization/tokenization.go
index 83a836e..8e0ff6d 100644
--- a/internal/tokenization/tokenization.go
+++ b/internal/tokenization/tokenization.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode"
 )
 
 // TokenizationMode defines the type of tokenization to use
@@ -216,6 +217,10 @@ func (s *TokenizationService) formatPreservingTokenize(value string) (string, er
 	if err != nil {
 		return "", err
 	}
+	if visibleToken == value {
+		// Nothing was replaced, so the token would show the value itself
+		visibleToken = maskLetters(value)
+	}
 
 	// 3. Encrypt the original value using standard encryption
 	standardToken, err := s.Tokenize(value)
@@ -284,3 +289,13 @@ func generateTokenWithFormat(seed []byte, originalValue string) (string, error)
 
 	return string(result), nil
 }
+
+// maskLetters hides the letters, marks and digits of every script.
+func maskLetters(value string) string {
+	return strings.Map(func(char rune) rune {
+		if unicode.IsLetter(char) || unicode.IsMark(char) || unicode.IsNumber(char) {
+			return '*'
+		}
+		return char
+	}, value)
+}
-- 
2.43.0


From c9bf19e462c261b2aab180188a668c77956fd8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 11/39] fix: GetDetokenizedIdentity returned tokens for stored
 identities

tokenized_fields is a map[string]interface{} after the round trip through
the database, as DetokenizeIdentity already knows.
---
 identity.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/identity.go b/identity.go
index 0949d86..26f2f49 100644
--- a/identity.go
+++ b/identity.go
@@ -356,21 +356,31 @@ func (l *Blnk) GetDetokenizedIdentity(identityID string) (*model.Identity, error
 
 	// Detokenize all tokenized fields
 	if identity.MetaData != nil {
-		tokenizedFields, ok := identity.MetaData["tokenized_fields"].(map[string]bool)
-		if ok {
-			for field, isTokenized := range tokenizedFields {
-				if isTokenized {
-					originalValue, err := l.DetokenizeIdentityField(identityID, field)
-					if err != nil {
-						return nil, err
-					}
-
-					// Set the original value in the copy
-					val := reflect.ValueOf(&detokenizedIdentity).Elem()
-					fieldVal := val.FieldByName(field)
-					if fieldVal.IsValid() && fieldVal.CanSet() {
-						fieldVal.SetString(originalValue)
-					}
+		// The map is map[string]interface{} once it has been through the database
+		tokenizedFields := make(map[string]bool)
+		switch fields := identity.MetaData["tokenized_fields"].(type) {
+		case map[string]bool:
+			tokenizedFields = fields
+		case map[string]interface{}:
+			for field, val := range fields {
+				if boolVal, ok := val.(bool); ok {
+					tokenizedFields[field] = boolVal
+				}
+			}
+		}
+
+		for field, isTokenized := range tokenizedFields {
+			if isTokenized {
+				originalValue, err := l.DetokenizeIdentityField(identityID, field)
+				if err != nil {
+					return nil, err
+				}
+
+				// Set the original value in the copy
+				val := reflect.ValueOf(&detokenizedIdentity).Elem()
+				fieldVal := val.FieldByName(field)
+				if fieldVal.IsValid() && fieldVal.CanSet() {
+					fieldVal.SetString(originalValue)
 				}
 			}
 		}
-- 
2.43.0


From bea071f60eb770c67c5ff7d55e59373b04a270d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 12/39] fix: concurrent metadata updates lost each other's keys

The merge happened in memory on the metadata read before, so the later of two
concurrent updates wrote the other's keys back to their old values.  The
database merges now, as it does for transactions.
---
 database/metadata.go | 30 +++++++++++++++---------------
 metadata.go          |  6 +++---
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/database/metadata.go b/database/metadata.go
index 92965e4..3cad4fd 100644
--- a/database/metadata.go
+++ b/database/metadata.go
@@ -5,12 +5,12 @@ import (
 	"encoding/json"
 )
 
-// UpdateLedgerMetadata updates the metadata for a specific ledger in the database.
-// It marshals the metadata map to JSON before storing it.
+// UpdateLedgerMetadata merges metadata into that of a specific ledger in the database.
+// The database merges, so that concurrent updates keep each other's keys.
 //
 // Parameters:
 // - id: The ID of the ledger to update.
-// - metadata: The new metadata to store.
+// - metadata: The metadata to merge into the existing metadata.
 //
 // Returns:
 // - error: An error if the update operation fails.
@@ -21,8 +21,8 @@ func (d *Datasource) UpdateLedgerMetadata(id string, metadata map[string]interfa
 	}
 
 	_, err = d.Conn.ExecContext(context.Background(), `
-		UPDATE blnk.ledgers 
-		SET meta_data = $1
+		UPDATE blnk.ledgers
+		SET meta_data = (CASE WHEN jsonb_typeof(meta_data) = 'object' THEN meta_data ELSE '{}'::jsonb END) || $1::jsonb
 		WHERE ledger_id = $2
 	`, metadataJSON, id)
 	return err
@@ -58,13 +58,13 @@ func (d *Datasource) UpdateTransactionMetadata(ctx context.Context, id string, m
 	return err
 }
 
-// UpdateBalanceMetadata updates the metadata for a specific balance in the database.
-// It marshals the metadata map to JSON before storing it.
+// UpdateBalanceMetadata merges metadata into that of a specific balance in the database.
+// The database merges, so that concurrent updates keep each other's keys.
 //
 // Parameters:
 // - ctx: The context for the database operation.
 // - id: The ID of the balance to update.
-// - metadata: The new metadata to store.
+// - metadata: The metadata to merge into the existing metadata.
 //
 // Returns:
 // - error: An error if the update operation fails.
@@ -75,19 +75,19 @@ func (d *Datasource) UpdateBalanceMetadata(ctx context.Context, id string, metad
 	}
 
 	_, err = d.Conn.ExecContext(ctx, `
-		UPDATE blnk.balances 
-		SET meta_data = $1
+		UPDATE blnk.balances
+		SET meta_data = (CASE WHEN jsonb_typeof(meta_data) = 'object' THEN meta_data ELSE '{}'::jsonb END) || $1::jsonb
 		WHERE balance_id = $2
 	`, metadataJSON, id)
 	return err
 }
 
-// UpdateIdentityMetadata updates the metadata for a specific identity in the database.
-// It marshals the metadata map to JSON before storing it.
+// UpdateIdentityMetadata merges metadata into that of a specific identity in the database.
+// The database merges, so that concurrent updates keep each other's keys.
 //
 // Parameters:
 // - id: The ID of the identity to update.
-// - metadata: The new metadata to store.
+// - metadata: The metadata to merge into the existing metadata.
 //
 // Returns:
 // - error: An error if the update operation fails.
@@ -98,8 +98,8 @@ func (d *Datasource) UpdateIdentityMetadata(id string, metadata map[string]inter
 	}
 
 	_, err = d.Conn.ExecContext(context.Background(), `
-		UPDATE blnk.identity 
-		SET meta_data = $1
+		UPDATE blnk.identity
+		SET meta_data = (CASE WHEN jsonb_typeof(meta_data) = 'object' THEN meta_data ELSE '{}'::jsonb END) || $1::jsonb
 		WHERE identity_id = $2
 	`, metadataJSON, id)
 	return err
diff --git a/metadata.go b/metadata.go
index 7abf089..2438bb7 100644
--- a/metadata.go
+++ b/metadata.go
@@ -66,7 +66,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		}
 		currentMetadata := ledger.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
-		err = l.updateEntityMetadata(ctx, entityType, entityID, mergedMetadata)
+		err = l.updateEntityMetadata(ctx, entityType, entityID, newMetadata)
 		if err != nil {
 			return nil, fmt.Errorf("failed to update metadata: %w", err)
 		}
@@ -125,7 +125,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		}
 		currentMetadata := balance.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
-		err = l.updateEntityMetadata(ctx, entityType, entityID, mergedMetadata)
+		err = l.updateEntityMetadata(ctx, entityType, entityID, newMetadata)
 		if err != nil {
 			return nil, fmt.Errorf("failed to update metadata: %w", err)
 		}
@@ -152,7 +152,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		}
 		currentMetadata := identity.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
-		err = l.updateEntityMetadata(ctx, entityType, entityID, mergedMetadata)
+		err = l.updateEntityMetadata(ctx, entityType, entityID, newMetadata)
 		if err != nil {
 			return nil, fmt.Errorf("failed to update metadata: %w", err)
 		}
-- 
2.43.0


From 9d2b1616dfe56b0f9260ee3abe4d41510dad57d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 13/39] fix: preview a commit or void of a queued hold as it
 would be carried out

---
 transaction_dryrun_inflight.go | 23 +++++++++++++++++++----
 transaction_inflight.go        |  6 +++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/transaction_dryrun_inflight.go b/transaction_dryrun_inflight.go
index 964685d..5774363 100644
--- a/transaction_dryrun_inflight.go
+++ b/transaction_dryrun_inflight.go
@@ -179,15 +179,16 @@ func (l *Blnk) PreviewInflightAction(ctx context.Context, txID, action string, a
 // against it would settle.
 //
 // A transaction id resolves to itself. An id that names no inflight transaction
-// directly may still be the parent of a split, so it is expanded the same way
-// the real commit and void paths expand it.
+// directly may still be the parent of a split, and a queued original stands for
+// the hold its processing placed, so both are expanded the same way the real
+// commit and void paths expand them.
 func (l *Blnk) inflightLegsForPreview(ctx context.Context, txID string) ([]*model.Transaction, error) {
 	transaction, err := l.fetchAndValidateInflightTransaction(ctx, txID)
-	if err == nil {
+	if err == nil && transaction.Status != StatusQueued {
 		return []*model.Transaction{transaction}, nil
 	}
 
-	if !shouldExpandInflightParent(err) {
+	if err != nil && !shouldExpandInflightParent(err) {
 		return nil, err
 	}
 
@@ -196,8 +197,18 @@ func (l *Blnk) inflightLegsForPreview(ctx context.Context, txID string) ([]*mode
 		return nil, legErr
 	}
 	if len(legs) == 0 {
+		if err == nil {
+			return []*model.Transaction{transaction}, nil
+		}
 		return nil, err
 	}
+
+	// Each leg must still be open, as the commit and void workers require.
+	for _, leg := range legs {
+		if _, err := l.fetchAndValidateInflightTransaction(ctx, leg.TransactionID); err != nil {
+			return nil, err
+		}
+	}
 	return legs, nil
 }
 
@@ -208,6 +219,10 @@ func (l *Blnk) inflightLegsForPreview(ctx context.Context, txID string) ([]*mode
 // refuses exactly what a real one would: an already-settled hold, or an amount
 // beyond what remains.
 func (l *Blnk) buildInflightSettlementForPreview(ctx context.Context, leg *model.Transaction, action string, amount *big.Int) (*model.Transaction, error) {
+	if leg.Status == StatusQueued {
+		return nil, errInflightStillQueued
+	}
+
 	// Work on a copy: validateAndUpdateAmount writes the settled amount onto
 	// the transaction it is given.
 	settlement := leg.Clone()
diff --git a/transaction_inflight.go b/transaction_inflight.go
index 882f303..b28c229 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -66,6 +66,10 @@ func (l *Blnk) GetInflightTransactionsByParentID(ctx context.Context, parentTran
 	return transactions, nil
 }
 
+// errInflightStillQueued is returned for a commit or void of a hold that has
+// not been processed yet.
+var errInflightStillQueued = errors.New("the inflight transaction is still queued, please retry once it is processed")
+
 // IsInflightTransaction checks whether a transaction is considered "inflight" based on its status and metadata.
 // A transaction is considered inflight if:
 // 1. It has a status of StatusInflight, OR
@@ -607,7 +611,7 @@ func (l *Blnk) recheckInflightRemaining(ctx context.Context, transaction *model.
 	if hold.Status == StatusQueued {
 		// Its hold does not exist yet: settling it now would settle some other
 		// hold of the same balances.
-		return errors.New("the inflight transaction is still queued, please retry once it is processed")
+		return errInflightStillQueued
 	}
 	amountLeft, err := l.calculateRemainingAmount(ctx, hold)
 	if err != nil {
-- 
2.43.0


From 8f4d323cc5354a87a2786e8244b01904633244b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 14/39] fix: refuse splits that allocate more than the amount,
 negative shares or nothing

---
 model/transaction.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index 35f8a84..12b1532 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -153,6 +153,10 @@ func processFixedDistributions(distributions []Distribution, state *distribution
 			continue
 		}
 
+		if fixedAmountDec.IsNegative() {
+			return errors.New("fixed amount cannot be negative")
+		}
+
 		if fixedAmountDec.Cmp(state.amountLeftDec) > 0 {
 			return errors.New("fixed amount exceeds remaining transaction amount")
 		}
@@ -202,6 +206,9 @@ func processPercentageDistributions(distributions []Distribution, state *distrib
 		}
 
 		percentageDec := decimal.NewFromFloat(percentage)
+		if percentageDec.IsNegative() {
+			return errors.New("percentage cannot be negative")
+		}
 		state.totalPercentage = state.totalPercentage.Add(percentageDec)
 
 		rawAmountDec := state.totalAmountDec.Mul(percentageDec).Div(hundredDec)
@@ -221,6 +228,12 @@ func validateDistributions(state *distributionState) error {
 	if state.totalPercentage.Cmp(hundredDec) > 0 || state.fixedTotalDec.Cmp(state.totalAmountDec) > 0 {
 		return errors.New("total distributions exceed 100% or total amount")
 	}
+
+	// Fixed amounts and percentages may each fit and still exceed the amount together.
+	percentTotalDec := state.totalAmountDec.Mul(state.totalPercentage).Div(hundredDec)
+	if state.fixedTotalDec.Add(percentTotalDec).Cmp(state.totalAmountDec) > 0 {
+		return errors.New("total distributions exceed 100% or total amount")
+	}
 	return nil
 }
 
@@ -292,14 +305,14 @@ func processLeftDistribution(distributions []Distribution, state *distributionSt
 }
 
 // balanceDistributions ensures the sum of all distributions equals the total amount
-func balanceDistributions(state *distributionState) {
+func balanceDistributions(state *distributionState) error {
 	sumDec := decimal.Zero
 	for _, amount := range state.result {
 		sumDec = sumDec.Add(decimal.NewFromBigInt(amount, 0))
 	}
 
 	if sumDec.Cmp(state.totalAmountDec) == 0 {
-		return
+		return nil
 	}
 
 	var largestKey string
@@ -311,10 +324,13 @@ func balanceDistributions(state *distributionState) {
 		}
 	}
 
-	if largestKey != "" {
-		diff := state.totalAmountDec.Sub(sumDec)
-		state.result[largestKey] = new(big.Int).Add(state.result[largestKey], diff.BigInt())
+	if largestKey == "" {
+		return errors.New("distributions do not allocate any of the amount")
 	}
+
+	diff := state.totalAmountDec.Sub(sumDec)
+	state.result[largestKey] = new(big.Int).Add(state.result[largestKey], diff.BigInt())
+	return nil
 }
 
 // CalculateDistributionsPrecise calculates distributions using big.Int for precision
@@ -333,10 +349,6 @@ func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.
 
 	totalAmountDec := decimal.NewFromBigInt(totalPreciseAmount, 0)
 
-	if result := handleSmallAmount(totalAmountDec, totalPreciseAmount, distributions); result != nil {
-		return result, nil
-	}
-
 	state := &distributionState{
 		totalAmountDec: totalAmountDec,
 		amountLeftDec:  totalAmountDec,
@@ -361,6 +373,10 @@ func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.
 		return nil, err
 	}
 
+	if result := handleSmallAmount(totalAmountDec, totalPreciseAmount, distributions); result != nil {
+		return result, nil
+	}
+
 	adjustPercentageAmounts(state)
 	combineDistributions(state)
 
@@ -369,7 +385,10 @@ func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.
 		return nil, err
 	}
 
-	balanceDistributions(state)
+	if err := balanceDistributions(state); err != nil {
+		span.RecordError(err)
+		return nil, err
+	}
 
 	span.AddEvent("Precise distribution calculation completed")
 	return state.result, nil
@@ -411,6 +430,10 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 		ds = transaction.Destinations
 	}
 
+	if len(ds) == 0 {
+		return nil, nil // not a split
+	}
+
 	span.AddEvent("Starting precise distribution calculation", trace.WithAttributes(
 		attribute.String("transaction.id", transaction.TransactionID),
 		attribute.String("transaction.precise_amount", transaction.PreciseAmount.String()),
-- 
2.43.0


From e1eb806b95172b72e6e996cf11e88e274d1d46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 15/39] fix: shares of one identifier in a split add up

---
 model/transaction.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index 12b1532..f2e90bf 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -161,7 +161,8 @@ func processFixedDistributions(distributions []Distribution, state *distribution
 			return errors.New("fixed amount exceeds remaining transaction amount")
 		}
 
-		state.fixedAmounts[dist.Identifier] = fixedAmountDec
+		// An identifier may be named more than once: its shares add up.
+		state.fixedAmounts[dist.Identifier] = state.fixedAmounts[dist.Identifier].Add(fixedAmountDec)
 		state.fixedTotalDec = state.fixedTotalDec.Add(fixedAmountDec)
 		state.amountLeftDec = state.amountLeftDec.Sub(fixedAmountDec)
 	}
@@ -214,10 +215,9 @@ func processPercentageDistributions(distributions []Distribution, state *distrib
 		rawAmountDec := state.totalAmountDec.Mul(percentageDec).Div(hundredDec)
 
 		if rawAmountDec.Sign() > 0 && rawAmountDec.Cmp(minValueDec) < 0 {
-			state.percentAmounts[dist.Identifier] = decimal.Zero
-		} else {
-			state.percentAmounts[dist.Identifier] = rawAmountDec
+			rawAmountDec = decimal.Zero
 		}
+		state.percentAmounts[dist.Identifier] = state.percentAmounts[dist.Identifier].Add(rawAmountDec)
 	}
 	return nil
 }
@@ -282,7 +282,7 @@ func combineDistributions(state *distributionState) {
 	}
 
 	for id, amountDec := range state.percentAmounts {
-		state.result[id] = amountDec.BigInt()
+		state.result[id] = amountDec.Add(state.fixedAmounts[id]).BigInt()
 		state.amountLeftDec = state.amountLeftDec.Sub(amountDec)
 	}
 }
-- 
2.43.0


From 28448928a68c7baff928aa4fc96d1c55451eb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 16/39] fix: make the legs of a split in the order of its
 distributions

---
 model/transaction.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index f2e90bf..3987330 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -267,7 +267,8 @@ func findLargestDecimal(amounts map[string]decimal.Decimal) (string, decimal.Dec
 	var largestKey string
 	var largestAmount decimal.Decimal
 	for id, amount := range amounts {
-		if amount.Cmp(largestAmount) > 0 {
+		// Ties go to the first key, so that the result does not depend on map order.
+		if c := amount.Cmp(largestAmount); c > 0 || (c == 0 && largestKey != "" && id < largestKey) {
 			largestAmount = amount
 			largestKey = id
 		}
@@ -318,7 +319,7 @@ func balanceDistributions(state *distributionState) error {
 	var largestKey string
 	largestAmount := big.NewInt(0)
 	for id, amount := range state.result {
-		if amount.Cmp(largestAmount) > 0 {
+		if c := amount.Cmp(largestAmount); c > 0 || (c == 0 && largestKey != "" && id < largestKey) {
 			largestAmount = amount
 			largestKey = id
 		}
@@ -450,7 +451,19 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 
 	var transactions []*Transaction
 	counter := 1
-	for direction, preciseAmount := range distributions {
+	legIDs := make(map[string]string, len(ds))
+	// Legs are made in the order of the distributions, so that references and
+	// transaction ids belong to the same identifier every time.
+	for i := range ds {
+		direction := ds[i].Identifier
+		preciseAmount, ok := distributions[direction]
+		if !ok {
+			continue
+		}
+		if legID, made := legIDs[direction]; made { // named more than once: one leg
+			ds[i].TransactionID = legID
+			continue
+		}
 		newTransaction := *transaction                               // Create a copy of the original transaction
 		newTransaction.TransactionID = GenerateUUIDWithSuffix("txn") // Set the transaction ID
 		newTransaction.PreciseAmount = preciseAmount                 // Set the precise amount based on the distribution
@@ -465,11 +478,11 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 
 		if len(transaction.Sources) > 0 {
 			newTransaction.Source = direction // Set the source
-			transaction.Sources[counter-1].TransactionID = newTransaction.TransactionID
 		} else if len(transaction.Destinations) > 0 {
 			newTransaction.Destination = direction // Set the destination
-			transaction.Destinations[counter-1].TransactionID = newTransaction.TransactionID
 		}
+		legIDs[direction] = newTransaction.TransactionID
+		ds[i].TransactionID = newTransaction.TransactionID
 
 		newTransaction.Reference = fmt.Sprintf("%s-%d", transaction.Reference, counter)
 		counter++
-- 
2.43.0


From 9ee204cd53e38eb381abebbc6a46f3184bd4d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 17/39] fix: a share that rounds to nothing no longer makes its
 split fail

---
 transaction_dryrun.go      |  4 ++--
 transaction_dryrun_bulk.go |  2 +-
 transaction_queue.go       | 13 ++++++++++++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index fcd50a4..9135f6b 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -318,10 +318,10 @@ func (l *Blnk) previewSplitTransaction(ctx context.Context, transaction *model.T
 	ctx, span := tracer.Start(ctx, "PreviewSplitTransaction")
 	defer span.End()
 
-	legs, err := transaction.SplitTransactionPrecise(ctx)
+	legs, err := l.handleSplitTransactions(ctx, transaction)
 	if err != nil {
 		span.RecordError(err)
-		return nil, fmt.Errorf("failed to split transaction: %w", err)
+		return nil, err
 	}
 
 	preview := newPreviewFor(transaction)
diff --git a/transaction_dryrun_bulk.go b/transaction_dryrun_bulk.go
index a02ec9e..fbe7278 100644
--- a/transaction_dryrun_bulk.go
+++ b/transaction_dryrun_bulk.go
@@ -175,7 +175,7 @@ func (l *Blnk) previewBulkItem(ctx context.Context, item *model.Transaction, wor
 	// has to be expanded before balances are touched.
 	legs := []*model.Transaction{item}
 	if len(item.Sources) > 0 || len(item.Destinations) > 0 {
-		split, err := item.SplitTransactionPrecise(ctx)
+		split, err := l.handleSplitTransactions(ctx, item)
 		if err != nil {
 			return nil, err
 		}
diff --git a/transaction_queue.go b/transaction_queue.go
index 313a04c..f8a039f 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -209,7 +209,18 @@ func (l *Blnk) handleSplitTransactions(ctx context.Context, transaction *model.T
 	if err != nil {
 		return nil, fmt.Errorf("failed to split transaction: %w", err)
 	}
-	return transactions, nil
+	if transaction.PreciseAmount.Sign() == 0 {
+		return transactions, nil
+	}
+
+	// A share that rounds to nothing has no leg to post.
+	moving := make([]*model.Transaction, 0, len(transactions))
+	for _, leg := range transactions {
+		if leg.PreciseAmount.Sign() != 0 {
+			moving = append(moving, leg)
+		}
+	}
+	return moving, nil
 }
 
 // processTxns handles the processing of transactions based on whether they are split or single.
-- 
2.43.0


From 52fbc081657692317044fc2c24ccbdd7f690a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 18/39] fix: shares of a split keep all their digits

---
 model/transaction.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index 3987330..34264a0 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -180,16 +180,31 @@ func parseFixedAmount(dist Distribution, precisionDec decimal.Decimal) (decimal.
 	}
 
 	if dist.Distribution != "" {
-		fixedAmount, err := strconv.ParseFloat(dist.Distribution, 64)
+		fixedAmountDec, err := parseShare(dist.Distribution)
 		if err != nil {
 			return decimal.Zero, errors.New("invalid fixed amount format")
 		}
-		return decimal.NewFromFloat(fixedAmount).Mul(precisionDec), nil
+		return fixedAmountDec.Mul(precisionDec), nil
 	}
 
 	return decimal.Zero, nil
 }
 
+// parseShare reads a share exactly: a float64 holds some 16 digits, an amount may have more.
+func parseShare(share string) (decimal.Decimal, error) {
+	value, err := strconv.ParseFloat(share, 64)
+	if err != nil {
+		return decimal.Zero, err
+	}
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return decimal.Zero, errors.New("not a number")
+	}
+	if exact, err := decimal.NewFromString(share); err == nil {
+		return exact, nil
+	}
+	return decimal.NewFromFloat(value), nil
+}
+
 // processPercentageDistributions handles the second pass: percentage distributions
 func processPercentageDistributions(distributions []Distribution, state *distributionState) error {
 	hundredDec := decimal.NewFromInt(100)
@@ -201,12 +216,10 @@ func processPercentageDistributions(distributions []Distribution, state *distrib
 		}
 
 		percentageStr := dist.Distribution[:len(dist.Distribution)-1]
-		percentage, err := strconv.ParseFloat(percentageStr, 64)
+		percentageDec, err := parseShare(percentageStr)
 		if err != nil {
 			return errors.New("invalid percentage format")
 		}
-
-		percentageDec := decimal.NewFromFloat(percentage)
 		if percentageDec.IsNegative() {
 			return errors.New("percentage cannot be negative")
 		}
-- 
2.43.0


From 2caf763ca3225a1a661b07de1c60d4fd940e07be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 19/39] fix: legs of a queued split no longer share metadata
 with each other and the caller

---
 transaction_queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transaction_queue.go b/transaction_queue.go
index f8a039f..3a74358 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -139,6 +139,8 @@ func processTransactionAsync(ctx context.Context, l *Blnk, transaction *model.Tr
 	// QueueTransaction. Snapshot it so the worker never races a caller that
 	// inspects the returned transaction.
 	asyncTxn := cloneTransactionForAsync(transaction)
+	// The legs of a split share the transaction's metadata, so each gets its own.
+	asyncLegs := cloneTransactionsForAsync(transactions)
 	go func() {
 		if err := asyncTxnSemaphore.Acquire(ctx, 1); err != nil {
 			logrus.WithError(err).Error("failed to acquire async txn semaphore")
@@ -149,7 +151,7 @@ func processTransactionAsync(ctx context.Context, l *Blnk, transaction *model.Tr
 		ctx, span := tracer.Start(ctx, "ProcessTransactionAsync")
 		defer span.End()
 
-		queueTransactions, err := l.processTxns(ctx, asyncTxn, transactions, originalTxnID, originalRef)
+		queueTransactions, err := l.processTxns(ctx, asyncTxn, asyncLegs, originalTxnID, originalRef)
 		if err != nil {
 			span.RecordError(err)
 		}
-- 
2.43.0


From 45b64a1caf6981e28adf859b504d8eb8996f8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 20/39] fix: keep all decimals of an amount whose precision has
 more than 16 digits

---
 model/model.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index 858c19c..097c9f3 100644
--- a/model/model.go
+++ b/model/model.go
@@ -401,8 +401,13 @@ func convertPreciseToDecimal(transaction *Transaction) {
 	// Create decimal for precision
 	precisionDec := decimal.NewFromFloat(transaction.Precision)
 
-	// Perform division with exact decimal arithmetic
-	resultDec := preciseAmountDec.Div(precisionDec)
+	// Perform division with exact decimal arithmetic: a precision of more than
+	// 16 digits leaves more decimals than the library keeps by default.
+	places := int32(decimal.DivisionPrecision)
+	if n := int32(len(precisionDec.String())); n > places {
+		places = n
+	}
+	resultDec := preciseAmountDec.DivRound(precisionDec, places)
 
 	// Store the exact string representation
 	transaction.AmountString = resultDec.String()
-- 
2.43.0


From 13b883d629a62032af948c3c91bd870e3f5d0467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 21/39] fix: answer for the requested instant when a balance is
 asked for in another time zone

---
 database/balance.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/database/balance.go b/database/balance.go
index 56b0eed..d95cca9 100644
--- a/database/balance.go
+++ b/database/balance.go
@@ -1603,6 +1603,10 @@ func (d Datasource) GetBalanceAtTime(ctx context.Context, balanceID string, targ
 		return nil, err
 	}
 
+	// Transaction times are stored in UTC without a zone: a target in another
+	// zone would be compared by its wall clock.
+	targetTime = targetTime.UTC()
+
 	// Start transaction
 	tx, err := d.Conn.BeginTx(ctx, &sql.TxOptions{
 		ReadOnly:  true,
-- 
2.43.0


From e618527a22fe17149bca3e2532ed1a52c76b6e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 22/39] fix: release queued and split holds when they expire

---
 cmd/workers.go          |  5 ++---
 transaction_inflight.go | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/cmd/workers.go b/cmd/workers.go
index fa971ea..253529a 100644
--- a/cmd/workers.go
+++ b/cmd/workers.go
@@ -336,9 +336,8 @@ func (b *blnkInstance) processInflightExpiry(cxt context.Context, t *asynq.Task)
 		return err
 	}
 
-	// Void the inflight transaction by its ID.
-	_, err := b.blnk.VoidInflightTransaction(cxt, txnID)
-	if err != nil {
+	// Void what is still open of the inflight transaction.
+	if err := b.blnk.ExpireInflightTransaction(cxt, txnID); err != nil {
 		return err
 	}
 
diff --git a/transaction_inflight.go b/transaction_inflight.go
index b28c229..fa9d4d5 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -508,6 +508,21 @@ func (l *Blnk) VoidInflightTransactionWithRef(ctx context.Context, transactionID
 	return voidedTxn, nil
 }
 
+// ExpireInflightTransaction voids what is still open of an inflight transaction
+// whose expiry has come. The transaction is known by the ID its request was
+// answered with; when it was queued or split, its holds are rows of their own
+// that name it as their parent.
+func (l *Blnk) ExpireInflightTransaction(ctx context.Context, transactionID string) error {
+	transaction, err := l.fetchAndValidateInflightTransaction(ctx, transactionID)
+	if (err == nil && transaction.Status == StatusInflight) || (err != nil && !shouldExpandInflightParent(err)) {
+		_, err = l.VoidInflightTransaction(ctx, transactionID)
+		return err
+	}
+
+	_, err = l.RunInflightActionByParent(ctx, transactionID, InflightActionVoid, big.NewInt(0), "expiry")
+	return err
+}
+
 // fetchAndValidateInflightTransaction fetches and validates an inflight transaction by its ID.
 // It starts a tracing span, attempts to retrieve the transaction from the database or queue, and validates its status.
 //
-- 
2.43.0


From b4d2a40d04a67069bdcbdb1e0a91fc982fab73c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 23/39] fix: a transaction scheduled for later waits for its
 time also when it skips the queue

---
 transaction_queue.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transaction_queue.go b/transaction_queue.go
index 3a74358..2f5a802 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -70,6 +70,12 @@ func (l *Blnk) QueueTransaction(ctx context.Context, transaction *model.Transact
 	ctx, span := tracer.Start(ctx, "QueueTransaction")
 	defer span.End()
 
+	// Skipping the queue posts a transaction at once, a scheduled one has to wait
+	// there for its time.
+	if transaction.ScheduledFor.After(time.Now()) {
+		transaction.SkipQueue = false
+	}
+
 	// Initialize transaction metadata and status
 	originalRef := transaction.Reference
 	setTransactionMetadata(transaction)
-- 
2.43.0


From 111cc9964f6fbd18e68c6b8bdbd457b0cc2f96a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 24/39] fix: verification of the hash chain notices links
 removed from or added at its end

---
 chain_worker.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/chain_worker.go b/chain_worker.go
index 7c121cc..5318c05 100644
--- a/chain_worker.go
+++ b/chain_worker.go
@@ -203,12 +203,35 @@ func (l *Blnk) VerifyChain(ctx context.Context, progress func(seq int64)) (Chain
 			head = ct.ChainHash
 			lastSeq = ct.ChainSeq
 			expectedSeq++
+			if lastSeq == state.LastSeq && head != state.HeadHash {
+				return ChainVerifyResult{BrokenSeq: lastSeq, BrokenTxnID: ct.Row.TransactionID,
+					Reason: "replayed head does not match chain_state head_hash"}, nil
+			}
 			if progress != nil {
 				progress(lastSeq)
 			}
 		}
 	}
 
+	// Rows and bookmark advance together, so what the bookmark counted before the
+	// replay must still be there.
+	if lastSeq < state.LastSeq {
+		return ChainVerifyResult{BrokenSeq: lastSeq + 1,
+			Reason: fmt.Sprintf("chain ends at %d, but chain_state counts %d", lastSeq, state.LastSeq)}, nil
+	}
+
+	// The chainer may have sealed more while the chain was replayed; what it
+	// sealed, the bookmark counts by now.
+	if lastSeq > state.LastSeq {
+		if state, err = l.datasource.GetChainState(ctx); err != nil {
+			return ChainVerifyResult{}, err
+		}
+		if lastSeq > state.LastSeq {
+			return ChainVerifyResult{BrokenSeq: state.LastSeq + 1,
+				Reason: fmt.Sprintf("chain goes on to %d, but chain_state counts %d", lastSeq, state.LastSeq)}, nil
+		}
+	}
+
 	// The replayed head must match the recorded head at the recorded length.
 	if lastSeq == state.LastSeq && head != state.HeadHash {
 		return ChainVerifyResult{BrokenSeq: lastSeq, Reason: "replayed head does not match chain_state head_hash"}, nil
-- 
2.43.0


From e0ebca4964f896363fce19668f4ffd522dfcbc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 25/39] fix: a hold that was queued or is part of a bulk gets
 its lineage recorded

---
 transaction_execution.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transaction_execution.go b/transaction_execution.go
index e8c36e5..32aa92f 100644
--- a/transaction_execution.go
+++ b/transaction_execution.go
@@ -789,7 +789,8 @@ func (l *Blnk) prepareTransactionOutbox(ctx context.Context, transaction *model.
 	}
 
 	// Skip lineage for commits of inflight transactions - lineage was already created for the original.
-	isInflightCommit := transaction.ParentTransaction != "" && transaction.MetaData != nil && transaction.MetaData["inflight"] == true
+	// A hold itself can have a parent too (it was queued, or is part of a bulk).
+	isInflightCommit := transaction.Status == StatusApplied && transaction.ParentTransaction != "" && transaction.MetaData != nil && transaction.MetaData["inflight"] == true
 	if isInflightCommit {
 		return nil
 	}
-- 
2.43.0


From 632c534ec200dcc4f3f4ae8ddbb8b3af9e1192ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 26/39] fix: funds passed on by a balance that tracks lineage
 are not credited as new funds as well

---
 lineage_processing.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lineage_processing.go b/lineage_processing.go
index 94fa30a..d4cbd47 100644
--- a/lineage_processing.go
+++ b/lineage_processing.go
@@ -50,8 +50,10 @@ func (l *Blnk) processLineage(ctx context.Context, txn *model.Transaction, sourc
 		))
 	}
 
-	// Credit must run before debit: debit allocates from the shadow balances credit creates.
-	if validatedProvider != "" && destinationBalance != nil && destinationBalance.TrackFundLineage {
+	// Funds that leave a balance which tracks lineage carry the attribution they have
+	// there (processLineageDebit passes it on), so they are not credited as new funds.
+	fromTracked := sourceBalance != nil && sourceBalance.TrackFundLineage
+	if validatedProvider != "" && !fromTracked && destinationBalance != nil && destinationBalance.TrackFundLineage {
 		if err := l.processLineageCredit(ctx, txn, destinationBalance, validatedProvider); err != nil {
 			span.RecordError(err)
 			notification.NotifyError(err)
@@ -60,7 +62,7 @@ func (l *Blnk) processLineage(ctx context.Context, txn *model.Transaction, sourc
 	}
 
 	// Debit processing doesn't require a provider - it allocates from existing shadow balances
-	if sourceBalance != nil && sourceBalance.TrackFundLineage {
+	if fromTracked {
 		if err := l.processLineageDebit(ctx, txn, sourceBalance, destinationBalance); err != nil {
 			span.RecordError(err)
 			notification.NotifyError(err)
-- 
2.43.0


From 5f727a429650fb1f1e34dea7ce0b8db2e302bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 27/39] fix: funds released by an open hold are not allocated
 to another spend

---
 lineage_allocation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineage_allocation.go b/lineage_allocation.go
index 0444713..43a290a 100644
--- a/lineage_allocation.go
+++ b/lineage_allocation.go
@@ -53,6 +53,10 @@ func (l *Blnk) getLineageSources(ctx context.Context, mappings []model.LineageMa
 
 		if balance.DebitBalance != nil && balance.CreditBalance != nil && balance.DebitBalance.Cmp(big.NewInt(0)) > 0 {
 			available := new(big.Int).Sub(balance.DebitBalance, balance.CreditBalance)
+			if balance.InflightCreditBalance != nil {
+				// Funds released by a hold that is still open are spoken for.
+				available.Sub(available, balance.InflightCreditBalance)
+			}
 			if available.Cmp(big.NewInt(0)) > 0 {
 				sources = append(sources, LineageSource{
 					BalanceID: mapping.ShadowBalanceID,
-- 
2.43.0


From 6e7d428cb7049dfefb8309f0ae3552e8ee136bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 28/39] fix: proportional allocation allocates what rounding
 leaves over

---
 lineage_allocation.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lineage_allocation.go b/lineage_allocation.go
index 43a290a..6242ea4 100644
--- a/lineage_allocation.go
+++ b/lineage_allocation.go
@@ -161,8 +161,6 @@ func (l *Blnk) sequentialAllocation(sources []LineageSource, amount *big.Int) []
 // Returns:
 // - []Allocation: The calculated allocations.
 func (l *Blnk) proportionalAllocation(sources []LineageSource, amount *big.Int) []Allocation {
-	var allocations []Allocation
-
 	// Skip if amount is zero or negative
 	if amount.Cmp(big.NewInt(0)) <= 0 {
 		return nil
@@ -186,6 +184,7 @@ func (l *Blnk) proportionalAllocation(sources []LineageSource, amount *big.Int)
 
 	remaining := new(big.Int).Set(effectiveAmount)
 
+	shares := make([]*big.Int, len(sources))
 	for i, source := range sources {
 		var alloc *big.Int
 
@@ -203,17 +202,30 @@ func (l *Blnk) proportionalAllocation(sources []LineageSource, amount *big.Int)
 			alloc.Set(source.Balance)
 		}
 
+		shares[i] = alloc
+		remaining.Sub(remaining, alloc)
+	}
+
+	var allocations []Allocation
+	for i, source := range sources {
+		// The last source may not be able to cover what rounding left over; the others can.
+		if spare := new(big.Int).Sub(source.Balance, shares[i]); remaining.Sign() > 0 && spare.Sign() > 0 {
+			if spare.Cmp(remaining) > 0 {
+				spare.Set(remaining)
+			}
+			shares[i].Add(shares[i], spare)
+			remaining.Sub(remaining, spare)
+		}
+
 		// Skip zero allocations
-		if alloc.Cmp(big.NewInt(0)) <= 0 {
+		if shares[i].Sign() <= 0 {
 			continue
 		}
 
 		allocations = append(allocations, Allocation{
 			BalanceID: source.BalanceID,
-			Amount:    alloc,
+			Amount:    shares[i],
 		})
-
-		remaining.Sub(remaining, alloc)
 	}
 
 	return allocations
-- 
2.43.0


From 56ea1a0201f35a523a1f7d50461ab5197b9d06b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 29/39] fix: a hold settled before its lineage is processed
 settles its shadow transactions too

---
 lineage_shadow.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lineage_shadow.go b/lineage_shadow.go
index f2431a9..d7f2093 100644
--- a/lineage_shadow.go
+++ b/lineage_shadow.go
@@ -112,6 +112,34 @@ func (l *Blnk) voidShadowTransactions(ctx context.Context, parentTransactionID s
 	return nil
 }
 
+// settleLateShadows commits or voids the shadow transactions of a hold that was itself
+// committed or voided before its lineage was processed: they did not exist yet then.
+//
+// Parameters:
+// - ctx context.Context: The context for the operation.
+// - parentTransactionID string: The hold.
+//
+// Returns:
+// - error: An error if the shadows could not be settled.
+func (l *Blnk) settleLateShadows(ctx context.Context, parentTransactionID string) error {
+	voided, err := l.datasource.IsParentTransactionVoid(ctx, parentTransactionID)
+	if err != nil {
+		return fmt.Errorf("failed to check if hold %s is void: %w", parentTransactionID, err)
+	}
+	if voided {
+		return l.voidShadowTransactions(ctx, parentTransactionID)
+	}
+
+	committed, err := l.datasource.GetTotalCommittedTransactions(ctx, parentTransactionID)
+	if err != nil {
+		return fmt.Errorf("failed to check what is committed of hold %s: %w", parentTransactionID, err)
+	}
+	if committed != nil && committed.Sign() > 0 {
+		return l.commitShadowTransactions(ctx, parentTransactionID, nil)
+	}
+	return nil
+}
+
 // queueShadowWork processes shadow commit or void work synchronously first, and queues
 // to outbox for retry only if there are failures. This provides both immediate processing
 // and guaranteed delivery for failed operations.
-- 
2.43.0


From 14371de20838973d00ffa5480f25ee3e319ecce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 30/39] fix: a lineage entry whose balance could not be read is
 retried, not completed

---
 lineage_outbox.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lineage_outbox.go b/lineage_outbox.go
index 8c14267..f9182ba 100644
--- a/lineage_outbox.go
+++ b/lineage_outbox.go
@@ -175,13 +175,17 @@ func (l *Blnk) ProcessLineageFromOutbox(ctx context.Context, entry model.Lineage
 	if entry.SourceBalanceID != "" {
 		sourceBalance, err = l.datasource.GetBalanceByIDLite(entry.SourceBalanceID)
 		if err != nil {
+			if entry.LineageType != model.LineageTypeCredit {
+				return fmt.Errorf("failed to get source balance %s for lineage processing: %w", entry.SourceBalanceID, err)
+			}
+			// A credit does not draw on its source.
 			logrus.Warnf("failed to get source balance %s for lineage processing: %v", entry.SourceBalanceID, err)
 		}
 	}
 	if entry.DestinationBalanceID != "" {
 		destinationBalance, err = l.datasource.GetBalanceByIDLite(entry.DestinationBalanceID)
 		if err != nil {
-			logrus.Warnf("failed to get destination balance %s for lineage processing: %v", entry.DestinationBalanceID, err)
+			return fmt.Errorf("failed to get destination balance %s for lineage processing: %w", entry.DestinationBalanceID, err)
 		}
 	}
 
@@ -189,6 +193,12 @@ func (l *Blnk) ProcessLineageFromOutbox(ctx context.Context, entry model.Lineage
 		return err
 	}
 
+	if entry.Inflight {
+		if err := l.settleLateShadows(ctx, txn.TransactionID); err != nil {
+			return err
+		}
+	}
+
 	span.AddEvent("Lineage processing completed from outbox")
 	return nil
 }
-- 
2.43.0


From 357afa9886b94dd7de0b2bfc780cf9f8e8bc0233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 31/39] fix: a lineage credit that is retried goes on from its
 shadow transaction

---
 lineage_credit.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lineage_credit.go b/lineage_credit.go
index 08da11f..0df68cb 100644
--- a/lineage_credit.go
+++ b/lineage_credit.go
@@ -50,14 +50,22 @@ func (l *Blnk) processLineageCredit(ctx context.Context, txn *model.Transaction,
 	}
 	defer l.releaseLock(ctx, locker)
 
-	if err := l.queueShadowCreditTransaction(ctx, txn, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil {
-		return err
+	// An earlier attempt may have got as far as the shadow transaction.
+	exists, err := l.datasource.TransactionExistsByRef(ctx, shadowReference(txn.Reference, provider))
+	if err != nil {
+		return fmt.Errorf("failed to check shadow credit idempotency: %w", err)
+	}
+	if !exists {
+		if err := l.queueShadowCreditTransaction(ctx, txn, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil {
+			return err
+		}
 	}
 
+	// Debits find the shadow balance through the mapping, so without it the entry has to be retried.
 	if err := l.upsertCreditLineageMapping(ctx, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil {
 		logrus.Errorf("failed to create lineage mapping after shadow transaction: %v (txn: %s, provider: %s)", err, txn.TransactionID, provider)
 		span.RecordError(err)
-		// Don't return error - shadow transaction succeeded, mapping is for optimization
+		return err
 	}
 
 	span.AddEvent("Lineage credit processed", trace.WithAttributes(
@@ -151,7 +159,7 @@ func (l *Blnk) queueShadowCreditTransaction(ctx context.Context, txn *model.Tran
 		PreciseAmount: new(big.Int).Set(txn.PreciseAmount),
 		Currency:      destBalance.Currency,
 		Precision:     txn.Precision,
-		Reference:     fmt.Sprintf("%s_shadow_%s", txn.Reference, provider),
+		Reference:     shadowReference(txn.Reference, provider),
 		Description:   fmt.Sprintf("Shadow credit from %s", provider),
 		MetaData: map[string]interface{}{
 			"_shadow_for":   txn.TransactionID,
@@ -186,3 +194,8 @@ func (l *Blnk) queueShadowCreditTransaction(ctx context.Context, txn *model.Tran
 //
 // Returns:
 // - error: An error if the debit processing fails.
+
+// shadowReference builds the idempotency key for a shadow credit transaction.
+func shadowReference(parentRef, provider string) string {
+	return fmt.Sprintf("%s_shadow_%s", parentRef, provider)
+}
-- 
2.43.0


From d76e1932812000603ae4d0f53bbe400a0dfd76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 32/39] fix: a lineage debit that is retried goes on from what
 it released

---
 lineage_debit.go | 127 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 115 insertions(+), 12 deletions(-)

diff --git a/lineage_debit.go b/lineage_debit.go
index c5f6cb2..1bafb02 100644
--- a/lineage_debit.go
+++ b/lineage_debit.go
@@ -23,7 +23,6 @@ import (
 
 	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/model"
-	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/trace"
 )
@@ -43,8 +42,7 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 		// If so, retry later after those credits are processed
 		hasPending, err := l.datasource.HasPendingCreditOutbox(ctx, sourceBalance.BalanceID)
 		if err != nil {
-			logrus.Warnf("failed to check pending credit outbox for balance %s: %v", sourceBalance.BalanceID, err)
-			return nil
+			return fmt.Errorf("failed to check pending credit outbox for balance %s: %w", sourceBalance.BalanceID, err)
 		}
 		if hasPending {
 			return fmt.Errorf("pending credit outbox entries exist for balance %s, retry later", sourceBalance.BalanceID)
@@ -64,12 +62,11 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 	if destinationBalance != nil && destinationBalance.TrackFundLineage && destinationBalance.IdentityID != "" {
 		destLineageBalances, err = l.prepareDestinationLineageBalances(ctx, mappings, destinationBalance)
 		if err != nil {
-			logrus.Warnf("failed to prepare destination lineage balances: %v", err)
-		} else {
-			for _, info := range destLineageBalances {
-				lockKeys = append(lockKeys, info.shadowBalance.BalanceID)
-				lockKeys = append(lockKeys, info.aggregateBalance.BalanceID)
-			}
+			return fmt.Errorf("failed to prepare destination lineage balances: %w", err)
+		}
+		for _, info := range destLineageBalances {
+			lockKeys = append(lockKeys, info.shadowBalance.BalanceID)
+			lockKeys = append(lockKeys, info.aggregateBalance.BalanceID)
 		}
 	}
 
@@ -85,6 +82,12 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 		return fmt.Errorf("failed to get lineage sources: %w", err)
 	}
 
+	// What an earlier attempt released has to reach the destination too.
+	released, err := l.finishPriorReleases(ctx, txn, mappings, sourceBalance, destinationBalance, destLineageBalances)
+	if err != nil {
+		return err
+	}
+
 	remaining, err := l.remainingDebitAmount(ctx, txn, mappings)
 	if err != nil {
 		return err
@@ -94,7 +97,7 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 		return nil
 	}
 
-	allocations := l.calculateAllocation(sources, remaining, sourceBalance.AllocationStrategy)
+	allocations := l.resumeAllocation(sources, mappings, released, txn.PreciseAmount, remaining, sourceBalance.AllocationStrategy)
 
 	sourceAggBalance, err := l.getSourceAggregateBalance(ctx, sourceBalance)
 	if err != nil {
@@ -143,6 +146,100 @@ func (l *Blnk) remainingDebitAmount(ctx context.Context, txn *model.Transaction,
 	return new(big.Int).Sub(txn.PreciseAmount, released), nil
 }
 
+// finishPriorReleases passes on to the destination what an earlier attempt at the same
+// entry already released.
+//
+// Parameters:
+// - ctx context.Context: The context for the operation.
+// - txn *model.Transaction: The debit transaction.
+// - mappings []model.LineageMapping: The lineage mappings of the source.
+// - sourceBalance *model.Balance: The source balance being debited.
+// - destinationBalance *model.Balance: The destination balance receiving funds.
+// - destLineageBalances map[string]*destinationLineageInfo: Pre-created destination lineage balances by provider.
+//
+// Returns:
+// - map[string]*big.Int: What was released, by shadow balance.
+// - error: An error if a release could not be read or passed on.
+func (l *Blnk) finishPriorReleases(ctx context.Context, txn *model.Transaction, mappings []model.LineageMapping, sourceBalance, destinationBalance *model.Balance, destLineageBalances map[string]*destinationLineageInfo) (map[string]*big.Int, error) {
+	released := make(map[string]*big.Int)
+	for i := range mappings {
+		mapping := &mappings[i]
+		ref := releaseReference(txn.Reference, mapping.Provider)
+		exists, err := l.datasource.TransactionExistsByRef(ctx, ref)
+		if err != nil {
+			return nil, fmt.Errorf("failed to check release idempotency: %w", err)
+		}
+		if !exists {
+			continue
+		}
+		prior, err := l.datasource.GetTransactionByRef(ctx, ref)
+		if err != nil {
+			return nil, fmt.Errorf("failed to load prior release %s: %w", ref, err)
+		}
+		released[mapping.ShadowBalanceID] = prior.PreciseAmount
+
+		alloc := Allocation{BalanceID: mapping.ShadowBalanceID, Amount: prior.PreciseAmount}
+		if err := l.processDestinationLineage(ctx, txn, alloc, mapping, sourceBalance, destinationBalance, destLineageBalances); err != nil {
+			return nil, fmt.Errorf("failed to process destination lineage: %w", err)
+		}
+	}
+	return released, nil
+}
+
+// resumeAllocation allocates a debit over the sources. When an earlier attempt released
+// part of it, the shares are worked out as they were then, and what is left of the debit
+// goes to the sources that released nothing yet.
+//
+// Parameters:
+// - sources []LineageSource: What is available now.
+// - mappings []model.LineageMapping: The lineage mappings of the source.
+// - released map[string]*big.Int: What earlier attempts released, by shadow balance.
+// - amount *big.Int: The amount of the debit.
+// - remaining *big.Int: What of it is not released yet.
+// - strategy string: The allocation strategy.
+//
+// Returns:
+// - []Allocation: The allocations, those already released included.
+func (l *Blnk) resumeAllocation(sources []LineageSource, mappings []model.LineageMapping, released map[string]*big.Int, amount, remaining *big.Int, strategy string) []Allocation {
+	if len(released) == 0 {
+		return l.calculateAllocation(sources, remaining, strategy)
+	}
+
+	available := make(map[string]*big.Int, len(sources))
+	for _, source := range sources {
+		available[source.BalanceID] = source.Balance
+	}
+
+	before := make([]LineageSource, 0, len(mappings))
+	for _, m := range mappings {
+		total := big.NewInt(0)
+		if now, ok := available[m.ShadowBalanceID]; ok {
+			total.Add(total, now)
+		}
+		if prior, ok := released[m.ShadowBalanceID]; ok {
+			total.Add(total, prior)
+		}
+		if total.Sign() > 0 {
+			before = append(before, LineageSource{BalanceID: m.ShadowBalanceID, Balance: total, CreatedAt: m.CreatedAt})
+		}
+	}
+
+	left := new(big.Int).Set(remaining)
+	var allocations []Allocation
+	for _, alloc := range l.calculateAllocation(before, amount, strategy) {
+		if prior, ok := released[alloc.BalanceID]; ok {
+			alloc.Amount = new(big.Int).Set(prior)
+		} else {
+			if alloc.Amount.Cmp(left) > 0 {
+				alloc.Amount = new(big.Int).Set(left)
+			}
+			left.Sub(left, alloc.Amount)
+		}
+		allocations = append(allocations, alloc)
+	}
+	return allocations
+}
+
 // prepareDestinationLineageBalances pre-creates destination shadow and aggregate balances for all providers.
 // This is called BEFORE acquiring locks to avoid nested lock acquisition deadlocks.
 //
@@ -337,8 +434,14 @@ func (l *Blnk) processDestinationLineage(ctx context.Context, txn *model.Transac
 	destShadowBalance := destInfo.shadowBalance
 	destAggBalance := destInfo.aggregateBalance
 
-	if err := l.queueReceiveTransaction(ctx, txn, alloc, mapping, sourceBalance, destinationBalance, destShadowBalance, destAggBalance); err != nil {
-		return fmt.Errorf("failed to queue receive transaction: %w", err)
+	exists, err := l.datasource.TransactionExistsByRef(ctx, receiveReference(txn.Reference, mapping.Provider))
+	if err != nil {
+		return fmt.Errorf("failed to check receive idempotency: %w", err)
+	}
+	if !exists {
+		if err := l.queueReceiveTransaction(ctx, txn, alloc, mapping, sourceBalance, destinationBalance, destShadowBalance, destAggBalance); err != nil {
+			return fmt.Errorf("failed to queue receive transaction: %w", err)
+		}
 	}
 
 	destMapping := model.LineageMapping{
-- 
2.43.0


From 8dbb3f7f239ef8265fcffcade20be654c5199705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 33/39] fix: a monitor with the operator = fires

---
 model/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index 097c9f3..b3c273c 100644
--- a/model/model.go
+++ b/model/model.go
@@ -83,7 +83,7 @@ func compare(value *big.Int, condition string, compareTo *big.Int) bool {
 		return cmp <= 0
 	case "!=":
 		return cmp != 0
-	case "==":
+	case "=", "==":
 		return cmp == 0
 	}
 	return false
-- 
2.43.0


From 22a627844941beb1f171c658620e04a05580ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 34/39] fix: an updated monitor is compared with its new
 threshold

---
 balance.go          | 32 +++++++++++++++++++++++++++++---
 database/balance.go | 18 +++++++++++++++---
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/balance.go b/balance.go
index 7b904b2..8121419 100644
--- a/balance.go
+++ b/balance.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"math/big"
 	"time"
 
 	"github.com/blnkfinance/blnk/config"
@@ -28,6 +29,7 @@ import (
 	"github.com/blnkfinance/blnk/internal/metrics"
 	"github.com/blnkfinance/blnk/internal/notification"
 	"github.com/blnkfinance/blnk/model"
+	"github.com/shopspring/decimal"
 	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/attribute"
@@ -347,6 +349,11 @@ func (l *Blnk) GetAllBalancesWithFilterAndOptions(ctx context.Context, filters *
 	return balances, count, nil
 }
 
+// monitorThreshold applies the precision of a condition to its value.
+func monitorThreshold(condition model.AlertCondition) *big.Int {
+	return decimal.NewFromFloat(condition.Value).Mul(decimal.NewFromFloat(condition.Precision)).BigInt()
+}
+
 // CreateMonitor creates a new balance monitor.
 // It starts a tracing span, applies precision to the monitor's condition value, and creates the monitor.
 // It records relevant events and errors.
@@ -362,9 +369,7 @@ func (l *Blnk) CreateMonitor(ctx context.Context, monitor model.BalanceMonitor)
 	_, span := balanceTracer.Start(ctx, "CreateMonitor")
 	defer span.End()
 
-	amount := int64(monitor.Condition.Value * monitor.Condition.Precision) // apply precision to value
-	amountBigInt := model.Int64ToBigInt(amount)
-	monitor.Condition.PreciseValue = amountBigInt
+	monitor.Condition.PreciseValue = monitorThreshold(monitor.Condition)
 	monitor, err := l.datasource.CreateMonitor(monitor)
 	if err != nil {
 		span.RecordError(err)
@@ -458,6 +463,24 @@ func (l *Blnk) UpdateMonitor(ctx context.Context, monitor *model.BalanceMonitor)
 	_, span := balanceTracer.Start(ctx, "UpdateMonitor")
 	defer span.End()
 
+	// The threshold the condition is compared with is stored next to the value
+	// and the precision it is made of, and the monitors of a balance are cached
+	// under the balance: a monitor that gets a new condition or moves to another
+	// balance has to be looked up first.
+	previousBalanceID := monitor.BalanceID
+	if monitor.Condition.Field != "" {
+		current, err := l.datasource.GetMonitorByID(monitor.MonitorID)
+		if err != nil {
+			span.RecordError(err)
+			return err
+		}
+		previousBalanceID = current.BalanceID
+		if monitor.Condition.Precision == 0 {
+			monitor.Condition.Precision = current.Condition.Precision
+		}
+		monitor.Condition.PreciseValue = monitorThreshold(monitor.Condition)
+	}
+
 	err := l.datasource.UpdateMonitor(monitor)
 	if err != nil {
 		span.RecordError(err)
@@ -465,6 +488,9 @@ func (l *Blnk) UpdateMonitor(ctx context.Context, monitor *model.BalanceMonitor)
 	}
 
 	_ = l.cache.Delete(ctx, "monitors:"+monitor.BalanceID)
+	if previousBalanceID != monitor.BalanceID {
+		_ = l.cache.Delete(ctx, "monitors:"+previousBalanceID)
+	}
 
 	span.AddEvent("Monitor updated", trace.WithAttributes(attribute.String("monitor.id", monitor.MonitorID)))
 	return nil
diff --git a/database/balance.go b/database/balance.go
index d95cca9..8a8b226 100644
--- a/database/balance.go
+++ b/database/balance.go
@@ -1311,12 +1311,24 @@ func (d Datasource) GetBalanceMonitors(balanceID string) ([]model.BalanceMonitor
 // Returns:
 // - error: If the update fails, an appropriate `APIError` is returned.
 func (d Datasource) UpdateMonitor(monitor *model.BalanceMonitor) error {
-	// Execute the SQL update statement, replacing the placeholder values with the monitor's data
-	result, err := d.Conn.ExecContext(context.Background(), `
+	query := `
 		UPDATE blnk.balance_monitors
 		SET balance_id = $2, field = $3, operator = $4, value = $5, description = $6, call_back_url = $7
 		WHERE monitor_id = $1
-	`, monitor.MonitorID, monitor.BalanceID, monitor.Condition.Field, monitor.Condition.Operator, monitor.Condition.Value, monitor.Description, monitor.CallBackURL)
+	`
+	args := []interface{}{monitor.MonitorID, monitor.BalanceID, monitor.Condition.Field, monitor.Condition.Operator, monitor.Condition.Value, monitor.Description, monitor.CallBackURL}
+	// The threshold goes with the value and the precision it was made of
+	if monitor.Condition.PreciseValue != nil {
+		query = `
+		UPDATE blnk.balance_monitors
+		SET balance_id = $2, field = $3, operator = $4, value = $5, description = $6, call_back_url = $7, precision = $8, precise_value = $9
+		WHERE monitor_id = $1
+	`
+		args = append(args, monitor.Condition.Precision, monitor.Condition.PreciseValue.String())
+	}
+
+	// Execute the SQL update statement, replacing the placeholder values with the monitor's data
+	result, err := d.Conn.ExecContext(context.Background(), query, args...)
 	// If an error occurred during execution, return an internal server error
 	if err != nil {
 		return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to update monitor", err)
-- 
2.43.0


From 0c432c792df5a414a1a5293342eb509f7e36beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 35/39] fix: an edited monitor is not evaluated from another
 process's cache

---
 balance.go              |  7 +++++--
 internal/cache/cache.go | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/balance.go b/balance.go
index 8121419..f6aca5d 100644
--- a/balance.go
+++ b/balance.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/blnkfinance/blnk/config"
 	"github.com/blnkfinance/blnk/internal/apierror"
+	"github.com/blnkfinance/blnk/internal/cache"
 	"github.com/blnkfinance/blnk/internal/filter"
 	"github.com/blnkfinance/blnk/internal/metrics"
 	"github.com/blnkfinance/blnk/internal/notification"
@@ -120,9 +121,11 @@ func (l *Blnk) checkBalanceMonitors(ctx context.Context, updatedBalance *model.B
 // - error: An error if the monitors could not be retrieved.
 func (l *Blnk) getBalanceMonitorsCached(ctx context.Context, balanceID string) ([]model.BalanceMonitor, error) {
 	cacheKey := "monitors:" + balanceID
+	// Monitors are edited by the API server and evaluated by the workers too
+	shared := cache.Shared(l.cache)
 
 	var monitors []model.BalanceMonitor
-	err := l.cache.Get(ctx, cacheKey, &monitors)
+	err := shared.Get(ctx, cacheKey, &monitors)
 	if err == nil && monitors != nil {
 		return monitors, nil
 	}
@@ -136,7 +139,7 @@ func (l *Blnk) getBalanceMonitorsCached(ctx context.Context, balanceID string) (
 		monitors = []model.BalanceMonitor{}
 	}
 
-	_ = l.cache.Set(ctx, cacheKey, monitors, 5*time.Minute)
+	_ = shared.Set(ctx, cacheKey, monitors, 5*time.Minute)
 	return monitors, nil
 }
 
diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index ec4bbcf..0572616 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -153,3 +153,40 @@ func (r *RedisCache) Get(ctx context.Context, key string, data interface{}) erro
 func (r *RedisCache) Delete(ctx context.Context, key string) error {
 	return r.cache.Delete(ctx, key)
 }
+
+// sharedCache keeps its entries in Redis only, so that a Delete by one process
+// is seen by all of them at once.
+type sharedCache struct {
+	*RedisCache
+}
+
+// Shared returns a view of c that does not use the in-process cache. It is for
+// entries that another process may invalidate and that must not be served
+// after that.
+func Shared(c Cache) Cache {
+	if r, ok := c.(*RedisCache); ok {
+		return &sharedCache{RedisCache: r}
+	}
+	return c
+}
+
+// Set stores a value in Redis only.
+func (s *sharedCache) Set(ctx context.Context, key string, data interface{}, ttl time.Duration) error {
+	return s.cache.Set(&cache.Item{
+		Ctx:            ctx,
+		Key:            key,
+		Value:          data,
+		TTL:            ttl,
+		SkipLocalCache: true,
+	})
+}
+
+// Get reads a value from Redis.
+func (s *sharedCache) Get(ctx context.Context, key string, data interface{}) error {
+	err := s.cache.GetSkippingLocalCache(ctx, key, &data)
+	if errors.Is(err, cache.ErrCacheMiss) {
+		return nil // Return nil if the cache key was not found (cache miss)
+	}
+
+	return err
+}
-- 
2.43.0


From 385052962411ff9fe8aa2a5a9dc607b34350527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 36/39] fix: a monitor lookup under way does not bring back
 edited monitors

---
 balance.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/balance.go b/balance.go
index f6aca5d..a150da0 100644
--- a/balance.go
+++ b/balance.go
@@ -108,6 +108,24 @@ func (l *Blnk) checkBalanceMonitors(ctx context.Context, updatedBalance *model.B
 	}
 }
 
+// monitorCacheTTL is how long the monitors of a balance are cached. The
+// generation of the entries is kept for longer.
+const monitorCacheTTL = 5 * time.Minute
+
+type monitorGeneration struct {
+	ID string
+}
+
+func monitorGenerationKey(balanceID string) string {
+	return "monitors-generation:" + balanceID
+}
+
+// forgetMonitors makes the cached monitors of a balance unreachable.
+func (l *Blnk) forgetMonitors(ctx context.Context, balanceID string) {
+	_ = cache.Shared(l.cache).Set(ctx, monitorGenerationKey(balanceID), monitorGeneration{ID: model.GenerateUUIDWithSuffix("gen")}, 4*monitorCacheTTL)
+	_ = l.cache.Delete(ctx, "monitors:"+balanceID)
+}
+
 // getBalanceMonitorsCached retrieves balance monitors with caching.
 // It first checks the cache for monitors, and if not found, fetches from the database
 // and caches the result with a 5-minute TTL.
@@ -120,9 +138,16 @@ func (l *Blnk) checkBalanceMonitors(ctx context.Context, updatedBalance *model.B
 // - []model.BalanceMonitor: A slice of monitors for the balance.
 // - error: An error if the monitors could not be retrieved.
 func (l *Blnk) getBalanceMonitorsCached(ctx context.Context, balanceID string) ([]model.BalanceMonitor, error) {
-	cacheKey := "monitors:" + balanceID
 	// Monitors are edited by the API server and evaluated by the workers too
 	shared := cache.Shared(l.cache)
+	// An edit starts a new generation of entries: a lookup that was under way
+	// stores what it found under the old one
+	var generation monitorGeneration
+	_ = shared.Get(ctx, monitorGenerationKey(balanceID), &generation)
+	cacheKey := "monitors:" + balanceID
+	if generation.ID != "" {
+		cacheKey += ":" + generation.ID
+	}
 
 	var monitors []model.BalanceMonitor
 	err := shared.Get(ctx, cacheKey, &monitors)
@@ -139,7 +164,7 @@ func (l *Blnk) getBalanceMonitorsCached(ctx context.Context, balanceID string) (
 		monitors = []model.BalanceMonitor{}
 	}
 
-	_ = shared.Set(ctx, cacheKey, monitors, 5*time.Minute)
+	_ = shared.Set(ctx, cacheKey, monitors, monitorCacheTTL)
 	return monitors, nil
 }
 
@@ -379,7 +404,7 @@ func (l *Blnk) CreateMonitor(ctx context.Context, monitor model.BalanceMonitor)
 		return model.BalanceMonitor{}, err
 	}
 
-	_ = l.cache.Delete(ctx, "monitors:"+monitor.BalanceID)
+	l.forgetMonitors(ctx, monitor.BalanceID)
 
 	span.AddEvent("Monitor created", trace.WithAttributes(attribute.String("monitor.id", monitor.MonitorID)))
 	return monitor, nil
@@ -490,9 +515,9 @@ func (l *Blnk) UpdateMonitor(ctx context.Context, monitor *model.BalanceMonitor)
 		return err
 	}
 
-	_ = l.cache.Delete(ctx, "monitors:"+monitor.BalanceID)
+	l.forgetMonitors(ctx, monitor.BalanceID)
 	if previousBalanceID != monitor.BalanceID {
-		_ = l.cache.Delete(ctx, "monitors:"+previousBalanceID)
+		l.forgetMonitors(ctx, previousBalanceID)
 	}
 
 	span.AddEvent("Monitor updated", trace.WithAttributes(attribute.String("monitor.id", monitor.MonitorID)))
@@ -524,7 +549,7 @@ func (l *Blnk) DeleteMonitor(ctx context.Context, id string) error {
 		return err
 	}
 
-	_ = l.cache.Delete(ctx, "monitors:"+monitor.BalanceID)
+	l.forgetMonitors(ctx, monitor.BalanceID)
 
 	span.AddEvent("Monitor deleted", trace.WithAttributes(attribute.String("monitor.id", id)))
 	return nil
-- 
2.43.0


From b5d9bb6aaf7ba7cdffe5e965f23cc2ff27a957f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 37/39] fix: a hot pair stays hot while its transactions wait
 in the hot queue

The state of a hot or cooling pair expired after four times its time to live even when transactions of the pair were still waiting in the hot queue; later ones then went to the normal queue and overtook them.
---
 internal/hotpairs/hotpairs.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/hotpairs/hotpairs.go b/internal/hotpairs/hotpairs.go
index a18cd9b..48ab2e0 100644
--- a/internal/hotpairs/hotpairs.go
+++ b/internal/hotpairs/hotpairs.go
@@ -121,12 +121,14 @@ func (m *Manager) RecordContention(ctx context.Context, pairKey string) (int64,
 	if err != nil {
 		return current, false, err
 	}
-	if state == StateHot || state == StateCoolingDown || state == StatePromoting {
+	if state == StatePromoting {
 		_ = m.client.Expire(ctx, m.stateKey(pairKey), m.stateTTL()).Err()
+	}
+	if state == StateHot || state == StateCoolingDown || state == StatePromoting {
 		return current, state == StatePromoting, nil
 	}
 
-	if err := m.setState(ctx, pairKey, StatePromoting); err != nil {
+	if err := m.setState(ctx, pairKey, StatePromoting, m.stateTTL()); err != nil {
 		return current, false, err
 	}
 
@@ -147,7 +149,7 @@ func (m *Manager) ActivateHot(ctx context.Context, pairKey string) error {
 	}
 
 	pipe := m.client.TxPipeline()
-	pipe.Set(ctx, m.stateKey(pairKey), string(StateHot), m.stateTTL())
+	pipe.Set(ctx, m.stateKey(pairKey), string(StateHot), 0)
 	pipe.Set(ctx, m.activityKey(pairKey), "1", m.pairTTL)
 	_, err := pipe.Exec(ctx)
 	return err
@@ -157,7 +159,7 @@ func (m *Manager) StartCoolingDown(ctx context.Context, pairKey string) error {
 	if !m.Enabled() {
 		return nil
 	}
-	return m.setState(ctx, pairKey, StateCoolingDown)
+	return m.setState(ctx, pairKey, StateCoolingDown, 0)
 }
 
 func (m *Manager) SetNormal(ctx context.Context, pairKey string) error {
@@ -173,8 +175,11 @@ func (m *Manager) SetNormal(ctx context.Context, pairKey string) error {
 	return err
 }
 
-func (m *Manager) setState(ctx context.Context, pairKey string, state State) error {
-	return m.client.Set(ctx, m.stateKey(pairKey), string(state), m.stateTTL()).Err()
+// setState stores the state of a pair. A pair that is hot or cooling down keeps its state (ttl 0)
+// until SetNormal: if it expired with transactions of the pair still waiting in the hot queue, later
+// ones would overtake them through the normal queue.
+func (m *Manager) setState(ctx context.Context, pairKey string, state State, ttl time.Duration) error {
+	return m.client.Set(ctx, m.stateKey(pairKey), string(state), ttl).Err()
 }
 
 func (m *Manager) stateKey(pairKey string) string {
-- 
2.43.0


From 0977dcc53e723d05fb89570d2ff58b63c4cad8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 38/39] fix: one notification of a rejected transaction

RejectTransaction notifies the receiver itself; the worker sent transaction.rejected a second time.
---
 cmd/workers.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/cmd/workers.go b/cmd/workers.go
index 253529a..9bee24a 100644
--- a/cmd/workers.go
+++ b/cmd/workers.go
@@ -152,16 +152,9 @@ func (b *blnkInstance) processTransaction(ctx context.Context, t *asynq.Task) er
 }
 
 func handleTransactionRejection(ctx context.Context, b *blnkInstance, txn *model.Transaction, err error) error {
+	// RejectTransaction notifies the receiver of webhooks itself.
 	_, rejectErr := b.blnk.RejectTransaction(ctx, txn, err.Error())
-	if rejectErr != nil {
-		return rejectErr
-	}
-
-	webhookErr := b.blnk.SendWebhook(blnk.NewWebhook{
-		Event:   "transaction.rejected",
-		Payload: *txn,
-	})
-	return webhookErr
+	return rejectErr
 }
 
 func hasReachedMaxRetryAttempt(cfg *config.Configuration, retryCount int) bool {
-- 
2.43.0


From 5ed4c43f9451ca5a2bb3fc54a20a81d691b3ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 39/39] fix: notifications keep every digit of the amounts they
 carry

The worker decoded the queued notification with numbers as floats before sending it on, which rounds integers beyond 2^53 (precise_amount).
---
 webhooks.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/webhooks.go b/webhooks.go
index 5eec46d..75383a8 100644
--- a/webhooks.go
+++ b/webhooks.go
@@ -175,7 +175,10 @@ func (b *Blnk) ProcessWebhook(_ context.Context, task *asynq.Task) error {
 		return nil
 	}
 	var payload NewWebhook
-	if err := json.Unmarshal(task.Payload(), &payload); err != nil {
+	// Numbers are passed on as they are: as floats, amounts beyond 2^53 would lose digits.
+	decoder := json.NewDecoder(bytes.NewReader(task.Payload()))
+	decoder.UseNumber()
+	if err := decoder.Decode(&payload); err != nil {
 		logrus.Errorf("Error unmarshaling task payload: %v", err)
 		return err
 	}
-- 
2.43.0

