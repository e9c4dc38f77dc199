From 0af7697a77422e84776c72f474dca4328b799bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 01/36] fix: attach the comments after a commodity line to its
 own currency

A commodity line without a valid value followed by an indented comment
indexed an empty list of currencies; after a commodity line for a
currency already known, the comment went to the last currency instead.
---
 backend/ledger/parser.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1973619..a611576 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -191,6 +191,7 @@ func (l *ledgerConnection) readJournal() error {
 	s.NewFile(l.file)
 
 	lastLine := lineNone
+	var lastCurrency *accounting.Currency // currency of the last "commodity" line
 	for {
 		line := s.Line()
 		if line.Err != nil {
@@ -221,8 +222,7 @@ func (l *ledgerConnection) readJournal() error {
 					var account *accounting.Account = l.ledger.Accounts[len(l.ledger.Accounts)-1]
 					l.addComment(account, comment)
 				case lineCommodity:
-					var currency *accounting.Currency = l.ledger.Currencies[len(l.ledger.Currencies)-1]
-					l.addComment(currency, comment)
+					l.addComment(lastCurrency, comment)
 				case linePrice:
 					var price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]
 					l.addComment(price, comment)
@@ -299,12 +299,17 @@ func (l *ledgerConnection) readJournal() error {
 			continue
 		}
 		if !indented && word == "commodity" {
-			lastLine = lineCommodity
-			_, err, _ := l.getValue(rest)
+			lastLine = lineNone
+			value, err, _ := l.getValue(rest)
+			if err == nil && value.Currency == nil {
+				err = errors.New("commodity without value")
+			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			lastCurrency = value.Currency
+			lastLine = lineCommodity
 			continue
 		}
 		if !indented && word == "account" {
-- 
2.43.0


From b9ff72e1b3833f6783f118a118703cfbd214e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 02/36] fix: do not give a currency a precision it cannot have

An amount with more than 8 decimals was rejected, but only after its new
currency had been given that many decimals: printing any later amount of
that currency panicked.
---
 backend/ledger/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index a611576..1ae8b1e 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -598,14 +598,14 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
+		if shift > 8 {
+			return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
+		}
 		if newCurrency {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
 	}
-	if shift < 0 || shift > 8 {
-		return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
-	}
 	for i := 0; i < shift; i++ {
 		value.Amount *= 10
 	}
-- 
2.43.0


From 33edf09b8bc9fd2a6e367129136f67d65929942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 03/36] fix: reject amounts that do not fit instead of wrapping
 around

---
 backend/ledger/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1ae8b1e..97611ee 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"math/big"
 	"os"
 	"path"
@@ -410,6 +411,10 @@ func (l *ledgerConnection) readJournal() error {
 					k := big.NewInt(s.Value.Amount)
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
+					if !k.IsInt64() {
+						log.Printf("%s:%d: syntax error: amount too big\n", line.Filename, line.LineNum)
+						continue
+					}
 					value.Amount = k.Int64()
 				}
 				l.ledger.SplitPrices[s] = value
@@ -531,6 +536,9 @@ done2:
 	}
 	for i, c := range sAmount {
 		if c >= '0' && c <= '9' {
+			if value.Amount > (math.MaxInt64-9)/10 {
+				return value, errors.New("syntax error: amount too big"), newCurrency
+			}
 			value.Amount *= 10
 			value.Amount += int64(c - '0')
 			continue
@@ -607,6 +615,9 @@ done2:
 		shift = 8 - shift
 	}
 	for i := 0; i < shift; i++ {
+		if value.Amount > math.MaxInt64/10 {
+			return value, errors.New("syntax error: amount too big"), newCurrency
+		}
 		value.Amount *= 10
 	}
 	value.Amount *= sign
-- 
2.43.0


From 53ef57cc5befb08bdd390e1d7cf410117daa086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 04/36] fix: leave nothing behind of a split line that is
 rejected

The price of a split was recorded before its assertion was read; when
the latter was wrong the split itself was dropped, and Fill crashed on
the price of a split without time. An empty price or assertion was
silently taken as no price or assertion.
---
 backend/ledger/parser.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 97611ee..854c343 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -344,9 +344,6 @@ func (l *ledgerConnection) readJournal() error {
 			t := l.ledger.Transactions[len(l.ledger.Transactions)-1]
 			s := new(accounting.Split)
 			s.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
-			if comment != "" {
-				l.addComment(s, comment)
-			}
 
 			var err error
 			var accountEnd int
@@ -398,37 +395,54 @@ func (l *ledgerConnection) readJournal() error {
 					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, s.Value.Currency.Name)
 				}
 			}
+			var price, assertion accounting.Value
 			if hasPriceRel || hasPriceAbs {
-				value, err, newCurrency := l.getValue(strings.TrimSpace(text[priceStart:priceEnd]))
+				var newCurrency bool
+				price, err, newCurrency = l.getValue(strings.TrimSpace(text[priceStart:priceEnd]))
+				if err == nil && price.Currency == nil {
+					err = errors.New("syntax error: price without value")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
 				}
 				if newCurrency {
-					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, value.Currency.Name)
+					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, price.Currency.Name)
 				}
 				if hasPriceRel {
 					k := big.NewInt(s.Value.Amount)
-					k.Mul(k, big.NewInt(value.Amount))
+					k.Mul(k, big.NewInt(price.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
 					if !k.IsInt64() {
 						log.Printf("%s:%d: syntax error: amount too big\n", line.Filename, line.LineNum)
 						continue
 					}
-					value.Amount = k.Int64()
+					price.Amount = k.Int64()
 				}
-				l.ledger.SplitPrices[s] = value
 			}
 			if hasAssertion {
-				value, err, newCurrency := l.getValue(strings.TrimSpace(text[assertionStart:assertionEnd]))
+				var newCurrency bool
+				assertion, err, newCurrency = l.getValue(strings.TrimSpace(text[assertionStart:assertionEnd]))
+				if err == nil && assertion.Currency == nil {
+					err = errors.New("syntax error: assertion without value")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
 				}
 				if newCurrency {
-					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, value.Currency.Name)
+					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, assertion.Currency.Name)
 				}
-				l.ledger.Assertions[s] = value
+			}
+			// The line is right: only now it can be added to the ledger.
+			if comment != "" {
+				l.addComment(s, comment)
+			}
+			if hasPriceRel || hasPriceAbs {
+				l.ledger.SplitPrices[s] = price
+			}
+			if hasAssertion {
+				l.ledger.Assertions[s] = assertion
 			}
 			t.Splits = append(t.Splits, s)
 			lastLine = lineSplit
-- 
2.43.0


From cd3cae4634bc6bc85cecaf0b7bb88587551978df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 05/36] fix: do not divide by zero in a split with a price and
 a zero amount

---
 accounting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/accounting.go b/accounting.go
index 002612c..d2a32e7 100644
--- a/accounting.go
+++ b/accounting.go
@@ -777,6 +777,9 @@ func (l *Ledger) Fill() error {
 
 	// Adding prices from splits
 	for s, v := range l.SplitPrices {
+		if s.Value.Amount == 0 || v.Amount == 0 {
+			continue // there is no price per unit
+		}
 		price := new(Price)
 		price.Time = *s.Time
 		price.Currency = s.Value.Currency
-- 
2.43.0


From ebe5f6b19f226c266d01a042e32b0a7f07b93cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 06/36] fix: add the prices from splits in a fixed order

They were added in the iteration order of a map, so that prices of the
same time (and what Convert answers) changed from run to run.
---
 accounting.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index d2a32e7..73bfa82 100644
--- a/accounting.go
+++ b/accounting.go
@@ -776,7 +776,15 @@ func (l *Ledger) Fill() error {
 	}
 
 	// Adding prices from splits
-	for s, v := range l.SplitPrices {
+	var splits []*Split
+	for _, t := range l.Transactions {
+		splits = append(splits, t.Splits...)
+	}
+	for _, s := range splits {
+		v, ok := l.SplitPrices[s]
+		if !ok {
+			continue
+		}
 		if s.Value.Amount == 0 || v.Amount == 0 {
 			continue // there is no price per unit
 		}
-- 
2.43.0


From e8fbbe0788661f8ca4913b22fdae4dd423541609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 07/36] fix: give every ledger its own transfer account

All the ledgers of a process kept their transfer splits in the same
global account, so each of them showed the transfers (and balances) of
all the others, and filling a ledger again added them once more: the
removal of the old ones skipped the split it had just swapped in.
---
 accounting.go | 41 +++++++++++++++++++++--------------------
 types.go      |  2 ++
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/accounting.go b/accounting.go
index 73bfa82..d710aec 100644
--- a/accounting.go
+++ b/accounting.go
@@ -285,6 +285,7 @@ func (l *Ledger) Clone() *Ledger {
 		res.SplitPrices[mapSplits[s]] = v
 	}
 	res.DefaultCurrency = mapCurrencies[l.DefaultCurrency]
+	res.transferAccount = mapAccounts[l.transferAccount]
 
 	return res
 }
@@ -611,17 +612,14 @@ func (l *Ledger) Fill() error {
 	}
 	l.Accounts = newAccounts
 
-	// Remove splits with transferAccount, if any:
-	for i := range l.Transactions {
-		// TODO: this may be buggy!
-		for j := range l.Transactions[i].Splits {
-			if j >= len(l.Transactions[i].Splits) {
-				break
-			}
-			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == &TransferAccount {
-				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
-				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
+	// Remove splits with the transfer account, if any:
+	for _, t := range l.Transactions {
+		splits := t.Splits
+		t.Splits = nil
+		for _, s := range splits {
+			s.Balance = nil
+			if l.transferAccount == nil || s.Account != l.transferAccount {
+				t.Splits = append(t.Splits, s)
 			}
 		}
 	}
@@ -817,18 +815,21 @@ func (l *Ledger) Fill() error {
 	})
 
 	// Create fake splits in transactions with different times.
+	if l.transferAccount == nil {
+		l.transferAccount = &Account{Name: TransferAccount.Name}
+	}
 	for i := range l.Accounts {
-		if l.Accounts[i] == &TransferAccount {
+		if l.Accounts[i] == l.transferAccount {
 			goto transferAlreadyInAccounts
 		}
 	}
-	l.Accounts = append(l.Accounts, &TransferAccount)
+	l.Accounts = append(l.Accounts, l.transferAccount)
 transferAlreadyInAccounts:
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
 			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
 				split1 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        l.Transactions[i].Splits[j].Time,
 					Value: Value{
@@ -837,7 +838,7 @@ transferAlreadyInAccounts:
 					},
 				}
 				split2 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        &l.Transactions[i].Time,
 					Value: Value{
@@ -847,17 +848,17 @@ transferAlreadyInAccounts:
 				}
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)
-				TransferAccount.Splits = append(TransferAccount.Splits, split1)
-				TransferAccount.Splits = append(TransferAccount.Splits, split2)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split1)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split2)
 			}
 		}
 	}
-	sort.SliceStable(TransferAccount.Splits, func(i, j int) bool {
-		return TransferAccount.Splits[i].Time.Before(*TransferAccount.Splits[j].Time)
+	sort.SliceStable(l.transferAccount.Splits, func(i, j int) bool {
+		return l.transferAccount.Splits[i].Time.Before(*l.transferAccount.Splits[j].Time)
 	})
 
 	var b Balance
-	for _, s := range TransferAccount.Splits {
+	for _, s := range l.transferAccount.Splits {
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
diff --git a/types.go b/types.go
index f306178..d673c9d 100644
--- a/types.go
+++ b/types.go
@@ -16,6 +16,7 @@ type Ledger struct {
 	Assertions      map[*Split]Value         // Value that should be in an account after one split.
 	SplitPrices     map[*Split]Value         // Price for the value in a split, in another currency.
 	DefaultCurrency *Currency                // Default currency.
+	transferAccount *Account                 // This ledger's copy of TransferAccount, once it is filled.
 	// Tags            map[interface{}][]Tag
 	// TagsByName      map[string][]struct {Value string; Place interface{}}
 }
@@ -62,6 +63,7 @@ type Account struct {
 }
 
 // TransferAccount is a special account used when a transaction has two or more splits with different times.
+// Each ledger has its own copy of it.
 // Ledger.Fill() automatically generates splits with this account.
 var TransferAccount Account = Account{
 	Name: "Assets:Transfer account",
-- 
2.43.0


From 0e16a92795355c51325a2aa06a36e3b3f4ac8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 08/36] fix: Convert always terminates

When the prices of two currencies referred to each other and none of them
led to the requested one, Convert called itself until the stack overflowed.
---
 accounting.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index d710aec..7dc11e9 100644
--- a/accounting.go
+++ b/accounting.go
@@ -520,6 +520,11 @@ func insertAccount(where *[]*Account, account *Account) {
 
 // Convert returns a value to another currency.
 func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {
+	return l.convert(v, when, currency, make(map[*Currency]bool))
+}
+
+// convert is Convert, without going twice through any of the currencies in seen.
+func (l *Ledger) convert(v Value, when time.Time, currency *Currency, seen map[*Currency]bool) (Value, error) {
 	if v.Currency == currency {
 		//fmt.Printf("Convert(%s,%s,%s) = %s (1)\n", v, when.Format("2006-01-02"), currency.Name, v)
 		return v, nil
@@ -548,8 +553,12 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 		break
 	}
 	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
+		if seen[v.Currency] {
+			return v, fmt.Errorf("could not convert %q to %q", v, currency.Name)
+		}
+		seen[v.Currency] = true
 		for _, p := range l.Prices {
-			if p.Currency != v.Currency {
+			if p.Currency != v.Currency || seen[p.Value.Currency] {
 				continue
 			}
 			if p.Time.Before(when) {
@@ -567,11 +576,11 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 			//fmt.Printf("Convert(%s,%s,%s) = %s (3)\n", v, when.Format("2006-01-02"), currency.Name, v)
 			return v, fmt.Errorf("could not convert %q to %q", v, currency.Name)
 		}
-		nv, err := l.Convert(v, when, prevValue.Currency)
+		nv, err := l.convert(v, when, prevValue.Currency, seen)
 		if err != nil {
 			return nv, err
 		}
-		return l.Convert(nv, when, currency)
+		return l.convert(nv, when, currency, seen)
 	}
 	if nextTime == (time.Time{}) {
 		prevValue.Mul(v)
-- 
2.43.0


From 4fd8ca995aefe52df640d6a2c772a4894684a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 09/36] fix: converting to no currency at all is an error

In a ledger without default currency, 'ledger --market balance' crashed
with a nil pointer while formatting the error.
---
 accounting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/accounting.go b/accounting.go
index 7dc11e9..72b55d6 100644
--- a/accounting.go
+++ b/accounting.go
@@ -529,6 +529,9 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, seen map[*
 		//fmt.Printf("Convert(%s,%s,%s) = %s (1)\n", v, when.Format("2006-01-02"), currency.Name, v)
 		return v, nil
 	}
+	if currency == nil {
+		return v, fmt.Errorf("could not convert %q: no currency to convert to", v)
+	}
 	var prevTime, nextTime time.Time
 	var prevValue, nextValue Value
 	prevValue = v
-- 
2.43.0


From 6ceda5fc642e15c2096933db229708bd94b4fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 10/36] fix: Clone keeps the currencies that are not in
 Ledger.Currencies

The currency of amounts without currency, the one of a txtdb ledger and
the one of an inferred zero amount are not in that list: a clone had nil
instead, so commands printed the amounts with another format or crashed.
---
 accounting.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/accounting.go b/accounting.go
index 72b55d6..f80828d 100644
--- a/accounting.go
+++ b/accounting.go
@@ -191,6 +191,17 @@ func (l *Ledger) Clone() *Ledger {
 	for _, p := range l.Prices {
 		mapPrices[p] = new(Price)
 	}
+	// There can be currencies in use which are not in l.Currencies.
+	cloneCurrency := func(c *Currency) *Currency {
+		if c == nil {
+			return nil
+		}
+		if mapCurrencies[c] == nil {
+			mapCurrencies[c] = new(Currency)
+			*mapCurrencies[c] = *c
+		}
+		return mapCurrencies[c]
+	}
 
 	res := new(Ledger)
 	res.connection = l.connection
@@ -214,7 +225,7 @@ func (l *Ledger) Clone() *Ledger {
 		na.StartBalance = make([]Value, len(a.StartBalance))
 		for k, v := range a.StartBalance {
 			na.StartBalance[k].Amount = v.Amount
-			na.StartBalance[k].Currency = mapCurrencies[v.Currency]
+			na.StartBalance[k].Currency = cloneCurrency(v.Currency)
 		}
 	}
 	res.Transactions = make([]*Transaction, len(l.Transactions))
@@ -241,11 +252,11 @@ func (l *Ledger) Clone() *Ledger {
 				*ns.Time = *s.Time
 			}
 			ns.Value.Amount = s.Value.Amount
-			ns.Value.Currency = mapCurrencies[s.Value.Currency]
+			ns.Value.Currency = cloneCurrency(s.Value.Currency)
 			ns.Balance = make([]Value, len(s.Balance))
 			for k, v := range s.Balance {
 				ns.Balance[k].Amount = v.Amount
-				ns.Balance[k].Currency = mapCurrencies[v.Currency]
+				ns.Balance[k].Currency = cloneCurrency(v.Currency)
 			}
 		}
 	}
@@ -268,23 +279,23 @@ func (l *Ledger) Clone() *Ledger {
 		res.Prices[i] = np
 		np.ID = p.ID
 		np.Time = p.Time
-		np.Currency = mapCurrencies[p.Currency]
+		np.Currency = cloneCurrency(p.Currency)
 		np.Value.Amount = p.Value.Amount
-		np.Value.Currency = mapCurrencies[p.Value.Currency]
+		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
 	res.Comments = make(map[interface{}][]string)
 	// TODO: Comments are not deep-copied (I have to deal with interface{})
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.Assertions[mapSplits[s]] = v
 	}
 	res.SplitPrices = make(map[*Split]Value)
 	for s, v := range l.SplitPrices {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.SplitPrices[mapSplits[s]] = v
 	}
-	res.DefaultCurrency = mapCurrencies[l.DefaultCurrency]
+	res.DefaultCurrency = cloneCurrency(l.DefaultCurrency)
 	res.transferAccount = mapAccounts[l.transferAccount]
 
 	return res
-- 
2.43.0


From ec202287d20f7455166d4ca8b0b6bbfce11df1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 11/36] fix: Clone keeps the comments

'ledger print' works on a clone, so it printed none of the comments.
---
 accounting.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index f80828d..9d94fd4 100644
--- a/accounting.go
+++ b/accounting.go
@@ -284,7 +284,21 @@ func (l *Ledger) Clone() *Ledger {
 		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
 	res.Comments = make(map[interface{}][]string)
-	// TODO: Comments are not deep-copied (I have to deal with interface{})
+	for where, comments := range l.Comments {
+		switch x := where.(type) {
+		case *Account:
+			where = mapAccounts[x]
+		case *Transaction:
+			where = mapTransactions[x]
+		case *Split:
+			where = mapSplits[x]
+		case *Currency:
+			where = cloneCurrency(x)
+		case *Price:
+			where = mapPrices[x]
+		}
+		res.Comments[where] = append([]string(nil), comments...)
+	}
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
 		v.Currency = cloneCurrency(v.Currency)
-- 
2.43.0


From 57191b5eaabe7fbe89deb5debc751884a9b4e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 12/36] fix: reject a price line without value

---
 backend/ledger/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 854c343..62bad9d 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -275,8 +275,8 @@ func (l *ledgerConnection) readJournal() error {
 				log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, price.Currency.Name)
 			}
 			price.Value, err, newCurrency = l.getValue(rest)
-			if comment != "" {
-				l.addComment(&price, comment)
+			if err == nil && price.Value.Currency == nil {
+				err = errors.New("price without value")
 			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
@@ -285,6 +285,9 @@ func (l *ledgerConnection) readJournal() error {
 			if newCurrency {
 				log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, price.Value.Currency.Name)
 			}
+			if comment != "" {
+				l.addComment(&price, comment)
+			}
 			l.ledger.Prices = append(l.ledger.Prices, &price)
 			lastLine = linePrice
 			continue
-- 
2.43.0


From 6c4262a16556f7839d8682fba9fb9e41f27ae307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 13/36] fix: keep the comments in account and commodity lines

They were dropped, although Export writes them there; so were the
comments of a currency with an unknown tag.
---
 backend/ledger/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 62bad9d..6ddd8c7 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -171,8 +171,8 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	case *accounting.Currency:
 		if tag.Name == "isin" {
 			x.ISIN = tag.Value
+			return
 		}
-		return
 	}
 	// Unknown tag:
 	l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
@@ -312,16 +312,22 @@ func (l *ledgerConnection) readJournal() error {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			if comment != "" {
+				l.addComment(value.Currency, comment)
+			}
 			lastCurrency = value.Currency
 			lastLine = lineCommodity
 			continue
 		}
 		if !indented && word == "account" {
 			lastLine = lineAccount
-			_, new := l.getAccount(line.Filename, line.LineNum, rest)
+			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
 				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
+			if comment != "" {
+				l.addComment(account, comment)
+			}
 			continue
 		}
 		if !indented {
-- 
2.43.0


From f9ed4c3f0c2cbed849b87385105c32c897042ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 14/36] fix: return the errors of reading a journal

An unsorted journal or a duplicate account ended the whole process, and
an error while reading a file was ignored: the ledger read so far was
opened as if it were complete.
---
 backend/ledger/ledger.go | 4 +++-
 backend/ledger/parser.go | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9c27f33..c19594d 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -30,7 +30,9 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.file = url.Path
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	conn.readJournal()
+	if err := conn.readJournal(); err != nil {
+		return nil, err
+	}
 	return conn, nil
 }
 
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 6ddd8c7..3ba4ddb 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -265,7 +265,7 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			if len(l.ledger.Prices) > 0 && l.ledger.Prices[len(l.ledger.Prices)-1].Time.After(price.Time) {
-				log.Fatalf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			currency, rest := firstWord(rest)
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
@@ -323,7 +323,7 @@ func (l *ledgerConnection) readJournal() error {
 			lastLine = lineAccount
 			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
-				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
 			if comment != "" {
 				l.addComment(account, comment)
@@ -334,7 +334,7 @@ func (l *ledgerConnection) readJournal() error {
 			date, err := GetDate(word)
 			if err == nil {
 				if len(l.ledger.Transactions) > 0 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.After(date) {
-					log.Fatalf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
+					return fmt.Errorf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
 				}
 				var transaction accounting.Transaction
 				transaction.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
-- 
2.43.0


From d23ceaa280c499c199d28cd23d7f271aeaee9059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 15/36] fix: opening a journal that cannot be opened is an
 error

It gave an empty ledger instead.
---
 backend/ledger/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 3ba4ddb..39a9c4c 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -189,7 +189,9 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
-	s.NewFile(l.file)
+	if err := s.NewFile(l.file); err != nil {
+		return err
+	}
 
 	lastLine := lineNone
 	var lastCurrency *accounting.Currency // currency of the last "commodity" line
-- 
2.43.0


From 472dde2a94962656f427174ac5ad7c7433145ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 16/36] fix: close the journal files when reading them fails

---
 backend/ledger/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 39a9c4c..9048e25 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -105,6 +105,14 @@ func (s *Scanner) NewFile(filename string) error {
 	return nil
 }
 
+// Close closes all the files which are still open.
+func (s *Scanner) Close() {
+	for _, file := range s.files {
+		file.f.Close()
+	}
+	s.files = nil
+}
+
 func (s *Scanner) Line() ScannerLine {
 	if len(s.files) == 0 {
 		return ScannerLine{Err: io.EOF}
@@ -189,6 +197,7 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
+	defer s.Close()
 	if err := s.NewFile(l.file); err != nil {
 		return err
 	}
-- 
2.43.0


From 04f730bec2566e5e3aaf879b6f1b196871c3287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 17/36] fix: a file that includes itself is an error

It was read again and again until there were no file descriptors left.
---
 backend/ledger/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 9048e25..a3a40db 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -96,6 +96,11 @@ func (s *Scanner) NewFile(filename string) error {
 	if len(filename) > 0 && filename[0] != '/' && len(s.files) > 0 {
 		filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)
 	}
+	for _, file := range s.files {
+		if file.filename == filename {
+			return fmt.Errorf("%s includes itself", filename)
+		}
+	}
 	f, err := os.Open(filename)
 	if err != nil {
 		return err
-- 
2.43.0


From 4428a0016b61abfa7d86b1287904f5147f4cbf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 18/36] fix: accept ' as thousand separator after a currency,
 too

$1'000 was read as 0 dollars and 1 of a currency called $1'... or
rejected, even if written by Export.
---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index a3a40db..165513b 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -522,7 +522,7 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 		// first currency, then amount
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
-			if !strings.ContainsRune("-+0123456789.,_", rune(s[i])) {
+			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
 				if !unicode.IsSpace(rune(s[i])) {
 					value.Currency.WithoutSpace = true
 				}
-- 
2.43.0


From e1e46346b95068aeae41f91503d3255fadf6c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 19/36] fix: close the connection when Open fails after opening
 it

---
 accounting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accounting.go b/accounting.go
index 9d94fd4..de028e8 100644
--- a/accounting.go
+++ b/accounting.go
@@ -46,6 +46,7 @@ func Open(dataSource string) (*Ledger, error) {
 		return nil, err
 	}
 	if err = b.Ledger.Fill(); err != nil {
+		b.Ledger.connection.Close()
 		return nil, err
 	}
 	return b.Ledger, nil
-- 
2.43.0


From 16c5865dcfe081def53e99b8bcd795a239538cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 20/36] fix: accept amounts with fewer than three digits before
 the first thousand sign

Once the thousand sign of a currency was known, 1,234.50 was rejected.
---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 165513b..76de839 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -596,7 +596,7 @@ done2:
 		}
 		if value.Currency.Thousand == string(c) || (value.Currency.Thousand == "" && value.Currency.Decimal != "" && value.Currency.Decimal != string(c)) {
 			value.Currency.Thousand = string(c)
-			if (thousandPos == -1 && i > 3) || i-thousandPos != 4 || decimalPos > -1 {
+			if (thousandPos == -1 && i > 3) || (thousandPos > -1 && i-thousandPos != 4) || decimalPos > -1 {
 				return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
 			}
 			thousandPos = i
-- 
2.43.0


From 6b2bcf2b79a8da06015db5a3e1dd12207a81c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 21/36] fix: assertions in an account with other currencies

An assertion of a currency which the account does not hold failed even
when it asserted zero of it, and it could not give its amount to a split
without one; an assertion of zero in an empty account was a deadlock.
---
 accounting.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/accounting.go b/accounting.go
index de028e8..d341fc7 100644
--- a/accounting.go
+++ b/accounting.go
@@ -777,31 +777,19 @@ func (l *Ledger) Fill() error {
 				b.Add(s.Value)
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
-					if a.Amount == 0 && len(b) == 0 {
-						a = Value{}
-					} else if s.Value == (Value{}) && len(b) == 0 {
+					v := Value{Currency: a.Currency} // what there is of that currency
+					for i := range b {
+						if b[i].Currency == a.Currency {
+							v = b[i]
+						}
+					}
+					if s.Value == (Value{}) {
 						s.Value = a
-						s.Value.Amount = a.Amount
+						s.Value.Amount = a.Amount - v.Amount
 						b.Add(s.Value)
 						s.Balance.Add(s.Value)
-						a = Value{}
-					}
-					for _, v := range b {
-						if v.Currency == a.Currency {
-							if s.Value == (Value{}) {
-								s.Value = a
-								s.Value.Amount = a.Amount - v.Amount
-								b.Add(s.Value)
-								s.Balance.Add(s.Value)
-							} else if v.Amount != a.Amount {
-								return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
-							}
-							a = Value{}
-							break
-						}
-					}
-					if a != (Value{}) {
-						return fmt.Errorf("%s: wrong assertion: %s", s.ID, a)
+					} else if v.Amount != a.Amount {
+						return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
 					}
 				}
 			}
-- 
2.43.0


From 15effe81188c71e81a393f3d97833eecf9d0c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 22/36] fix: Export writes all the comments of an account as
 comments

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index c19594d..ad31c95 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -55,7 +55,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		fmt.Fprint(out, "\n")
 		if len(ledger.Comments[a]) > 1 {
 			for _, c := range ledger.Comments[a][1:] {
-				fmt.Fprintf(out, "\t: %s\n", c)
+				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
 	}
-- 
2.43.0


From e4f0ec8527ff8c01d5aeccdeeb54a3de7975e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 23/36] fix: Export keeps the seconds of dates

---
 backend/ledger/ledger.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index ad31c95..d1f8af3 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -94,7 +94,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		// fmt.Fprintf(out, "DEBUG: i=%d j=%d tt=%v tp=%v\n", i, j, tt, tp)
 		if p == nil || (t != nil && !tt.After(tp)) {
 			i++
-			fmt.Fprintf(out, "%s %s", t.Time.Format("2006-01-02/15:04"), t.Description)
+			fmt.Fprintf(out, "%s %s", t.Time.Format("2006-01-02/15:04:05"), t.Description)
 			if len(ledger.Comments[t]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
 			}
@@ -114,7 +114,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 				var comments []string
 				if *s.Time != t.Time {
-					comments = append(comments, "date:"+s.Time.Format("2006-01-02/15:04"))
+					comments = append(comments, "date:"+s.Time.Format("2006-01-02/15:04:05"))
 				}
 				if len(ledger.Comments[s]) > 0 {
 					comments = append(comments, ledger.Comments[s]...)
@@ -131,7 +131,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
-			fmt.Fprintf(out, "P %s %s %s", p.Time.Format("2006-01-02/15:04"), p.Currency.Name, p.Value.FullString())
+			fmt.Fprintf(out, "P %s %s %s", p.Time.Format("2006-01-02/15:04:05"), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
 			}
-- 
2.43.0


From 61ccc939c7d0db4eff828df6a38c3f9ec0e10feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 24/36] fix: Export writes the codes of accounts and the ISIN
 of currencies

---
 backend/ledger/ledger.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index d1f8af3..cc6460c 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -49,12 +49,17 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
 		fmt.Fprintf(out, "account %s", a.FullName())
-		if len(ledger.Comments[a]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
+		var comments []string
+		if a.Code != "" {
+			comments = append(comments, "code:"+a.Code)
+		}
+		comments = append(comments, ledger.Comments[a]...)
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[a]) > 1 {
-			for _, c := range ledger.Comments[a][1:] {
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
@@ -66,12 +71,17 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		v.Amount = 1_000_000 * accounting.U
 		v.Currency = cu
 		fmt.Fprintf(out, "commodity %s", v.String())
-		if len(ledger.Comments[cu]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[cu][0])
+		var comments []string
+		if cu.ISIN != "" {
+			comments = append(comments, "isin:"+cu.ISIN)
+		}
+		comments = append(comments, ledger.Comments[cu]...)
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[cu]) > 1 {
-			for _, c := range ledger.Comments[cu][1:] {
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
-- 
2.43.0


From 2d2f22ebc8245ddc126ca498cae1e2604d16d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 25/36] fix: GetBalance before the first split is the start
 balance

It was the balance after the first split, whatever its date; and the
start balance of an account without splits was ignored.
---
 accounting.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index d341fc7..b58c6db 100644
--- a/accounting.go
+++ b/accounting.go
@@ -346,11 +346,14 @@ func (a Account) FullName() string {
 // If passed the zero value, it gets the current balance.
 func (l *Ledger) GetBalance(account *Account, when time.Time) Balance {
 	if len(account.Splits) == 0 {
-		return nil
+		return account.StartBalance
 	}
 	if (when == time.Time{}) {
 		return account.Splits[len(account.Splits)-1].Balance
 	}
+	if account.Splits[0].Time.After(when) {
+		return account.StartBalance
+	}
 	for i := 1; i < len(account.Splits); i++ {
 		if account.Splits[i].Time.After(when) {
 			return account.Splits[i-1].Balance
-- 
2.43.0


From 1949eccccebd774f972ce3253049c9901b97850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 26/36] fix: 'ledger delta' counts once an account that matches
 several words

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 5b59108..a36f6d3 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -319,6 +319,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		for _, b := range args {
 			if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {
 				accounts = append(accounts, a)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 19aace2c2e50fc74effc11f4447ebf5d4a16160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 27/36] fix: 'ledger --market delta' converts the end balance
 with the end date

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index a36f6d3..10f8e28 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -344,7 +344,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		balanceEnd.AddBalance(balanceBegin)
 		balanceEnd.AddBalance(balanceDelta)
 		for _, v := range balanceEnd {
-			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
+			nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 6f3f434d1f052c7cec791655454510dfe840d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 28/36] fix: muscular reports the conversions that fail

It used the unconverted amount as if it had been converted.
---
 cmd/muscular/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index 3dc5034..53f195d 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -216,11 +216,17 @@ func main2(L *accounting.Ledger, args []string) {
 		var v accounting.Value
 		v.Amount = accounting.U
 		v.Currency, _ = L.GetCurrency(f.Args()[i])
-		momentum[i][0], _ = L.Convert(v, flags.endDate, L.DefaultCurrency)
+		momentum[i][0], err = L.Convert(v, flags.endDate, L.DefaultCurrency)
+		if err != nil {
+			log.Fatalf("muscular: %v\n", err)
+		}
 		t := flags.endDate
 		for j := 0; j < flags.numMeasures; j++ {
 			t = t.AddDate(0, -flags.measureMonths, -flags.measureDays)
-			momentum[i][j+1], _ = L.Convert(v, t, L.DefaultCurrency)
+			momentum[i][j+1], err = L.Convert(v, t, L.DefaultCurrency)
+			if err != nil {
+				log.Fatalf("muscular: %v\n", err)
+			}
 			mom2[i] += float64(momentum[i][0].Amount) / float64(momentum[i][j+1].Amount)
 		}
 		mom2[i] /= float64(flags.numMeasures)
-- 
2.43.0


From 3992a1a276a43c08939df9fff7a7783ede8fde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 29/36] fix: txtdb closes its files and reports the errors
 reading them

---
 backend/txtdb/txtdb.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 4c02b90..8ff0ebe 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -71,6 +71,7 @@ func (c *conn) read() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	sc := bufio.NewScanner(f)
 	for sc.Scan() {
 		var ac accounting.Account
@@ -96,13 +97,17 @@ func (c *conn) read() error {
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
+	if err := sc.Err(); err != nil {
+		return err
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
-	f, err = os.Open(filepath.Join(c.dir, "transactions"))
+	ft, err := os.Open(filepath.Join(c.dir, "transactions"))
 	if err != nil {
-		return nil
+		return err
 	}
-	sc = bufio.NewScanner(f)
+	defer ft.Close()
+	sc = bufio.NewScanner(ft)
 	nextID := 1
 	var balance int64
 	var tr *accounting.Transaction
@@ -209,6 +214,9 @@ func (c *conn) read() error {
 			nextID++
 		}
 	}
+	if err := sc.Err(); err != nil {
+		return err
+	}
 	if balance != 0 {
 		log.Printf("transactions: balance is %d, not zero", balance)
 	}
-- 
2.43.0


From e3c68b9e921248a737188c4785227cfffd2b93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 30/36] fix: txtdb reports the lines it skips

---
 backend/txtdb/txtdb.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 8ff0ebe..cce7cae 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -73,18 +73,21 @@ func (c *conn) read() error {
 	}
 	defer f.Close()
 	sc := bufio.NewScanner(f)
-	for sc.Scan() {
+	for i := 1; sc.Scan(); i++ {
 		var ac accounting.Account
 		line := sc.Text()
 		// TODO: handle comments
 		fields := strings.Split(line, ":")
 		if len(fields) != 6 { // badly-formatted line: skip
-			// TODO: show error
+			if strings.TrimSpace(line) != "" {
+				log.Printf("accounts line %d: %d fields instead of 6", i, len(fields))
+			}
 			continue
 		}
 		var id int
 		id, err = strconv.Atoi(fields[0])
-		if err != nil { // TODO: handle errors
+		if err != nil {
+			log.Printf("accounts line %d: invalid id (%s)", i, fields[0])
 			continue
 		}
 		ac.ID = ID(id)
@@ -94,6 +97,9 @@ func (c *conn) read() error {
 		if err == nil {
 			ac.Parent = c.accountMap[parent]
 		}
+		if ac.Parent == nil && fields[5] != "" {
+			log.Printf("accounts line %d: invalid parent (%s)", i, fields[5])
+		}
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
@@ -120,6 +126,9 @@ func (c *conn) read() error {
 		line := sc.Text()
 		fields := strings.Split(line, ":")
 		if len(fields) != 7 { // badly-formatted line: skip
+			if strings.TrimSpace(line) != "" {
+				log.Printf("transactions line %d: %d fields instead of 7", i, len(fields))
+			}
 			continue
 		}
 		thisTime, err = time.Parse("2006-01-02 15.04", strings.TrimSpace(fields[1]))
@@ -165,6 +174,7 @@ func (c *conn) read() error {
 				balance = 0
 			}
 			if len(fields[6]) == 0 {
+				log.Printf("transactions line %d: neither value nor balance", i)
 				tr = nil
 				continue
 			}
-- 
2.43.0


From 7584679650aa3ab7fddf3d91a2a0a0aed51d22b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 31/36] fix: txtdb rejects the amounts that do not fit

---
 backend/txtdb/txtdb.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index cce7cae..da0aba5 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -187,14 +187,14 @@ func (c *conn) read() error {
 				sign = -1
 				offset = 1
 			}
-			f, err := strconv.ParseFloat(fields[6][offset:], 64)
+			amount, err := getAmount(fields[6][offset:])
 			if err != nil {
 				log.Printf("transactions line %d: invalid balance (%s)", i, fields[6])
 				continue
 			}
 			var v accounting.Value
 			v.Currency = &c.currency
-			v.Amount = sign * int64(math.Round(100*f)) * 1000_000
+			v.Amount = sign * amount
 			c.ledger.Assertions[sp] = v
 		}
 		if len(fields[5]) > 0 {
@@ -207,13 +207,13 @@ func (c *conn) read() error {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
 			}
-			f, err := strconv.ParseFloat(fields[5][1:], 64)
+			amount, err := getAmount(fields[5][1:])
 			if err != nil {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
 			}
 			sp.Value.Currency = &c.currency
-			sp.Value.Amount = sign * int64(math.Round(100*f)) * 1000_000
+			sp.Value.Amount = sign * amount
 			balance += sp.Value.Amount
 		}
 		tr.Splits = append(tr.Splits, sp)
@@ -233,6 +233,19 @@ func (c *conn) read() error {
 	return nil
 }
 
+// getAmount returns the amount in s, which has at most 2 decimal digits.
+func getAmount(s string) (int64, error) {
+	f, err := strconv.ParseFloat(s, 64)
+	if err != nil {
+		return 0, err
+	}
+	f = math.Round(100 * f)
+	if !(math.Abs(f) <= math.MaxInt64/(accounting.U/100)) { // this includes NaN
+		return 0, errors.New("amount out of range")
+	}
+	return int64(f) * (accounting.U / 100), nil
+}
+
 func init() {
 	accounting.Register("txtdb", driver{})
 }
-- 
2.43.0


From 5b0fe2bf0cf9ba3e26433c9580295a3b0843262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 32/36] fix: txtdb gives an ID to its splits, which errors of
 Fill show

---
 backend/txtdb/txtdb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index da0aba5..886051b 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -159,6 +159,7 @@ func (c *conn) read() error {
 			continue
 		}
 		sp := new(accounting.Split)
+		sp.ID = ID(i)
 		sp.Account = c.accountMap[accountID]
 		if sp.Account == nil {
 			log.Printf("transactions line %d: invalid account (%s)", i, fields[4])
-- 
2.43.0


From 90b02f1c64510b199e5b0f69f1bdcb566fe57b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 33/36] fix: postgres returns the errors of its queries and
 releases what it opened

---
 backend/postgres/postgres.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index bdcdcb1..daa2c10 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -38,6 +38,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	if err = db.Ping(); err != nil {
+		db.Close()
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	// TODO I should check the SQL schema...
@@ -45,8 +46,14 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.db = db
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	getAccounts(conn)
-	getTransactions(conn)
+	if err = getAccounts(conn); err != nil {
+		db.Close()
+		return nil, errors.New("psql.Open: " + err.Error())
+	}
+	if err = getTransactions(conn); err != nil {
+		db.Close()
+		return nil, errors.New("psql.Open: " + err.Error())
+	}
 	return conn, nil
 }
 
@@ -58,7 +65,7 @@ func (c *conn) Close() error {
 	return c.db.Close()
 }
 
-func getAccounts(c *conn) {
+func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
 		SELECT a.id, a.name, COALESCE(a.code, '') AS code,
@@ -68,8 +75,9 @@ func getAccounts(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	ledger.Accounts = nil
 	for rows.Next() {
 		var (
@@ -80,7 +88,7 @@ func getAccounts(c *conn) {
 			acc     accounting.Account
 		)
 		if err := rows.Scan(&id, &name, &code, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
@@ -88,9 +96,10 @@ func getAccounts(c *conn) {
 		// acc.Balance = balance
 		ledger.Accounts = append(ledger.Accounts, &acc)
 	}
+	return rows.Err()
 }
 
-func getTransactions(c *conn) {
+func getTransactions(c *conn) error {
 	ledger := c.ledger
 	idAccount := make(map[accounting.ID]*accounting.Account)
 	for i, a := range ledger.Accounts {
@@ -101,8 +110,9 @@ func getTransactions(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	for rows.Next() {
 		var (
 			date    time.Time
@@ -113,7 +123,7 @@ func getTransactions(c *conn) {
 			balance int
 		)
 		if err := rows.Scan(&date, &tid, &aid, &desc, &value, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		if l := len(ledger.Transactions); l == 0 || ledger.Transactions[l-1].ID != tid {
 			ledger.Transactions = append(ledger.Transactions, &accounting.Transaction{
@@ -128,7 +138,7 @@ func getTransactions(c *conn) {
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-	return
+	return rows.Err()
 }
 
 // Flush is a no-op in SQL: all the writes to the database are unbuffered
-- 
2.43.0


From a0bcc3ceb7ed74ea8d7ca6d4a8ffc02cdf438fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 34/36] fix: postgres gives a currency and the right scale to
 the amounts

---
 backend/postgres/postgres.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index daa2c10..8a7c9f7 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -16,10 +16,11 @@ type driver struct{}
 type ID int
 
 type conn struct {
-	db      *sql.DB
-	updated time.Time
-	backend *accounting.Backend
-	ledger  *accounting.Ledger
+	db       *sql.DB
+	updated  time.Time
+	backend  *accounting.Backend
+	ledger   *accounting.Ledger
+	currency accounting.Currency // just one currency for now
 }
 
 func (id ID) String() string {
@@ -46,6 +47,10 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.db = db
 	conn.backend = backend
 	conn.ledger = backend.Ledger
+	conn.currency.Precision = 2
+	conn.ledger.Comments = make(map[interface{}][]string)
+	conn.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
+	conn.ledger.Assertions = make(map[*accounting.Split]accounting.Value)
 	if err = getAccounts(conn); err != nil {
 		db.Close()
 		return nil, errors.New("psql.Open: " + err.Error())
@@ -133,8 +138,11 @@ func getTransactions(c *conn) error {
 		}
 		split := new(accounting.Split)
 		split.Account = idAccount[aid]
-		split.Value.Currency = nil
-		split.Value.Amount = value
+		if split.Account == nil {
+			return fmt.Errorf("transaction %s: invalid account (%s)", tid, aid)
+		}
+		split.Value.Currency = &c.currency
+		split.Value.Amount = value * (accounting.U / 100)
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-- 
2.43.0


From ca02239f1f6cc9b67bc301c449f85d8c18612ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 35/36] fix: say on which line of the transactions file the
 unfinished transaction begins

---
 backend/txtdb/txtdb.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 886051b..dd7c6f0 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -115,6 +115,7 @@ func (c *conn) read() error {
 	defer ft.Close()
 	sc = bufio.NewScanner(ft)
 	nextID := 1
+	firstLine := 0 // where tr begins
 	var balance int64
 	var tr *accounting.Transaction
 	var oldTime, thisTime time.Time
@@ -144,6 +145,7 @@ func (c *conn) read() error {
 		}
 		if tr.ID == nil { // Fill tr only if it is not already filled
 			// First field (used to be "id") is ignored
+			firstLine = i
 			tr.ID = ID(nextID)
 			tr.Time = thisTime
 			tr.Description = fields[2]
@@ -229,7 +231,7 @@ func (c *conn) read() error {
 		return err
 	}
 	if balance != 0 {
-		log.Printf("transactions: balance is %d, not zero", balance)
+		log.Printf("transactions line %d: balance is %d, not zero", firstLine, balance)
 	}
 	return nil
 }
-- 
2.43.0


From f727e7eeb61093d40f2afe2d0651849f05448d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 36/36] fix: set the level of every account, in whatever order
 accounts are defined

---
 accounting.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index b58c6db..dcf9491 100644
--- a/accounting.go
+++ b/accounting.go
@@ -543,6 +543,7 @@ func (b Balance) Dup() Balance {
 func insertAccount(where *[]*Account, account *Account) {
 	*where = append(*where, account)
 	for _, a := range account.Children {
+		a.Level = account.Level + 1
 		insertAccount(where, a)
 	}
 }
@@ -641,13 +642,13 @@ func (l *Ledger) Fill() error {
 	}
 	for _, a := range l.Accounts {
 		if a.Parent != nil {
-			a.Level = a.Parent.Level + 1
 			a.Parent.Children = append(a.Parent.Children, a)
 		}
 	}
 	var newAccounts []*Account
 	for _, a := range l.Accounts {
 		if a.Parent == nil {
+			a.Level = 0
 			insertAccount(&newAccounts, a)
 		}
 	}
-- 
2.43.0

