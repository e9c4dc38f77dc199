#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property is added or reworded)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ACC, TYP, BK = "accounting.go", "types.go", "backend.go"
LED, PAR = "backend/ledger/ledger.go", "backend/ledger/parser.go"
TXT, PG = "backend/txtdb/txtdb.go", "backend/postgres/postgres.go"
CL, CM = "cmd/ledger/main.go", "cmd/muscular/main.go"
NOT = "The two existing tests only format fixed values and parse fixed amounts; "

p("P01", "A cloned ledger shares no mutable data with the original",
  "Ledger.Clone returns a ledger from which no mutable object of the original (account, transaction, split, price, currency, time pointer, balance, or any slice or map of them) can be reached; only the backend connection and the opaque ID values are shared. Any change made through the clone is therefore invisible in the original, and the other way round.",
  ["inputs", "histories"], "every ledger and every sequence of changes made through the clone or the original",
  NOT + "nothing calls Clone; sharing is only visible after some later mutation.",
  [ACC, TYP], [("Ledger.Clone", ACC)], ["Ledger.Clone result"])
p("P02", "A cloned ledger carries over every piece of data of the original",
  "In the ledger returned by Ledger.Clone every exported field of the ledger and of each of its accounts, transactions, splits, prices and currencies has the value it had in the original, references between objects (including references to currencies that Ledger.Currencies does not list) lead to the copies of the objects they led to, and Comments, Assertions and SplitPrices are keyed by the copies. A split whose Time was its transaction's own Time still shares it in the copy.",
  ["inputs"], "every ledger",
  NOT + "nothing calls Clone; completeness ranges over every field of every object.",
  [ACC, TYP], [("Ledger.Clone", ACC)], ["Ledger.Clone result"])
p("P03", "Ledgers in one process do not influence each other",
  "Apart from registering drivers, no operation of the library (opening, filling, cloning, converting, querying or exporting a ledger) changes a package-level variable or an object reachable from one. What one ledger contains can therefore never depend on which other ledgers the process opened, filled or cloned before or at the same time.",
  ["histories", "schedules"], "every history and interleaving of operations on several ledgers in one process",
  "Tests handle one value at a time; cross-ledger leakage needs two ledgers in one process.",
  [ACC, TYP, PAR, TXT, PG], [("per-ledger state only; the driver registry is the one package-level state", ACC)],
  ["Ledger.Accounts", "Account.Splits"])
p("P04", "Each '--'-separated command works on its own fresh copy",
  "When the ledger and muscular commands run several '--'-separated commands in one invocation, each of them runs on a fresh Clone of the ledger as it was opened. Date limits, pivots and other changes one command makes to its ledger never reach the next command.",
  ["inputs", "histories"], "every command line",
  "No test runs the commands; the effect needs a sequence of commands.",
  [CL, CM], [("main passes a new Clone to each command", CL), ("main", CM)])
p("P05", "Driver registration is exclusive, validated and race-free",
  "Register panics for a nil driver and for a name already registered, and otherwise the driver is found by every later Open; every access to the registry, including the duplicate test together with the insertion, happens under the registry's lock (exclusively when it writes), and the lock is released on every exit, panics included. Open of a name that is not registered returns an error.",
  ["schedules", "histories"], "every interleaving of Register and Open",
  "No test registers or opens concurrently; locking is invisible to sequential tests.",
  [ACC], [("Register", ACC), ("Open", ACC)], ["Register", "Open"], [("driver registry", "name to driver", ACC)])
p("P06", "Open is all or nothing",
  "accounting.Open returns either a nil ledger and a non-nil error, or a filled ledger attached to its connection and a nil error: a failure reported by URL parsing, by the driver or by Fill is always returned. When a step fails after the driver has opened a connection, that connection is closed.",
  ["inputs", "fault_sequences"], "every data source and every step that can fail",
  "No test calls Open; the failing steps need faults.",
  [ACC], [("Open", ACC)], ["Open results"])
p("P07", "No read error is ever dropped while loading",
  "When opening the data source, reading it, querying it, scanning a row or advancing to the next one fails, the failure reaches the caller as a non-nil error of Open (for an included file that cannot be opened, at least a diagnostic is printed): a ledger loaded from a partly read source is never returned as if it were complete.",
  ["fault_sequences", "inputs"], "every failing file, directory, query or row",
  "Tests never touch files or databases; I/O faults have to be injected.",
  [PAR, LED, TXT, PG], [("readJournal / Scanner", PAR), ("conn.read", TXT), ("getAccounts/getTransactions", PG)], ["Open error"])
p("P08", "Every opened file, row set and database handle is released",
  "Every file a backend opens and every row set it queries is closed on every path, errors included, before loading ends, and a database handle is closed when opening fails after it was created and by Connection.Close otherwise.",
  ["fault_sequences", "inputs"], "every path through loading, including every error path",
  "Leaks are invisible to tests that check values.",
  [PAR, TXT, PG], [("Scanner.Line", PAR), ("conn.read", TXT), ("driver.Open", PG)])
p("P09", "The data source is never modified",
  "No library package and no command writes, creates, truncates, renames or deletes a file or directory, or sends a modifying statement to the database: the journal, the text database and the SQL database are only read. Export writes nowhere but to the writer it is given.",
  ["inputs", "programs"], "every call path of the library and the commands",
  "Absence of an effect on all paths cannot be sampled.",
  [PAR, LED, TXT, PG, CL], [("read-only opens, SELECT-only queries", PAR)])
p("P10", "The library never terminates the process on bad data",
  "Whatever the data source contains or the database answers, the library packages never exit the process (os.Exit, log.Fatal) and never panic on purpose; they report errors or diagnostics to the caller. Deliberate panics are reserved for misuse by the programmer: Register's documented ones and formatting a currency whose precision is out of range.",
  ["inputs", "fault_sequences"], "every input and every backend failure",
  NOT + "which inputs reach a termination is a reachability question over all paths.",
  [ACC, PAR, TXT, PG], [("error returns and log.Printf diagnostics", PAR)])
p("P11", "Loading arbitrary data never causes a run-time panic",
  "Whatever bytes a journal or text database contains, parsing and filling it never indexes or slices out of range, dereferences a nil pointer, writes to a nil map or divides by zero.",
  ["inputs"], "every content of every input file",
  "Tests parse some twenty well-chosen amounts; the panics need odd inputs (a comment after a failed directive, a zero price, a missing field).",
  [ACC, PAR, TXT], [("readJournal, getValue", PAR), ("Fill", ACC), ("conn.read", TXT)])
p("P12", "The result depends only on the data, never on chance",
  "Loading, filling, cloning and exporting the same data always gives the same result: nothing stored in a ledger or written by Export depends on map iteration order, the clock, random numbers, goroutine scheduling or pointer values.",
  ["inputs", "schedules"], "every ledger and every run",
  "A test that passes once says nothing about the next map order.",
  [ACC, PAR, LED, TXT, PG], [("ordered slices; maps used for lookup", ACC)])
p("P13", "Everything is in chronological, stable order",
  "After a successful Fill, Ledger.Transactions, Ledger.Prices and every account's Splits are in non-decreasing time order, and entries with equal times keep the order they had; balances are computed in that order, and automatic prices take part in the ordering of prices. ",
  ["inputs"], "every ledger, sorted or not, with or without splits dated apart",
  "No test calls Fill.",
  [ACC], [("Fill sorts transactions, splits and prices with stable sorts", ACC)], ["Ledger.Transactions", "Ledger.Prices", "Account.Splits"])
p("P14", "Every accepted transaction balances",
  "Fill succeeds only if the splits of each transaction, each taken at its split price if it has one and at its value otherwise, add up to zero in every currency, or to exactly two currencies with no amount left to infer. If exactly one split has no amount and the others leave a remainder in a single currency, that split receives exactly the negated remainder; a second missing amount, or a remainder that cannot be placed, makes Fill return an error.",
  ["inputs"], "every set of transactions",
  "No test calls Fill.",
  [ACC], [("Fill, balancing loop", ACC)], ["Fill error", "Split.Value"])
p("P15", "Running balances are exact prefix sums",
  "After a successful Fill the Balance of every split equals the sum of the Values of the splits of its account up to and including it, in the order of the account's Splits; every split of every transaction is in the Splits of its account exactly once, knows its transaction and has a time. Later changes to one split's Balance do not show in another's.",
  ["inputs"], "every ledger",
  "No test calls Fill.",
  [ACC], [("Fill, account loop", ACC), ("Balance.Add, Balance.Dup", ACC)], ["Split.Balance", "Account.Splits"])
p("P16", "Balance assertions are enforced",
  "Fill succeeds only if, for every split with an assertion, the account's balance after that split holds exactly the asserted amount of the asserted currency (an asserted amount of zero meaning none of it); a split that has an assertion but no amount receives the amount that makes the assertion true.",
  ["inputs"], "every ledger with assertions",
  "No test calls Fill.",
  [ACC], [("Fill, assertions", ACC)], ["Fill error"])
p("P17", "Balance arithmetic keeps balances normalised and unshared",
  "Add, Sub, AddBalance, SubBalance and Dup give, for every currency, exactly the sum or difference of the amounts; the result has at most one entry per currency and no entry with amount zero. The operand is left unchanged, and Dup shares no storage with the balance it copies.",
  ["inputs", "histories"], "every balance and every sequence of operations",
  "No test uses Balance.",
  [ACC], [("Balance methods", ACC)], ["Balance"])
p("P18", "Convert gives the requested currency or an error",
  "Convert returns the value itself when it already is in the requested currency; otherwise it returns, with a nil error, only a value in the requested currency derived from recorded prices of the currencies involved, and an error when no prices lead there. It never returns an unconverted or half-converted value with a nil error, and it always terminates.",
  ["inputs"], "every price list, cyclic ones included, and every pair of currencies and date",
  "No test calls Convert.",
  [ACC], [("Ledger.Convert", ACC)], ["Convert results"])
p("P19", "Date limits are inclusive and select exactly the right entries",
  "GetBalance at a given time counts every split of the account dated at or before that time and no later one (the account's starting balance if there is none); TransactionsInInterval returns, in order, exactly the transactions dated neither before the start nor after the end. The -b and -e options of the commands keep exactly the entries dated neither before the begin date nor after the end date.",
  ["inputs"], "every ledger and every limit, including limits equal to an entry's time and limits before or after all entries",
  "No test queries by date.",
  [ACC, CL, CM], [("GetBalance, TransactionsInInterval", ACC), ("main2", CL), ("main2", CM)])
p("P20", "What Export writes follows the syntax the journal reader accepts",
  "Every kind of line Export writes (account, commodity, price, transaction, split with price, assertion and date tag, and comment lines) is introduced and separated by the keywords and markers the journal reader recognises for that kind of line, with dates in a form the reader accepts to the same precision.",
  ["inputs"], "every ledger",
  "No test exports.",
  [LED, PAR], [("Export", LED), ("readJournal", PAR)])
p("P21", "Export leaves nothing out",
  "Export writes every account, currency, transaction, split and price of the ledger, each with its full name (as FullName gives it) or description, its time to the second and its amount with all its digits (as FullString gives it), its price, its assertion, its own date if that differs, its code or ISIN if it has one, and all of its comments.",
  ["inputs"], "every ledger",
  "No test exports.",
  [LED], [("Export", LED)])
p("P22", "Nothing is rejected silently: diagnostics say where",
  "A journal line or text-database line that is not taken into the ledger (other than blank lines and comments at top level) produces a diagnostic naming the file and the line, every account, transaction, split and price loaded from a journal carries an ID naming the file and the one-based line where it was defined, and every error of Fill names the transaction or split concerned.",
  ["inputs"], "every input line",
  NOT + "every rejecting branch must print.",
  [PAR, TXT, ACC], [("readJournal", PAR), ("Fill errors", ACC)])
p("P23", "Optional backend operations are forwarded faithfully or refused",
  "When the connection implements one of the optional operations Account, TransactionsInAccount, TransactionsInInterval, NewAccount, EditAccount, NewTransaction, EditTransaction and Flush (with the signature of the Ledger method), the Ledger method of that name calls exactly that operation, passing its arguments through and returning its results unchanged; when it does not, the editing methods return a non-nil error and a nil result without changing the ledger, Flush returns nil, and the query methods answer from the ledger.",
  ["programs", "inputs"], "every connection type and every optional operation",
  "No test has a connection.",
  [ACC, BK], [("Ledger methods with an interface test", ACC)])
p("P24", "Loading and querying always terminate",
  "Reading a journal terminates even if files include each other, and no recursion of the library (account paths, includes, currency conversion) can repeat with the same arguments.",
  ["inputs"], "every input, including cyclic includes and cyclic prices",
  "Tests cannot observe divergence on inputs they do not have.",
  [PAR, ACC], [("Scanner.NewFile", PAR), ("Convert", ACC), ("FullName", ACC)])
p("P25", "Amounts are always held in units of 1/U",
  "Every amount stored in a Value by the library is the actual value times U, whatever its source (journal text, text database, SQL database, prices, products and quotients of other amounts): a product of two amounts is divided by U exactly once and a quotient of two amounts is multiplied by U exactly once before it is stored.",
  ["inputs"], "every operation that produces an amount",
  "Tests check parsing of journal amounts only.",
  [ACC, PAR, TXT, PG], [("U", TYP), ("Mul, Convert, Fill", ACC), ("getValue", PAR), ("conn.read", TXT)])
p("P26", "Queries and Export do not change the ledger",
  "Account, GetBalance, TransactionsInAccount, TransactionsInInterval, Convert, FullName, the String methods, Clone and Export leave the ledger and every object reachable from it exactly as they were.",
  ["inputs", "histories"], "every ledger and every sequence of queries",
  "A test of the result does not see a change of the operand.",
  [ACC, LED], [("query methods", ACC), ("Export", LED)])
p("P27", "The account tree is consistent",
  "After a successful load each account appears exactly once in Ledger.Accounts, after its parent; it is among its parent's Children exactly once and in nobody else's, its Level is its parent's plus one (zero without a parent), and the journal reader creates one account per full name, its parent being the account of the name's prefix.",
  ["inputs"], "every set of accounts, in any order of definition",
  "No test loads accounts.",
  [ACC, PAR], [("Fill, account loops", ACC), ("getAccount", PAR)])
p("P28", "An amount that does not fit is rejected, not wrapped",
  "The journal reader never accepts a number whose value times U does not fit in 64 bits, and no product of an amount with another amount or with a length of time is computed in 64 bits: an out-of-range amount gives an error instead of a silently different amount.",
  ["inputs"], "every number",
  "Tests use small numbers.",
  [PAR, ACC], [("getValue", PAR), ("Mul, Convert, Fill use big integers", ACC)])
p("P29", "A report's total counts every selected account exactly once",
  "The totals printed by the balance, delta and income-statement reports sum each selected account exactly once, however many search words match it and whatever ancestors match too, and sum nothing else; with market conversion every amount is converted with the prices of the date it belongs to, and a failed conversion is reported instead of summed.",
  ["inputs"], "every ledger and every list of search words",
  "No test runs a report.",
  [CL, CM], [("runBalance, runDelta, runIncomeStatement", CL)])
p("P30", "Splits dated apart are bridged by transfer splits that cancel out",
  "For each split whose time differs from its transaction's, Fill adds exactly two splits of the transfer account to the transaction, with opposite amounts of the split's currency, one dated like the split (negated amount) and one dated like the transaction; no other transfer splits exist, filling again does not accumulate them, and the transfer account's balances are running sums.",
  ["inputs", "histories"], "every ledger, filled any number of times",
  "No test calls Fill.",
  [ACC], [("Fill, transfer splits", ACC)])
p("P35", "Each part of the source is stored where it belongs",
  "What is loaded holds each part of its source in the field of that meaning: of a journal line the date (up to the first space), the description (after it), the account (up to the first two spaces), the amount (after them, before any '@' or '='), the price (after '@' or '@@', before '='), the asserted balance (after '='), the comment (after ';') and the tags' values (after ':'); of a journal price line the date, the currency and the value, in this order; of a line of a text database the colon-separated field of that meaning; of a row of the SQL database the column of that meaning. An amount is negated exactly where its text has a minus sign, and consecutive rows of the SQL database form one transaction exactly where they have the same transaction ID.",
  ["inputs"], "every line and row of every source",
  "Tests load a few fixed journals and none of the databases; which text ends up in a field depends on where the markers are in the line.",
  [PAR], [("readJournal", PAR), ("getAccounts, getTransactions", TXT), ("Open", PG)])
p("P36", "A currency name stands for one currency",
  "No two entries of Ledger.Currencies get the same name by loading a journal or by GetCurrency. An amount read from a journal with a currency name refers to the entry of Ledger.Currencies whose name is exactly that text, which is added if there is none; an amount without a currency name refers to the ledger's default currency, and an amount with one never does so for lack of a match. GetCurrency returns the entry of exactly the given name, adds one if and only if there is none, and its second result tells whether it was added. A currency in the list keeps its name.",
  ["inputs", "histories"], "every journal and every sequence of calls of GetCurrency",
  "Balances, prices and conversions compare currencies by pointer, so two objects for one name (or one for two names) corrupt every sum; tests load journals with one or two currencies.",
  [ACC, PAR], [("GetCurrency", ACC), ("getValue", PAR)])
p("P31", "Export followed by loading gives the same ledger",
  "Loading what Export wrote gives a ledger with the same accounts, transactions, amounts, prices and balances.",
  ["inputs"], "every ledger", "No test exports.", [LED, PAR], [("Export", LED), ("readJournal", PAR)])
p("P32", "Interpolated prices lie between their neighbours",
  "A price derived from an earlier and a later recorded price is the linear interpolation of the two, rounded toward the earlier one.",
  ["inputs"], "every pair of prices and date", "No test calls Convert.", [ACC], [("Convert", ACC)])
p("P33", "Printed amounts are exact to the digits shown",
  "The printed form of a value, with its separators removed, is the amount truncated to the currency's precision, or the exact amount in the full form.",
  ["inputs"], "every amount and currency", "Tests print about forty fixed amounts.", [ACC], [("GetString", ACC)])
p("P34", "Numbers are read with the right separators",
  "A number is read as the decimal number it denotes under the currency's thousand and decimal separators, ambiguous ones being rejected.",
  ["inputs"], "every number text", "Tests parse about twenty numbers.", [PAR], [("getValue", PAR)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        x["statement"] = x["statement"].strip()
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
