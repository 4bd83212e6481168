#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "An accepted journal yields exactly the transactions written in it",
 "Whenever a journal is accepted, the transactions reported are exactly those written in it, in order and each once: the same date, state, payee, header note and notes, and for every posting the same account, amount and comments (own-line or at the end of the posting's line). Nothing in the layout (blank lines or none between transactions, comment lines, tabs or spaces, CRLF line endings, a missing final newline) drops, duplicates, merges or alters any of them. A posting or transaction line that cannot be understood makes the journal an error; it is never skipped.",
 ["inputs","histories"], "every sequence of journal lines, every layout of a header or posting line, every calendar date in each of the three date formats",
 "The tests lex one header and a handful of date and amount items in isolation; no test parses a whole journal, so nothing checks what survives a sequence of lines.",
 ["parser/lexer.go","parser/parser.go","parser/transactionbuilder.go","journal/transaction.go"],
 [("line classification and item lexing","parser/lexer.go lexLine, lexTransactionHeader, lexPosting"),("transaction life cycle","parser/transactionbuilder.go beginTransaction/build/endTransaction"),("dates","parser/parser.go parseDate")],
 ["gledger print","parser.Parse transaction handler"],
 [dict(name="transactionBuilder",meaning="the open transaction, the open posting and the previous item",where="parser/transactionbuilder.go"),dict(name="lexer.pos/width",meaning="cursor within the current line",where="parser/lexer.go")])

prop("C02", "Accepted transactions sum to zero and an omitted amount is inferred exactly",
 "In a journal of one commodity, a transaction is accepted only if its postings' quantities sum to zero. At most one posting, wherever it stands, may omit its amount, and it is then given exactly the quantity (zero included) that makes the sum zero, in the commodity of the others (an error if that does not fit 64-bit hundredths). Any other transaction, anywhere in the journal and whatever came before it, makes the journal an error.",
 ["inputs","histories"], "every vector of posting amounts and omissions, in every position of a journal (first, after other transactions, last without newline, in an included file)",
 "No test closes a transaction; balancing is entirely untested.",
 ["journal/transaction.go","parser/transactionbuilder.go"],
 [("single elided posting","journal/transaction.go AddPosting"),("balance check and inference","journal/transaction.go Close"),("errors propagated","parser/transactionbuilder.go endNormalTransaction")],
 ["gledger print","gledger balance"],
 [dict(name="postingWithElidedAmount",meaning="the one posting whose amount is inferred",where="journal/transaction.go Transaction")])

prop("C03", "Amounts are read and displayed exactly",
 "An amount is an optional sign, one or more digits and optionally a point with one or two more digits, after an optional commodity that may be followed by a space; it is read as exactly that many hundredths, and anything else in that place, or a magnitude that does not fit 64-bit hundredths, is an error. Every quantity is displayed exactly, with its sign and two decimals and with the commodity it was written with in front, so that reading it back gives the same quantity and commodity.",
 ["inputs"], "every amount text and every representable quantity",
 "Tests read five amounts (all with zero or two decimals) and display five; one-decimal, long-decimal, doubly signed, huge and malformed amounts are never tried.",
 ["parser/parser.go","parser/lexer.go","journal/amount.go"],
 [("amount text to hundredths","parser/parser.go parseAmount"),("commodity/amount boundary","parser/lexer.go lexCommodity"),("display","journal/amount.go DisplayableQuantity")],
 ["gledger print","gledger balance"])

prop("C04", "No journal, flag value or filter makes a command crash or hang",
 "Whatever bytes the journal holds, every command ends by itself with either its report or an error message: it never panics, never hangs, and never prints an internal failure in place of a value. The same holds for every text given as a filter argument or as a --begin / --end date.",
 ["inputs","programs"], "every byte string as a journal, as a line in any parser context, as a filter and as a date argument, under every command",
 "Tests feed well-formed items plus a few malformed dates and amounts to single functions; crashes came from combinations (a comment after a blank line, an elided amount in a balanced transaction) that only whole journals contain.",
 ["parser/lexer.go","parser/parser.go","parser/transactionbuilder.go","parser/dates.go","cmd/common.go","reporting/filter.go","journal/budget.go"],
 [("bounds checks before indexing","parser/parser.go parseDate, parseAmount; reporting/filter.go NewFilter"),("no open posting outside a transaction","parser/transactionbuilder.go buildNormalTransaction"),("every posting has an amount after Close","journal/transaction.go Close")],
 ["exit of every gledger command"])

prop("C05", "Balance amounts are exact sums over each account and everything below it",
 "In the balance report every account's amount is exactly the sum of the postings to that account and to all accounts below it, in the journal's commodity, and the final total is the sum of all postings. Each account appears once under its own parent, however often and in whatever order it is posted to, and distinct paths are never confused. Where a sum does not fit 64-bit hundredths, there is an error instead of a report.",
 ["inputs","histories"], "every sequence of transactions over every shape of account hierarchy",
 "Tests create accounts by hand and never post to them; no test adds an amount to an account or runs a balance.",
 ["journal/journal.go","journal/account.go","journal/amount.go","cmd/balance.go","reporting/tree.go"],
 [("posting wired to its account and all ancestors","journal/journal.go wireUpPosting"),("find or create by path","journal/account.go FindOrCreateAccount/findChild"),("ancestor walk","journal/account.go WalkAncestors")],
 ["gledger balance -Z"],
 [dict(name="Account.Amount",meaning="inclusive balance",where="journal/account.go")])

prop("C06", "Balance hides an account only if it and everything below it is zero",
 "Without --show-zero, the balance report shows exactly those accounts whose own balance or any descendant's balance is not zero; with --show-zero it shows every account posted to and its ancestors. Hiding an account changes no amount or total that is shown.",
 ["inputs"], "every assignment of positive, negative, zero and absent postings to a hierarchy",
 "RemoveChildren is tested once with a name matcher; removing empty accounts, and hence what the balance report hides, is not tested at all.",
 ["journal/account.go","cmd/balance.go"],
 [("removal of empty accounts","journal/account.go RemoveEmptyChildren, RemoveChildren, Unlink"),("only without -Z","cmd/balance.go prepareBalance")],
 ["gledger balance","gledger balance -Z"])

prop("C07", "Tree, flat and collapsed balance layouts show the same balances",
 "The tree layout lists every shown account once, below its parent, siblings in alphabetical order, indented by depth; the flat layout lists, by full path and in the same order, exactly the shown accounts that have no shown sub-account; the collapsed layout differs from the tree only in joining an account with its only shown child into one line carrying the deepest account's balance. A listed account has the same balance in every layout, and every layout ends with the same total.",
 ["inputs","configurations"], "every hierarchy shape with every combination of --flatten, --collapse and --show-zero",
 "The tests for both layouts do not compile, so neither layout is tested.",
 ["reporting/tree.go","reporting/flattenedtree.go","cmd/common.go","journal/account.go"],
 [("recursive rendering with collapse state","reporting/tree.go tree, treeContext"),("flat rendering","reporting/flattenedtree.go"),("alphabetical children","journal/account.go SortedChildNames"),("stored path","journal/account.go CreatePath")],
 ["gledger balance [-F] [-C] [-Z]"],
 [dict(name="treeContext",meaning="collapse and depth state threaded through the recursion",where="reporting/tree.go")])

prop("C08", "What print writes is a journal with the same meaning",
 "The output of print is accepted as a journal and contains the same transactions: the same dates, states, payees, notes, accounts, comments and (now explicit) amounts. Its balance report equals that of the original, and printing it again gives exactly the same text.",
 ["inputs","histories"], "every accepted journal of normal transactions",
 "No test calls print or Transaction.String, and none feeds output back in.",
 ["journal/transaction.go","journal/posting.go","journal/amount.go","parser/lexer.go","cmd/print.go"],
 [("rendering","journal/transaction.go String; journal/posting.go String"),("matching grammar","parser/lexer.go")],
 ["gledger print | gledger print -f -","gledger balance"])

prop("C09", "print shows each selected transaction once, by date, ties in journal order",
 "print shows every selected transaction exactly once, ordered by date. Transactions of the same date keep the order they have in the journal, however many there are.",
 ["inputs","histories"], "every sequence of dates, of any length",
 "Nothing tests print; instability of a sort shows only beyond a dozen transactions.",
 ["cmd/print.go"],
 [("stable sort by date","cmd/print.go prepare")],
 ["gledger print"])

prop("C10", "Date flags select by calendar date in every time zone and at every hour",
 "--begin includes transactions on or after its date, --end excludes transactions on or after its date, and --current (which overrides both) includes exactly those dated today or earlier by the local calendar. This holds to the day, for every command that takes the flags (accounts, payees, print, statistics, balance, and the postings in budget), whatever the local time zone and time of day (for days the local calendar has).",
 ["inputs","configurations"], "every (begin, end, transaction date) triple, every time zone, every current time",
 "No test covers the flags, and the result depends on the clock and the zone of the machine, which tests do not control.",
 ["cmd/common.go","cmd/root.go","parser/dates.go"],
 [("range check","cmd/common.go withinDateRange"),("wrapping of handlers","cmd/common.go dateCheckedTransactionHandler, checkAgainstFilters")],
 ["all commands with -b, -e, -c under TZ and clock"],
 hook="the clock is replaced in the harness build by a compiler overlay of the standard library; nothing in /repo")

prop("C11", "A date flag's short date means one calendar date or is an error",
 "A --begin or --end value is YYYY, YYYY/MM, YYYY/MM/DD or MM/DD, with '/', '-' or '.' as the one separator used throughout and exactly the digits shown; it means January 1st of the year, the first of the month, the date itself, or the date in the current year. Anything else, and any date not in the calendar (leap years included), is an error.",
 ["inputs","configurations"], "every text of a bounded alphabet and every combination of components, in every current year",
 "Tests try about a dozen texts, one of which fails since 2021 because it depends on the clock.",
 ["parser/dates.go","cmd/common.go"],
 [("component count and separators","parser/dates.go ParseSmartDate"),("calendar check","parser/dates.go parseYear, parseYearMonth, parseMonthDay, parseYearMonthDay")],
 ["gledger print -b TEXT","gledger print -e TEXT"],
 hook="clock overlay as for C10")

prop("C12", "Filter arguments select exactly what any of them matches",
 "A plain argument matches postings by account name, '@' the transaction's payee and '=' its notes (header note, notes, and posting comments); an argument is a regular expression that ignores case unless it contains an upper-case letter, and several arguments select what any of them matches. print and statistics take every transaction of which any part matches. balance adds up all postings of a transaction whose payee or own notes match, and otherwise only the postings whose account or comments match.",
 ["inputs","configurations"], "every list of filters against every combination of matching and non-matching parts of a transaction",
 "No test constructs a filter.",
 ["reporting/filter.go","cmd/common.go","cmd/root.go"],
 [("filter kinds and smart case","reporting/filter.go NewFilter"),("how a transaction matches","reporting/filter.go MatchesTransactionHow"),("union over filters","cmd/common.go checkAgainstFilters")],
 ["gledger print/balance/statistics ARGS"])

prop("C13", "Including a file is the same as having its transactions in its place",
 "An include directive stands for the included file's transactions at that point: order, content and totals are as if they were written there, to any depth and however often a file is included, a transaction still open before the directive ending there. Paths are relative to the directory of the file with the directive, and each transaction is attributed to the file it is written in. A missing file, or a file that includes itself directly or through others, is an error.",
 ["inputs","programs"], "every include structure of up to a few files in nested directories, including repeated and cyclic ones",
 "No test includes a file; nesting, returning to the including file and cycles need several files.",
 ["parser/lexer.go","parser/parser.go","parser/transactionbuilder.go"],
 [("relative path","parser/lexer.go lexIncludeDirective"),("recursive lexing and the stack of files","parser/parser.go parseItem includeItem"),("attribution","parser/transactionbuilder.go endTransaction")],
 ["gledger print","gledger statistics (file list)"],
 [dict(name="journalFiles",meaning="stack of files being read",where="parser/parser.go Parser")])

prop("C14", "The budget shows what was allocated, spent and earned in each month",
 "budget lists, in date order, each month in which money was budgeted ('~ YYYY-MM'), spent (accounts under Expenses) or earned (accounts under Income), and no other. For each month, Funds is the income, and each top-level category that was budgeted or spent on in that month has one row, in alphabetical order, whose Budgeted is the sum allocated to it and below, whose Activity is minus the sum spent in it and below, and whose Available is their sum. Nothing leaks between months or categories, and the report contains nothing else. Where a sum does not fit 64-bit hundredths, there is an error instead of a report.",
 ["inputs","histories"], "every sequence of budget, expense and income entries over months and nested categories",
 "No test touches budgets.",
 ["journal/budget.go","cmd/budget.go","parser/transactionbuilder.go","journal/periodictransaction.go"],
 [("month buckets","journal/budget.go AddPosting, addIncomePosting, normaliseToMonth"),("balancing source of an allocation","parser/transactionbuilder.go endNormalTransaction"),("report","cmd/budget.go report")],
 ["gledger budget"],
 [dict(name="Budget.Months",meaning="envelopes, expenses and income by month",where="journal/budget.go")])

prop("C15", "statistics reports the true counts, dates and files of the selection",
 "statistics reports exactly, for the selected transactions: the files they are written in (sorted, each once), the earliest and latest dates, the days between them, how many transactions there are and how many per day (over one day if they share a date), and the numbers of distinct payees and of distinct accounts (those of the matching postings, where only postings matched). If nothing is selected it says so instead.",
 ["inputs","histories"], "every sequence of transactions over dates, accounts, payees and files, with every date range and filter",
 "No test runs statistics.",
 ["cmd/stats.go","cmd/common.go"],
 [("accumulation","cmd/stats.go transactionHandler"),("report","cmd/stats.go report")],
 ["gledger statistics"],
 [dict(name="statisticsJournal",meaning="accumulated sets and bounds",where="cmd/stats.go")])

prop("C16", "Age of money is the first-in-first-out age of the last ten spendings",
 "Money received (Income, totalled by day) is spent first in, first out by the Expenses of each day in date order; each portion of a day's spending taken from one day's income has as its age the days between the two. The reported age of money is the average of the last ten such ages (of all, if fewer), rounded to a day, for any journal in which every day's income and spending is positive (and fits 64-bit hundredths) and spending is always covered by income of the same or an earlier day; it does not depend on the order of transactions in the journal.",
 ["inputs","histories"], "every history of daily incomes and expenses in which spending is covered",
 "No test runs statistics; the queue discipline shows only over histories of several days.",
 ["cmd/stats.go"],
 [("daily buckets","cmd/stats.go transactionHandler"),("first-in-first-out matching","cmd/stats.go prepare")],
 ["gledger statistics (Age of money)"],
 [dict(name="incomeBuckets/expenseBuckets",meaning="income and spending by day",where="cmd/stats.go")])

prop("C17", "accounts and payees list each name once, sorted, and only matching ones",
 "accounts lists exactly the distinct account names posted to, and payees exactly the distinct payees, of the transactions in the date range, each once and in byte order. With arguments (not starting with '@' or '=') they list exactly the names that at least one argument matches as a regular expression (ignoring case unless the argument has an upper-case letter).",
 ["inputs","configurations"], "every set of transactions, every list of arguments",
 "No test runs either command.",
 ["cmd/accounts.go","cmd/payees.go","reporting/filter.go"],
 [("set, filter and sort","cmd/accounts.go prepare; cmd/payees.go prepare")],
 ["gledger accounts [ARGS]","gledger payees [ARGS]"])

prop("C18", "Output is a function of the journal and the arguments alone",
 "Running a command twice on the same files with the same arguments, at the same moment, gives byte-identical output. In particular nothing in a report, in its order, amounts, commodities or warnings, depends on the order in which the runtime iterates over maps.",
 ["schedules","inputs"], "every map-iteration order the runtime may choose at every iteration of a run, for every command and a set of journals and arguments (mixed commodities included)",
 "A test observes one random iteration order per run and cannot choose it.",
 ["journal/account.go","reporting/filter.go","cmd/common.go","cmd/stats.go","cmd/accounts.go","cmd/payees.go","cmd/budget.go"],
 [("sorting before output","journal/account.go SortedChildNames; cmd/*.go prepare and report"),("postings kept in order","cmd/common.go checkAgainstFilters")],
 ["stdout of all commands"],
 hook="map iteration offsets are chosen by the harness through a compiler overlay of the Go runtime; nothing in /repo")

prop("C19", "How the input arrives does not matter, and a read error is never success",
 "Parsing gives the same transactions and the same result however the reader splits the bytes into reads (short reads, empty reads, data together with end of file). If reading fails at any point, parsing returns an error, and the transactions handed out by then are a prefix of those of the whole journal: a transaction cut short by the failure is never handed out.",
 ["fault_sequences","inputs"], "every split of the input into reads and every offset and manner of a read failure",
 "Tests read from in-memory strings that answer in one piece and never fail.",
 ["parser/lexer.go","parser/parser.go"],
 [("line reading and reassembly","parser/lexer.go lex"),("error propagation","parser/parser.go Parse")],
 ["parser.Parser.Parse with a controlled io.Reader"])

prop("C20", "A journal with an error produces only that error, and says where it is",
 "If any entry of a journal, or of a file it includes, is in error, every command that would read it prints the error and no report. The message names, as file:line, the file the faulty entry is written in and a line from the start of that entry to the line that ends it, preceded by the line of each include directive that led there.",
 ["inputs","programs"], "every kind of error at every position of every file of a journal, under every command",
 "No test looks at an error's text or at a command's output after an error.",
 ["parser/lexer.go","parser/parser.go","cmd/common.go","cmd/balance.go","cmd/print.go","cmd/stats.go","cmd/accounts.go","cmd/payees.go","cmd/budget.go"],
 [("line counting and wrapping","parser/lexer.go lex"),("abandon the report","cmd/*.go Run")],
 ["stdout of all commands"],
 [dict(name="lexer.currentLine",meaning="line being lexed",where="parser/lexer.go")])

prop("C21", "Account hierarchies stay consistent under every sequence of operations",
 "After any sequence of creating, finding, unlinking, pruning and removing accounts, every account reachable from the root is its parent's child under its own name, its path and path components spell the names from the root down, and finding it by them gives the same account. Finding creates only what is missing; pruning to a depth leaves exactly the accounts down to that depth; removing keeps exactly the accounts that match or have a matching descendant; an unlinked account has no parent and keeps what is below it; and the leaves are exactly the accounts without children.",
 ["histories"], "every sequence of operations up to a depth over a small universe of paths",
 "Tests exercise each operation once on one fixed tree and never chain them.",
 ["journal/account.go"],
 [("creation","journal/account.go FindOrCreateAccount, newAccountWithChildren"),("removal","journal/account.go Unlink, PruneChildren, RemoveChildren, RemoveEmptyChildren"),("queries","journal/account.go Leaves, FindAccounts, CreatePath, Head, SortedChildNames")],
 ["journal.Account API"],
 [dict(name="Account.Parent/Children/Path/PathComponents",meaning="the linked hierarchy",where="journal/account.go")])

prop("C22", "Size changes nothing: long lines, long lists and deep nesting are read whole",
 "The meaning of a journal does not depend on the sizes in it: lines of any length (at and around the reader's buffer size too), any number of transactions, postings, notes and comments, accounts of any depth and names of any length, and includes nested to any depth (within the operating system's limits) are read, balanced and reported in full.",
 ["inputs"], "every size from small to beyond each internal capacity, and every alignment of a line with the read buffer",
 "The longest test input is a few dozen bytes; the code has capacities of 4, 5, 8, 256 and 4096 that none reaches.",
 ["parser/lexer.go","journal/transaction.go","journal/account.go","cmd/print.go"],
 [("reassembly of long lines","parser/lexer.go lex"),("growing slices","journal/transaction.go NewTransaction; parser/lexer.go runeBufferCapacity")],
 ["gledger print/balance/accounts/payees"])

prop("C23", "The journal read is the one asked for",
 "A command reads the journal named by --file (or -f); without it, or with an empty one, the one named by LEDGER_FILE; with neither it reports that no journal was provided. A named journal that cannot be read is an error, never replaced by another and never treated as empty, and no command changes any file.",
 ["configurations"], "every combination of flag, environment variable and state of the named files, for every command",
 "No test runs a command.",
 ["cmd/common.go","cmd/root.go"],
 [("selection of the root journal","cmd/common.go parse")],
 ["all commands, with the environment and file system around them"])

prop("C24", "All commands agree on what the journal contains",
 "For the same journal, date range and payee filters, the reports agree with each other: statistics counts as many transactions, accounts and payees as print shows; without filters, accounts and payees list exactly the names in print; and every amount in balance is the sum of the amounts print shows for that account and those below it. Splitting the date range at any day splits every count and every balance exactly.",
 ["inputs","configurations"], "every journal over a small alphabet of transactions with every date range",
 "No test runs two commands, or one command, on a journal.",
 ["cmd/print.go","cmd/stats.go","cmd/accounts.go","cmd/payees.go","cmd/balance.go","cmd/common.go"],
 [("shared selection","cmd/common.go checkAgainstFilters, dateCheckedTransactionHandler")],
 ["all commands"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
