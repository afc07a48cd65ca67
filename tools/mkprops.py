#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (single source of truth for ids and titles)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
TX="src/models/transaction.rs"; MO="src/models/mod.rs"; BA="src/commands/balance.rs"; RE="src/commands/register.rs"
PT="src/parser/tokenizers/transaction.rs"; VE="src/parser/value_expr.rs"; PR="src/models/price.rs"; GR="src/grammar/grammar.pest"
prop("C01","Only balanced transactions are accepted",
 "A journal is accepted only if, in every transaction, the real postings (each taken at its cost when it has one) add up to zero in every commodity, or leave a remainder with both a positive and a negative commodity (an implicit exchange). A transaction that leaves anything else over, or has more than one real posting without amount, makes every command fail without printing a report, and a journal in which all transactions balance is never refused for this reason.",
 ["inputs"],"every journal: any number of transactions, postings, commodities, amounts and costs, in any order",
 "Tests try a handful of fixed journals; the residual is a function of every combination of amounts, signs, commodities and costs.",
 [TX,MO,"src/models/balance.rs"],[("Transaction::balance, can_be_zero",TX)],["exit status and stdout of every command"],
 [("transaction_balance","what the real postings of a transaction leave over, per commodity",TX)])
prop("C02","An elided amount is what balances the transaction, exactly",
 "When exactly one real posting of a transaction has no amount, its account receives, for every commodity, exactly minus what the other real postings leave over (at cost), one entry per commodity with a remainder and none when there is no remainder. The inferred amounts count in every report, in later balance assertions and for automated transactions like written ones.",
 ["inputs"],"every transaction with one elided amount, in every position, with any number of commodities",
 "The tests check that one or two examples parse; they do not compare inferred amounts.",
 [TX],[("fill of the empty posting in Transaction::balance",TX)],["reg, bal"],
 [("fill_account","account of the elided posting",TX)])
prop("C03","Balance assertions hold at their point in date order or the journal fails",
 "`ACCOUNT AMOUNT = BALANCE` is accepted exactly if, after applying all real postings up to and including that one, in date order (journal order within a date, posting order within a transaction), the account holds BALANCE of the asserted commodity (of no commodity at all, when BALANCE is a bare 0). Other commodities, subaccounts, virtual postings and later postings do not matter, and with --no-balance-check no assertion can fail.",
 ["histories","inputs"],"every history of transactions, whatever the order in which dates appear in the journal",
 "Needs the running balance of every account after every prefix of the date-sorted history; tests have one passing and one failing example.",
 [TX,MO],[("running balances per account",TX),("stable sort by date",MO)],["exit status; bal and reg with and without --no-balance-check"],
 [("balances","running balance per account",MO)])
prop("C04","Balance assignments move an account exactly to the given balance",
 "A posting with `= BALANCE` and no amount receives exactly the amount of BALANCE's commodity that makes the account hold BALANCE at that point of the date-ordered history, counted like a written amount from then on. Only that commodity changes; a bare `= 0` clears the whole balance when it consists of at most one commodity.",
 ["histories","inputs"],"every history of transactions",
 "The assigned amount depends on the complete prior history; tests have a single two-transaction example.",
 [TX],[("assignment branch of Transaction::balance",TX)],["reg, bal"],[("balances","running balance per account",MO)])
prop("C05","Costs: @ multiplies, @@ is a total, both follow the sign of the amount",
 "A posting `Q C @ P D` weighs Q*P of D and `Q C @@ T D` weighs T of D with the sign of Q when its transaction is balanced or an elided amount inferred, exactly and with no rounding. The account itself still receives Q of C in reports and assertions.",
 ["inputs"],"every quantity, price and total, positive or negative, with any number of decimals",
 "Tests have one journal with costs and only check that it is accepted.",
 [TX,MO],[("cost handling in Transaction::balance and total_balance",TX)],["exit status, reg, bal"])
prop("C06","Virtual postings: [..] must balance among themselves, (..) never do",
 "Postings in square brackets must balance among themselves like real ones, postings in parentheses need not, and neither can balance or unbalance the real postings, be inferred, or change what real assertions and assignments see. Both appear with their brackets in the register, and reports include them unless --real is given, in which case reports equal those of the same journal without virtual postings.",
 ["inputs"],"every mix of real, balanced virtual and unbalanced virtual postings",
 "Tests have one virtual-posting journal and check line counts.",
 [TX,PT,"src/filter.rs"],[("kind filter and total_balance",TX)],["exit status, reg, bal, --real"])
prop("C07","The flat balance report is the exact sum of the selected postings",
 "`bal --flat` shows each account with a non-zero sum of the selected postings exactly once, with exactly the commodities whose sum is non-zero and their exact sums, and no other line; with --depth N accounts are merged into their first N components. When more than one account is shown and --no-total is absent it ends with the total of all selected postings, 0 if that is zero.",
 ["inputs","histories"],"every accepted journal and every selection",
 "Tests only count lines of one report.",
 [BA,"src/models/balance.rs"],[("accumulation per account",BA),("Balance addition","src/models/balance.rs")],["bal --flat"],
 [("balances","sum per account",BA)])
prop("C08","The tree balance report shows every account under its parent with its subtotal",
 "Each line of the tree report names an account (the text continues the closest shown ancestor, one indentation step per component above it) and shows exactly the sum of that account and all its subaccounts, where only complete `:`-separated components count as hierarchy. Every account or ancestor with a non-zero subtotal within --depth is shown once, except those whose whole subtotal comes from a single shown subaccount and which are merged into its line; the total is that of the flat report.",
 ["inputs"],"every account hierarchy, including names that are textual prefixes of others, accounts with own balance and subaccounts, and subtotals that cancel out",
 "Tests count lines of one demo file.",
 [BA],[("parent totals, sorting and collapsing",BA)],["bal, bal --depth N"])
prop("C09","The register lists every selected posting once, in date order, with totals",
 "`reg` lists each selected posting exactly once, transactions ordered by date and, within a date, in journal order; the first line of a transaction carries its date and description, and every line its account and exact amount. After each line the running total is the exact sum of the amounts listed so far, per commodity, so the last one is the total of `bal` for the same selection.",
 ["inputs","histories"],"every accepted journal and every selection",
 "Tests count the lines of one report.",
 [RE,MO],[("running balance",RE),("stable sort by date",MO)],["reg"],[("balance","running total",RE)])
prop("C10","Date ranges include the begin date and exclude the end date",
 "With -b B and -e E, reports contain exactly the postings of transactions dated B or later and before E, each bound being optional; B and E may be full dates with - or /, a month (its first day) or a year (its first day). Selection by date never changes amounts: balance assertions, assignments and elided amounts are computed from the whole journal.",
 ["inputs","configurations"],"every journal and every pair of bounds, including days with transactions on them, month ends and leap days",
 "Tests try two ranges on one file.",
 ["src/filter.rs","src/app.rs"],[("filter","src/filter.rs"),("date_parser","src/app.rs")],["bal, reg with -b and -e"])
prop("C11","Query terms select exactly the postings they describe",
 "A query selects the postings for which its terms hold: a bare word matches case-insensitively anywhere in the account name, /re/ case-sensitively, @word the payee and %word the name of a tag; terms are joined by `or` unless `and` stands between them, and `and` binds tighter. bal and reg select the same postings, and an empty query selects all.",
 ["inputs","configurations"],"every journal and every combination of terms",
 "Tests try a few one- and two-term queries on one file and count lines.",
 ["src/filter.rs",VE,RE,BA],[("preprocess_query","src/filter.rs"),("eval",VE)],["bal, reg with query terms"])
prop("C12","Value expressions evaluate with the usual arithmetic and logic",
 "In `expr` queries and automated transactions, + - * / on numbers and amounts are exact, comparison is numeric (or by date), and, or, not, any, has_tag, tag, abs and to_date have their usual meaning, for the posting at hand. `not` < comparison < + - < * / < unary minus is the binding order, with and tighter than or and operators of a level grouping to the left, so every operand of a chain counts.",
 ["inputs","programs"],"every expression built from the supported variables, literals, functions and operators, over every posting",
 "Tests evaluate fewer than ten fixed expressions, each with at most one operator per level.",
 [VE,GR],[("build_ast_from_expr, eval",VE)],["reg/bal expr, amounts of automated transactions"])
prop("C13","Account and commodity names resolve by case-insensitive name or alias",
 "Two spellings of an account or commodity denote the same one exactly if they are equal ignoring case or one is declared an alias of the other, wherever in the journal the declaration stands; everything posted under any spelling is shown under one name, the declared one if there is a declaration. Distinct names are never merged, whatever they share.",
 ["inputs"],"every set of declarations, aliases and spellings, in any order",
 "Tests have one alias example; merging is a property of all pairs of names.",
 ["src/list.rs",MO],[("List::insert/get","src/list.rs"),("name population in to_ledger",MO)],["accounts, commodities, bal, reg"],
 [("aliases, list","name tables","src/list.rs")])
prop("C14","Payees resolve by alias patterns and choose accounts for unknown postings",
 "A transaction's payee is the text after `|`, or else its description; a payee that is not itself declared but matches an alias pattern of a declared payee is that payee, in listings, queries and the register. A posting to an account ending in `unknown` goes to the account that declares a payee pattern matching the transaction's payee, and stays as it is if there is none.",
 ["inputs"],"every set of payee and account declarations and transactions",
 "Tests have one alias example and one unknown-account example.",
 [MO,"src/models/payee.rs",TX],[("payee matching in to_ledger",MO)],["payees, reg, bal, @payee queries"])
prop("C15","Including files is the same as writing their content in place",
 "A journal split with include directives, in any nesting (of up to 1000 levels) and order, with paths relative to the including file and glob patterns read in name order, gives the same verdict and reports as the single file with the contents in place; a file may be included several times. If a file includes itself, directly or through others and by whatever path, the journal is refused.",
 ["inputs","configurations"],"every include graph, acyclic or not, and every way of naming the same file",
 "Tests have one include example and one direct cycle.",
 ["src/parser/include.rs","src/parser/mod.rs"],[("seen_files","src/parser/mod.rs"),("include::parse","src/parser/include.rs")],["exit status and all reports"],
 [("seen_files","files being read","src/parser/mod.rs")])
prop("C16","Automated transactions add their postings to exactly the matching postings",
 "For each posting written or inferred in a transaction, and each automated transaction whose query it satisfies, the automated postings are added once to that transaction: with the given amount if it has a commodity, the multiple of the matched amount if it has none, or the value of the expression; the posting also gets the automated transaction's tags. Automated postings do not trigger automated transactions, and the extended transactions must still balance and satisfy all assertions.",
 ["inputs","histories"],"every set of automated transactions and every journal, wherever the automated transactions stand",
 "Tests have two automated-transaction examples checked by line count.",
 [MO,VE],[("second pass of to_ledger",MO)],["reg, bal, exit status"])
prop("C17","The price database is exactly the declared, paid and implied prices",
 "`prices` lists each P directive, the unit price of each posting with a cost (positive, also for negative quantities and total costs) on its transaction's date, and the rate of each two-commodity implicit exchange, each exactly once, and nothing else.",
 ["inputs"],"every journal with prices, costs and exchanges",
 "Tests check one price list's length.",
 [MO,PR,"src/parser/tokenizers/price.rs"],[("price collection in to_ledger",MO)],["prices"],[("prices","price list",MO)])
prop("C18","-X values balances with the latest known prices",
 "`bal -X C` shows every balance with each commodity that is linked to C by known prices dated up to today converted to C, using for each pair of commodities its most recent price, in either direction and through chains of commodities, exactly and without intermediate rounding; commodities with no such link stay as they are. Amounts already in C are unchanged, and lines and total remain consistent sums.",
 ["inputs","histories"],"every price history and every journal",
 "Tests check one conversion table's size.",
 [PR,BA],[("conversion",PR),("convert_balance",BA)],["bal -X"])
prop("C19","Displayed amounts are the exact value rounded to two decimals, with its sign",
 "Every amount shown in a report is its exact value rounded half away from zero to two decimals, with minus sign exactly when negative (and not rounding to zero), followed by its commodity. Rounding happens on display only: sums of many small amounts are shown as the rounding of the exact sum.",
 ["inputs"],"every rational amount, of any magnitude",
 "Tests check a few values; carry and sign depend on the digits.",
 ["src/models/money.rs"],[("Display for Money","src/models/money.rs")],["bal, reg, prices"])
prop("C20","Amounts are read exactly or the journal is refused",
 "A written amount, with its commodity before or after, quoted or not, with any number of digits and decimals and an optional minus sign, is read as exactly the decimal number written. An amount that is not of this form (thousands separators, several decimal points or signs, leftover text, a second amount, a value expression in an ordinary transaction) makes the journal fail; it is never read as another amount.",
 ["inputs"],"every amount text",
 "Tests parse about ten amounts.",
 [PT,"src/parser/chars.rs","src/parser/utils.rs"],[("parse_money, parse_amount",PT)],["reg, bal, prices, exit status"])
prop("C21","Same journal, same output; reports do not depend on incidental order",
 "Running a command twice on the same journal prints exactly the same. Reordering declarations and prices, or transactions of different dates, within the journal does not change verdict, balances, register or listings.",
 ["inputs","schedules"],"every journal, every hash seed and every permutation of independent entries",
 "Tests run each command once on files in one order; the hash seed changes on every run.",
 ["src/list.rs","src/models/balance.rs",MO,PR],[("ordered maps","src/models/balance.rs, src/list.rs"),("stable sort by date",MO)],["stdout of all commands"])
prop("C22","Layout, comments and line endings do not change the meaning of a journal",
 "Indentation width, tabs or several spaces before amounts, trailing blanks, blank lines, comments in all supported places, CRLF line endings, a missing final newline and the choice of date separator do not change verdict or reports. A comment never swallows, merges or changes neighbouring entries.",
 ["inputs"],"every journal and every layout of it",
 "Tests use one layout per feature.",
 [PT,"src/parser/chars.rs","src/parser/tokenizers"],[("tokenizer",  "src/parser")],["all commands, comparing layouts"])
prop("C23","Tags apply to the posting they are written on and transaction tags to all",
 "Tags (`:a:b:` or `name: value`) in a transaction's comments apply to all of its postings, including inferred ones, those in a posting's comments (same or following lines) to that posting only, and those of an automated transaction to the postings it matches. Tag queries (%name, has_tag, tag) see exactly these tags and values.",
 ["inputs"],"every placement of tag comments and every tag query",
 "Tests have two tag examples checked by count.",
 ["src/models/comment.rs",MO,TX,PT],[("Comment::get_tags","src/models/comment.rs"),("tag propagation",MO)],["bal, reg with tag queries"])
prop("C24","A bad journal fails every command, and only a bad one does",
 "For one journal either all commands succeed or all fail with a non-zero status and without report lines (the check command reports KO), whatever the position of the error: unbalanced transaction, failed assertion, malformed date, amount, posting or directive, or unreadable file. Commands that only differ in selection or presentation always agree on the verdict, up to --no-balance-check.",
 ["inputs","fault_sequences"],"every journal with zero or more defects at any position",
 "Tests have a few bad files and check one command each.",
 ["src/app.rs","src/commands","src/parser/mod.rs","src/error.rs"],[("error propagation with ?","src/commands")],["exit status and stdout of all commands"])
prop("C25","Init file options act as if given on the command line, which wins",
 "Options in the init file (--init-file, or else ~/.ledgerrc, or else .ledgerrc in the working directory; only the first that exists) have the effect of being given on the command line, with comments and blank lines ignored. An option given on the command line, in long, short or attached form, overrides the one in the init file, and a malformed init file makes the command fail.",
 ["configurations"],"every combination of init files and command line options",
 "Tests load one init file and two bad ones.",
 ["src/app.rs"],[("run_app","src/app.rs")],["stdout and exit status with init files"])
prop("C26","Listings contain every account, payee and commodity exactly once",
 "`accounts`, `payees` and `commodities` list exactly the declared names and those used in transactions (including automated ones) and prices, each once, in alphabetical order, under the name reports use.",
 ["inputs"],"every journal",
 "Tests count the listings of one file.",
 ["src/commands","src/list.rs",MO],[("name population in to_ledger",MO)],["accounts, payees, commodities"])
prop("C27","Every run ends",
 "On any input file, however malformed, every command ends by itself, within seconds for inputs of ordinary size, with status 0 or a failure status, never hanging and never dying from a signal. Include cycles, unterminated, long or deeply nested expressions, unterminated quotes, and truncated files are no exception.",
 ["inputs","fault_sequences"],"every byte sequence that is valid text, in particular every truncation and small corruption of a valid journal",
 "Tests try a few malformed inputs.",
 ["src/parser","src/parser/include.rs"],[("tokenizer position always advances","src/parser")],["process end, status"])
prop("C28","Transaction headers and dates are read faithfully",
 "The date (year, month, day in any of the supported separators, with or without leading zeros), optional time, effective date, status mark, description, `| payee` and comment of a transaction's first line are each read as such and never leak into one another; reports order and show transactions by the main date in the proleptic Gregorian calendar. Dates that do not exist or mix separators make the journal fail.",
 ["inputs"],"every date and every combination of header parts",
 "Tests parse two or three headers.",
 [PT,GR,"src/parser/utils.rs"],[("transaction rule",GR),("parse_date","src/parser/utils.rs")],["reg, payees, exit status"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
    print(len(P))
