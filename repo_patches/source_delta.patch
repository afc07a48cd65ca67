From 441123be50b5083c75d5c1ece91021af2bcacd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:32 +0000
Subject: [PATCH 01/50] fix: keep the sign of amounts whose integer part is
 zero when displaying money

---
 src/models/money.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 70a8bca..b9f1223 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -103,7 +103,8 @@ impl Display for Money {
                 // num = trunc + fract
                 let decimals: usize = currency.get_precision();
                 let base: i32 = 10;
-                let mut integer_part = amount.trunc();
+                // The sign goes first, so that it is kept when the integer part is zero
+                let mut integer_part = amount.abs().trunc();
                 let decimal_part = (amount.fract() * BigInt::from(base.pow(decimals as u32 + 2)))
                     .abs()
                     .trunc();
@@ -119,16 +120,18 @@ impl Display for Money {
                 let len = format!("{}", decimal).len();
                 if len == decimals + 1 {
                     decimal = 0;
-                    if integer_part.is_positive() {
-                        integer_part += BigInt::from(1);
-                    } else {
-                        integer_part -= BigInt::from(1);
-                    }
+                    integer_part += BigInt::from(1);
                 }
+                let sign = if amount.is_negative() & (!integer_part.is_zero() | (decimal != 0)) {
+                    "-"
+                } else {
+                    ""
+                };
                 decimal_str = format!("{:0width$}", decimal, width = decimals);
                 write!(
                     f,
-                    "{}.{} {}",
+                    "{}{}.{} {}",
+                    sign,
                     integer_part.numer(),
                     decimal_str,
                     currency.get_name()
-- 
2.43.0


From d3d9f9e0f91019638938a216473a118354a6353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:23 +0000
Subject: [PATCH 02/50] fix: end the account name of a posting at the end of
 the line or of the file

---
 src/parser/tokenizers/transaction.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1d508b2..72ef700 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -199,24 +199,19 @@ fn parse_posting(
     let mut finished = false;
     // Get the account name
     loop {
-        let c = tokenizer.next();
-        if !c.is_whitespace() {
-            account.push(c);
-        } else if (c == '\t') | (c == '\n') {
-            if c == '\n' {
-                // println!("1 {}-", account);
-                tokenizer.line_index -= 1;
-                tokenizer.position -= 1;
+        match tokenizer.get_char() {
+            None | Some('\n') => {
                 finished = true;
-            }
-            break;
-        } else {
-            let d = tokenizer.next();
-            if d.is_whitespace() | (c == '\n') {
                 break;
-            } else {
-                account.push(c);
-                account.push(d);
+            }
+            Some(c) if !c.is_whitespace() => account.push(tokenizer.next()),
+            Some(c) => {
+                tokenizer.next();
+                // A tab, two spaces or the end of the line end the account name
+                match tokenizer.get_char() {
+                    Some(d) if (c != '\t') & !d.is_whitespace() => account.push(c),
+                    _ => break,
+                }
             }
         }
     }
-- 
2.43.0


From ac0d18caa88bfc6e4ee09b3cdf87313de336622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 03/50] fix: accept accounts whose name starts with a non-ASCII
 character

---
 src/parser/tokenizers/transaction.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 72ef700..1b4982f 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -216,8 +216,8 @@ fn parse_posting(
         }
     }
     // See if it is a virtual account
-    match &account[0..1] {
-        "(" => {
+    match account.chars().next() {
+        Some('(') => {
             posting_type = PostingType::Virtual;
             if account.pop().unwrap() != ')' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -225,7 +225,7 @@ fn parse_posting(
                 )));
             }
         }
-        "[" => {
+        Some('[') => {
             posting_type = PostingType::VirtualMustBalance;
             if account.pop().unwrap() != ']' {
                 return Err(ParserError::UnexpectedInput(Some(
-- 
2.43.0


From fe5175ee297c0677fc60344e58d64aa9b91f4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:53 +0000
Subject: [PATCH 04/50] fix: reject postings with leftover text after the
 amount

---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1b4982f..fb3f724 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -317,6 +317,11 @@ fn parse_posting(
                 posting.cost_amount = Some(money.0);
                 posting.cost_currency = Some(money.1);
             }
+            _ if posting.money_amount.is_some() | posting.balance_amount.is_some() => {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Found more than one amount".to_string(),
+                )));
+            }
             _ => match parse_money(tokenizer) {
                 Ok(money) => {
                     posting.money_amount = Some(money.0);
-- 
2.43.0


From bab0e3eeffdb2478ba6ddbcd836de10c1cc80bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:08 +0000
Subject: [PATCH 05/50] fix: do not silently drop value expression amounts of
 regular transactions

---
 src/parser/tokenizers/transaction.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index fb3f724..ed18c7c 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -268,7 +268,17 @@ fn parse_posting(
         match tokenizer.get_char() {
             Some('(') => {
                 // This is a value expression
-                posting.amount_expr = Some(chars::get_value_expression(tokenizer));
+                match transaction_type {
+                    TransactionType::Automated => {
+                        posting.amount_expr = Some(chars::get_value_expression(tokenizer));
+                    }
+                    TransactionType::Real | TransactionType::Periodic => {
+                        return Err(ParserError::UnexpectedInput(Some(
+                            "Value expressions are only supported in automated transactions"
+                                .to_string(),
+                        )));
+                    }
+                }
             }
             Some('\n') => break,
             None => break,
-- 
2.43.0


From bfc1a73df8ed0b152c7db810d2d28ad570d5405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:59 +0000
Subject: [PATCH 06/50] fix: do not loop forever on comments inside tag
 directives

---
 src/parser/tokenizers/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index c0f54cb..52ef6b5 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -47,7 +47,9 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     }
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
-            ';' => {} // Skip comments
+            ';' => {
+                chars::get_line(tokenizer);
+            } // Skip comments
             _ => match chars::get_string(tokenizer).as_str() {
                 "check" => {
                     check.push(chars::get_line(tokenizer).trim().to_string());
-- 
2.43.0


From 0e5792b98c204de5153d9b983cb2341afb9a8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:16 +0000
Subject: [PATCH 07/50] fix: accept times between 20:00 and 23:59

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 22d4594..1102558 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -32,7 +32,7 @@ month = {("1" ~ ("0" | "1" | "2")) | ("0"? ~ ASCII_NONZERO_DIGIT)}
 day = {("3" ~ ("0" | "1")) |
 	(("1" | "2") ~ ASCII_DIGIT ) |
     ("0"? ~ ASCII_NONZERO_DIGIT) }
-hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" ~"1" ~"2" ~"3"))}
+hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" | "1" | "2" | "3"))}
 minute = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT }
 second = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT ~ ("." ~ bigint)? }
 
-- 
2.43.0


From 1c22d75641b709656ffa002eab9bdb7d861ca376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:31 +0000
Subject: [PATCH 08/50] fix: do not panic when reporting an error in the first
 line

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cadf9bb..382ade3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -220,7 +220,7 @@ impl<'a> Tokenizer<'a> {
         let string = self.content.iter().collect::<String>();
 
         for (i, line) in string.lines().enumerate() {
-            if i < self.line_index - 1 {
+            if i + 1 < self.line_index {
                 continue;
             };
             if i > self.line_index {
-- 
2.43.0


From 3949e357a56795dffd3edf45692690aa63fd7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:06 +0000
Subject: [PATCH 09/50] fix: do not loop on automated postings at the end of a
 file without a final newline

---
 src/parser/tokenizers/transaction.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index ed18c7c..85d54f9 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -342,8 +342,11 @@ fn parse_posting(
                     TransactionType::Automated => {
                         posting.amount_expr = Some(chars::get_line(tokenizer));
 
-                        tokenizer.line_index -= 1;
-                        tokenizer.position -= 1;
+                        // There is no end of line to give back at the end of the file
+                        if tokenizer.content[tokenizer.position - 1] == '\n' {
+                            tokenizer.line_index -= 1;
+                            tokenizer.position -= 1;
+                        }
                     }
                 },
             },
-- 
2.43.0


From 0a3be3f4934d83b69ff46de2ed852e12b9c05951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:22 +0000
Subject: [PATCH 10/50] fix: do not keep the carriage return of CRLF line
 endings

---
 src/parser/chars.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 2c44973..ed706f1 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -98,6 +98,10 @@ pub(super) fn get_line(tokenizer: &mut Tokenizer) -> String {
         }
         retval.push(*c);
     }
+    // Lines may end in \r\n
+    if retval.last() == Some(&'\r') {
+        retval.pop();
+    }
     retval.iter().collect()
 }
 
-- 
2.43.0


From 80d97f2e85e7d478613376293024b0f2d3e249ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:43 +0000
Subject: [PATCH 11/50] fix: prices derived from total costs of negative
 amounts are positive

---
 src/models/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 89cc367..5e3c071 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -427,7 +427,7 @@ impl ParsedLedger {
                                 amount: p.cost_amount.clone().unwrap()
                                     / match p.cost_type.as_ref().unwrap() {
                                         PriceType::Total => {
-                                            posting.amount.as_ref().unwrap().get_amount()
+                                            posting.amount.as_ref().unwrap().abs().get_amount()
                                         }
                                         PriceType::PerUnit => BigRational::from(BigInt::from(1)),
                                     },
-- 
2.43.0


From 24adf9d8d0ffe574cfa5c18277d776632ac9bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:59 +0000
Subject: [PATCH 12/50] fix: sign of per unit costs when balancing virtual
 postings

---
 src/models/transaction.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 8295fe3..439f8ee 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -239,12 +239,7 @@ fn total_balance(postings: &Vec<Posting>, kind: PostingType) -> Balance {
                         Money::Money { amount, .. } => amount.clone(),
                     };
                     let money = Money::Money {
-                        amount: units
-                            * (if p.amount.as_ref().unwrap().is_negative() {
-                                -BigInt::from(1)
-                            } else {
-                                BigInt::from(1)
-                            }),
+                        amount: units,
                         currency: currency.clone(),
                     };
                     Balance::from(money)
-- 
2.43.0


From 553d96013620dcba16aabdc1d7c5b4559f45a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:15 +0000
Subject: [PATCH 13/50] fix: keep the tags of postings with an elided amount

---
 src/models/transaction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 439f8ee..d17ac1d 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -290,6 +290,7 @@ impl Transaction<Posting> {
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
+        let mut fill_tags = RefCell::new(vec![]);
         let mut postings: Vec<Posting> = Vec::new();
 
         for p in self.postings.get_mut().iter() {
@@ -391,6 +392,7 @@ impl Transaction<Posting> {
                 // We do nothing, but this is the account for the empty post
                 fill_account = p.account.clone();
                 fill_payee = p.payee.clone();
+                fill_tags = p.tags.clone();
             }
         }
 
@@ -437,7 +439,7 @@ impl Transaction<Posting> {
                     cost: None,
                     kind: PostingType::Real,
                     comments: self.comments.clone(),
-                    tags: RefCell::new(self.tags.clone()),
+                    tags: fill_tags.clone(),
                     payee: fill_payee.clone(),
                     transaction: self.postings.borrow()[0].transaction.clone(),
                     origin: PostingOrigin::FromTransaction,
-- 
2.43.0


From c29a3e3c124d429a0368d857363568c7ff9ef8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 14/50] fix: reject virtual postings without an amount instead
 of failing in the reports

---
 src/models/transaction.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index d17ac1d..1b5d3eb 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -287,6 +287,17 @@ impl Transaction<Posting> {
             false => return Err(LedgerError::TransactionIsNotBalanced),
         }
 
+        // The amount of a virtual posting can't be inferred
+        let empty_virtual = self
+            .postings
+            .borrow()
+            .iter()
+            .filter(|p| (p.kind != PostingType::Real) & p.amount.is_none())
+            .count();
+        if empty_virtual > 0 {
+            return Err(LedgerError::TooManyEmptyPostings(empty_virtual));
+        }
+
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
-- 
2.43.0


From 09ff78194e03210bfebf0f676d1ee131134998cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:46 +0000
Subject: [PATCH 15/50] fix: do not keep the semicolon in comments next to the
 transaction description

---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 85d54f9..f3ee42a 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -54,7 +54,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item),
+            comment: parse_string(next_item)[1..].trim_start().to_string(),
         });
     }
 
-- 
2.43.0


From 0981ba747c29acc30c76750caa4340b037b85683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:17 +0000
Subject: [PATCH 16/50] fix: balance assignments only change the given
 commodity

---
 src/models/transaction.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 1b5d3eb..94f3a1c 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -211,6 +211,14 @@ impl<PostingType> Transaction<PostingType> {
     }
 }
 
+/// Whether the money is a zero without commodity, like the one in a ```= 0``` balance assertion
+fn is_bare_zero(money: &Money) -> bool {
+    match money.get_commodity() {
+        Some(currency) => money.is_zero() & (currency.get_name() == ""),
+        None => true,
+    }
+}
+
 fn total_balance(postings: &Vec<Posting>, kind: PostingType) -> Balance {
     let bal = Balance::new();
     postings
@@ -382,11 +390,24 @@ impl Transaction<Posting> {
 
                 // update the amount
                 let account_bal = balances.get(p.account.deref()).unwrap().clone();
-                let amount_bal = Balance::from(balance.clone()) - account_bal;
-                let money = amount_bal.to_money()?;
+                let money = match balance.get_commodity() {
+                    // Only the given commodity changes
+                    Some(currency) if !is_bare_zero(balance) => {
+                        let current = match account_bal.balance.get(&Some(currency.clone())) {
+                            Some(money) => money.get_amount(),
+                            None => BigRational::from(BigInt::from(0)),
+                        };
+                        Money::from((currency, balance.get_amount() - current))
+                    }
+                    // A zero without commodity refers to the whole balance
+                    _ => (-account_bal.clone()).to_money()?,
+                };
                 transaction_balance = transaction_balance + Balance::from(money.clone());
                 // update the account balance
-                balances.insert(p.account.clone(), Balance::from(balance.clone()));
+                balances.insert(
+                    p.account.clone(),
+                    account_bal + Balance::from(money.clone()),
+                );
                 postings.push(Posting {
                     account: p.account.clone(),
                     amount: Some(money),
-- 
2.43.0


From 9999d53469dc9d7fac2869cfb5cf1b6007497f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:33 +0000
Subject: [PATCH 17/50] fix: a balance assertion of zero without commodity
 refers to the whole balance

---
 src/models/transaction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 94f3a1c..1c0ae01 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -322,7 +322,9 @@ impl Transaction<Posting> {
                     + Balance::from(money.clone()); // What we add
                 if !skip_balance_check {
                     if let Some(balance) = &p.balance {
-                        if Balance::from(balance.clone()) != expected_balance {
+                        if (Balance::from(balance.clone()) != expected_balance)
+                            | (is_bare_zero(balance) & !expected_balance.is_zero())
+                        {
                             eprintln!("Found:       {}", balance);
                             eprintln!("Expected:    {}", expected_balance);
                             eprintln!(
-- 
2.43.0


From cd2e134df651632c2c3cd0dc7702b2bf827f7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 18/50] fix: do not list implied prices twice when there are
 automated transactions

---
 src/models/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 5e3c071..a763140 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -184,7 +184,8 @@ impl ParsedLedger {
                     return Err(e.into());
                 }
             };
-            if balance.len() == 2 {
+            // If there are automated transactions, the prices are derived once those are applied
+            if (balance.len() == 2) & automated_transactions.is_empty() {
                 let vec = balance.iter().map(|(_, x)| x.abs()).collect::<Vec<Money>>();
 
                 let commodity = vec[0].get_commodity().unwrap().clone();
-- 
2.43.0


From 3caff41bed217abc7880c7424cfc275202933c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:18 +0000
Subject: [PATCH 19/50] fix: use the conversion rate of the latest date for
 every commodity

---
 src/models/price.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index ab180b9..d5233f8 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -123,10 +123,9 @@ pub fn conversion(
                     continue;
                 }
             }
-            None => {
-                inserted.insert(currency.clone(), k.date);
-            }
+            None => (),
         }
+        inserted.insert(currency.clone(), k.date);
         for edge in v.iter().rev() {
             match edge.as_ref().price.as_ref() {
                 None => (), // do nothing, multiply by one and keep the same currency
-- 
2.43.0


From 6def8e79b54d6969a7d0fb8d282b8783bf742492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:00 +0000
Subject: [PATCH 20/50] fix: list the commodities of a balance always in the
 same order

---
 src/models/balance.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/models/balance.rs b/src/models/balance.rs
index 39a6785..1f0c1a0 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -1,7 +1,7 @@
 use crate::error::LedgerError;
 use crate::models::{Currency, Money};
-use std::collections::hash_map::Iter;
-use std::collections::HashMap;
+use std::collections::btree_map::Iter;
+use std::collections::BTreeMap;
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::ops::{Add, Neg, Sub};
@@ -9,13 +9,13 @@ use std::rc::Rc;
 
 #[derive(Debug, Clone)]
 pub struct Balance {
-    pub balance: HashMap<Option<Rc<Currency>>, Money>,
+    pub balance: BTreeMap<Option<Rc<Currency>>, Money>,
 }
 
 impl Balance {
     pub fn new() -> Balance {
         Balance {
-            balance: HashMap::new(),
+            balance: BTreeMap::new(),
         }
     }
 
@@ -81,7 +81,7 @@ impl<'a> Neg for Balance {
     type Output = Balance;
 
     fn neg(self) -> Self::Output {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         for (k, v) in self.balance {
             balance.insert(k, -v);
         }
@@ -93,7 +93,7 @@ impl Add for Balance {
     type Output = Balance;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let mut total: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut total: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         let balances = vec![self, rhs];
         for bal in balances.iter() {
             for (cur, money) in bal.balance.iter() {
@@ -136,7 +136,7 @@ impl Sub for Balance {
 // Converter
 impl From<Money> for Balance {
     fn from(money: Money) -> Self {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         match money {
             Money::Zero => balance.insert(None, Money::Zero),
             Money::Money { ref currency, .. } => {
-- 
2.43.0


From 9828c53ec1ec37f36265786b2463f698228c9a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:19 +0000
Subject: [PATCH 21/50] fix: resolve names and aliases always in the same order

---
 src/list.rs       | 12 ++++++------
 src/models/mod.rs |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 7461a88..e26ba92 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -1,6 +1,6 @@
 use regex::Regex;
-use std::collections::hash_map::{Iter, Values};
-use std::collections::HashMap;
+use std::collections::btree_map::{Iter, Values};
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::hash::Hash;
 use std::rc::Rc;
@@ -19,15 +19,15 @@ use crate::LedgerError;
 /// - Retrieving elements with a regular expression
 #[derive(Debug, Clone)]
 pub struct List<T> {
-    aliases: HashMap<String, String>,
-    list: HashMap<String, Rc<T>>,
+    aliases: BTreeMap<String, String>,
+    list: BTreeMap<String, Rc<T>>,
     matches: HashMap<String, Option<String>>,
 }
 
 impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> List<T> {
     pub fn new() -> Self {
-        let aliases: HashMap<String, String> = HashMap::new();
-        let list: HashMap<String, Rc<T>> = HashMap::new();
+        let aliases: BTreeMap<String, String> = BTreeMap::new();
+        let list: BTreeMap<String, Rc<T>> = BTreeMap::new();
         let matches: HashMap<String, Option<String>> = HashMap::new();
         List {
             aliases,
diff --git a/src/models/mod.rs b/src/models/mod.rs
index a763140..12eb1ff 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -1,5 +1,5 @@
 use num::rational::BigRational;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub use account::Account;
 pub use balance::Balance;
@@ -55,9 +55,9 @@ impl Ledger {
 impl ParsedLedger {
     /// Creates a proper ledger from a parsed ledger
     pub fn to_ledger(mut self, no_checks: bool) -> Result<Ledger, Error> {
-        let mut commodity_strs = HashSet::<String>::new();
-        let mut account_strs = HashSet::<String>::new();
-        let mut payee_strs = HashSet::<String>::new();
+        let mut commodity_strs = BTreeSet::<String>::new();
+        let mut account_strs = BTreeSet::<String>::new();
+        let mut payee_strs = BTreeSet::<String>::new();
 
         // 1. Populate the directive lists
 
-- 
2.43.0


From 8942c64d5ecebe4e401393a17c88ab10b51bc5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:38 +0000
Subject: [PATCH 22/50] fix: choose always the same path among equally good
 conversions

---
 src/models/price.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index d5233f8..61c1291 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -3,7 +3,7 @@ use chrono::{Duration, NaiveDate};
 use num::rational::BigRational;
 use num::BigInt;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::rc::Rc;
@@ -177,12 +177,12 @@ struct Graph {
 
 impl Graph {
     fn from_prices(prices: &Vec<Price>, source: Node) -> Self {
-        let mut nodes = HashMap::new();
+        let mut nodes = BTreeMap::new();
         let mut edges = Vec::new();
         let mut currency_dates = HashSet::new();
         currency_dates.insert((source.currency.clone(), source.date));
         // Remove redundant prices and create the nodes
-        let mut prices_nodup = HashMap::new();
+        let mut prices_nodup = BTreeMap::new();
         for p in prices.iter() {
             if p.date > source.date {
                 continue;
-- 
2.43.0


From 6436f4c907404d9e948b06cdc2daa2146aa88484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:11 +0000
Subject: [PATCH 23/50] fix: detect include cycles when the same file is
 reached through different paths

---
 src/parser/include.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index dd4e708..6a312ca 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -23,14 +23,17 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         match entry {
             Ok(path) => {
                 files.push(path.clone());
-                match tokenizer.seen_files.get(&path) {
-                    Some(_) => {
-                        return Err(tokenizer.error(ParserError::IncludeLoop(format!(
-                            "Cycle detected. {:?}",
-                            &path
-                        ))))
-                    }
-                    None => (),
+                // The same file can be reached through different paths
+                let canonical = path.canonicalize().ok();
+                if tokenizer
+                    .seen_files
+                    .iter()
+                    .any(|seen| (**seen == path) | (seen.canonicalize().ok() == canonical))
+                {
+                    return Err(tokenizer.error(ParserError::IncludeLoop(format!(
+                        "Cycle detected. {:?}",
+                        &path
+                    ))));
                 }
             }
             Err(e) => eprintln!("{:?}", e),
-- 
2.43.0


From 2ceba8a57ba289918b5fb90c277831e747784512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:26 +0000
Subject: [PATCH 24/50] fix: short command line options override the ones in
 the init file

---
 src/app.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app.rs b/src/app.rs
index 0c2d7eb..555db65 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -142,6 +142,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     if let Some(file) = config_file {
         let mut aliases = HashMap::new();
         aliases.insert("-f".to_string(), "--file".to_string());
+        aliases.insert("-d".to_string(), "--depth".to_string());
+        aliases.insert("-b".to_string(), "--begin".to_string());
+        aliases.insert("-e".to_string(), "--end".to_string());
+        aliases.insert("-p".to_string(), "--period".to_string());
         let contents = read_to_string(file).unwrap();
         for line in contents.lines() {
             let option = line.trim_start();
-- 
2.43.0


From 17808966d238e62a5b24ceb8e15e05c5f4032ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:02 +0000
Subject: [PATCH 25/50] fix: command line options with an attached value
 override the ones in the init file

---
 src/app.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app.rs b/src/app.rs
index 555db65..f7fc465 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -158,8 +158,12 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                         );
                         let mut iter = line.split_whitespace();
                         let option = iter.next().unwrap();
+                        // Options may come with their value attached, like --depth=2 or -d2
                         if !args.iter().any(|x| {
-                            (x == option) | (aliases.get(x).unwrap_or(&String::new()) == option)
+                            (x.split('=').next() == Some(option))
+                                | aliases
+                                    .iter()
+                                    .any(|(k, v)| x.starts_with(k.as_str()) & (v == option))
                         }) {
                             args.push(option.to_string());
                             let mut rest = String::new();
-- 
2.43.0


From 589bc16a48b3309578389137ed135931aa4f573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:22 +0000
Subject: [PATCH 26/50] fix: evaluate every operand of a chain of operators

---
 src/grammar/grammar.pest |  2 +-
 src/parser/value_expr.rs | 47 ++++++++++++++++++++--------------------
 2 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 1102558..1c14ff1 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -48,7 +48,7 @@ or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
 and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
 comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
 additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
-multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
+multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
     (unary ~ ws* ~ expr) |
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index d95ab10..70dec0d 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -412,31 +412,30 @@ fn build_ast_from_expr(
         | Rule::multiplicative_expr => {
             let mut pair = pair.into_inner();
             let lhspair = pair.next().unwrap();
-            let lhs = build_ast_from_expr(lhspair, regexes);
-            match pair.next() {
-                None => lhs,
-                Some(x) => {
-                    let op = match rule {
-                        Rule::or_expr => Binary::Or,
-                        Rule::and_expr => Binary::And,
-                        _ => match x.as_str() {
-                            "+" => Binary::Add,
-                            "-" => Binary::Subtract,
-                            "*" => Binary::Mult,
-                            "/" => Binary::Div,
-                            "=~" | "==" => Binary::Eq,
-                            "<" => Binary::Lt,
-                            ">" => Binary::Gt,
-                            "<=" => Binary::Le,
-                            ">=" => Binary::Ge,
-                            x => unreachable!("{}", x),
-                        },
-                    };
-                    let rhspair = pair.next().unwrap();
-                    let rhs = build_ast_from_expr(rhspair, regexes);
-                    parse_binary_expr(op, lhs, rhs)
-                }
+            let mut lhs = build_ast_from_expr(lhspair, regexes);
+            // Operators of the same level associate to the left
+            while let Some(x) = pair.next() {
+                let op = match rule {
+                    Rule::or_expr => Binary::Or,
+                    Rule::and_expr => Binary::And,
+                    _ => match x.as_str() {
+                        "+" => Binary::Add,
+                        "-" => Binary::Subtract,
+                        "*" => Binary::Mult,
+                        "/" => Binary::Div,
+                        "=~" | "==" => Binary::Eq,
+                        "<" => Binary::Lt,
+                        ">" => Binary::Gt,
+                        "<=" => Binary::Le,
+                        ">=" => Binary::Ge,
+                        x => unreachable!("{}", x),
+                    },
+                };
+                let rhspair = pair.next().unwrap();
+                let rhs = build_ast_from_expr(rhspair, regexes);
+                lhs = parse_binary_expr(op, lhs, rhs);
             }
+            lhs
         }
         Rule::primary => {
             let mut inner = pair.into_inner();
-- 
2.43.0


From c2877d729185021a0a4897c506235d1ebb9d8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:02 +0000
Subject: [PATCH 27/50] fix: precedence of unary operators in value expressions

---
 src/grammar/grammar.pest |  9 ++++++---
 src/parser/value_expr.rs | 12 +++++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 1c14ff1..7ec6616 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -45,13 +45,14 @@ value_expr = {"(" ~ ws* ~ expr ~ ws* ~ ")"}
 // Then the expression builds up in terms of increasing preference
 expr = { or_expr }
 or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
-and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
+and_expr = { not_expr ~ ws* ~ ( and ~ ws* ~ not_expr ) * }
+not_expr = { (not ~ ws* ~ not_expr) | comparison_expr }
 comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
 additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
 multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
-    (unary ~ ws* ~ expr) |
+    (unary ~ ws* ~ primary) |
     term |
     (function ~ ws* ~ "(" ~ ws* ~ expr ~ ws* ~ ("," ~ ws* ~ expr ~ ws*)* ~ ")")
     }
@@ -103,7 +104,9 @@ add = { "+" | "-" }
 mult = { "*" | "/" }
 and = {"&" | "and"}
 or = {"|" | "or" }
-unary = { "-" | "!" | "not" }
+not = { ("!" ~ !"=") | ("not" ~ !word) }
+unary = { "-" }
+word = _{ ASCII_ALPHANUMERIC | "_" }
 function = { "abs" | "has_tag" | "to_date" | "any" | "tag" }
 comparison = { eq | ne | ge | gt | le | lt }
 eq = { "=~" | "=="}
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 70dec0d..c166318 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -437,6 +437,17 @@ fn build_ast_from_expr(
             }
             lhs
         }
+        Rule::not_expr => {
+            let mut inner = pair.into_inner();
+            let first = inner.next().unwrap();
+            match first.as_rule() {
+                Rule::not => parse_unary_expr(
+                    Unary::Not,
+                    build_ast_from_expr(inner.next().unwrap(), regexes),
+                ),
+                _ => build_ast_from_expr(first, regexes),
+            }
+        }
         Rule::primary => {
             let mut inner = pair.into_inner();
             let first = inner.next().unwrap();
@@ -448,7 +459,6 @@ fn build_ast_from_expr(
                         "has_tag" => Unary::HasTag,
                         "tag" => Unary::Tag,
                         "to_date" => Unary::ToDate,
-                        "not" => Unary::Not,
                         "any" => Unary::Any,
                         unknown => panic!("Unknown expr: {:?}", unknown),
                     };
-- 
2.43.0


From 72c46eb7665a715781650772e72ec8e0b5a1dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:18 +0000
Subject: [PATCH 28/50] fix: support the != operator in value expressions

---
 src/parser/value_expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index c166318..dd1673a 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -415,6 +415,7 @@ fn build_ast_from_expr(
             let mut lhs = build_ast_from_expr(lhspair, regexes);
             // Operators of the same level associate to the left
             while let Some(x) = pair.next() {
+                let negated = x.as_str() == "!=";
                 let op = match rule {
                     Rule::or_expr => Binary::Or,
                     Rule::and_expr => Binary::And,
@@ -423,7 +424,7 @@ fn build_ast_from_expr(
                         "-" => Binary::Subtract,
                         "*" => Binary::Mult,
                         "/" => Binary::Div,
-                        "=~" | "==" => Binary::Eq,
+                        "=~" | "==" | "!=" => Binary::Eq,
                         "<" => Binary::Lt,
                         ">" => Binary::Gt,
                         "<=" => Binary::Le,
@@ -434,6 +435,9 @@ fn build_ast_from_expr(
                 let rhspair = pair.next().unwrap();
                 let rhs = build_ast_from_expr(rhspair, regexes);
                 lhs = parse_binary_expr(op, lhs, rhs);
+                if negated {
+                    lhs = parse_unary_expr(Unary::Not, lhs);
+                }
             }
             lhs
         }
-- 
2.43.0


From 2cd83d8977ea822d022b452631c434c8f2d9986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 29/50] fix: do not mistake keywords for commodities nor
 commodities for variables

---
 src/grammar/grammar.pest | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 7ec6616..19c7666 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -67,9 +67,11 @@ string = {
 	("'" ~ (("\\'") | (!"'" ~ ANY))* ~ "'")
     }
 reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";"}
-unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~
+keyword = _{ ("and" | "or" | "not") ~ !word }
+unquoted = { !keyword ~ !reserved ~ !"=" ~ !"-" ~ !"&" ~
     (!reserved ~ !SEPARATOR ~ ANY)+ }
-variable = {
+variable = { variable_name ~ !word }
+variable_name = _{
     "account" |
     "payee" |
     "date" |
-- 
2.43.0


From 2f99f7cdb57d194a238e951f99daf5b9ebcc5104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:55 +0000
Subject: [PATCH 30/50] fix: strip the quotes of commodities in value
 expressions

---
 src/parser/value_expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index dd1673a..84da7fe 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -1,4 +1,4 @@
-use super::utils::parse_rational;
+use super::utils::{parse_rational, parse_string};
 use super::{GrammarParser, Rule};
 use crate::app;
 use crate::models::{Account, Currency, Money, Payee, Posting, Transaction};
@@ -473,11 +473,11 @@ fn build_ast_from_expr(
                     let child = money.next().unwrap();
                     match child.as_rule() {
                         Rule::number => Node::Money {
-                            currency: money.next().unwrap().as_str().to_string(),
+                            currency: parse_string(money.next().unwrap()),
                             amount: parse_rational(child),
                         },
                         Rule::currency => Node::Money {
-                            currency: child.as_str().to_string(),
+                            currency: parse_string(child),
                             amount: parse_rational(money.next().unwrap()),
                         },
                         unknown => panic!("Unknown rule: {:?}", unknown),
-- 
2.43.0


From 2ce572b966a69f56f90d778bdffd030ad65c9419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:00 +0000
Subject: [PATCH 31/50] fix: do not mistake the != operator for a commodity

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 19c7666..4e4552e 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -68,7 +68,7 @@ string = {
     }
 reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";"}
 keyword = _{ ("and" | "or" | "not") ~ !word }
-unquoted = { !keyword ~ !reserved ~ !"=" ~ !"-" ~ !"&" ~
+unquoted = { !keyword ~ !reserved ~ !"=" ~ !"!=" ~ !"-" ~ !"&" ~
     (!reserved ~ !SEPARATOR ~ ANY)+ }
 variable = { variable_name ~ !word }
 variable_name = _{
-- 
2.43.0


From dc5390c4980f14c80bc1ca7549e23137a3c10fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:15 +0000
Subject: [PATCH 32/50] fix: show every account of the balance report under its
 actual parent

---
 src/commands/balance.rs | 71 ++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index dc15ab0..59102e5 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -153,22 +153,17 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         }
     }
 
-    vec_balances.sort_by(|a, b| a.0.cmp(b.0));
+    // Keep what is shown, with every account right before its subaccounts
+    vec_balances.retain(|(account, bal)| {
+        !bal.is_zero() & depth.map_or(true, |depth| account.split(":").count() <= depth)
+    });
+    vec_balances.sort_by(|a, b| a.0.split(":").cmp(b.0.split(":")));
+    let mut parents: Vec<&str> = Vec::new();
     let num_bal = vec_balances.len();
     let mut index = 0;
     let mut showed_balances = 0;
     while index < num_bal {
         let (account, bal) = &vec_balances[index];
-        if let Some(depth) = depth {
-            if account.split(":").count() > depth {
-                index += 1;
-                continue;
-            }
-        }
-        if bal.is_zero() {
-            index += 1;
-            continue;
-        }
         showed_balances += 1;
 
         let mut first = true;
@@ -189,41 +184,33 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         if flat {
             println!("  {}", account.blue());
         } else {
-            let mut n = account.split(":").count();
+            // The account hangs from the closest account that has been shown
+            while parents.last().map_or(false, |x| !is_subaccount(account, x)) {
+                parents.pop();
+            }
+            let parent = parents.last().cloned();
+            let n = parent.map_or(0, |x| x.split(":").count()) + 1;
             for _ in 0..n {
                 print!("  ");
             }
-            // start by getting the account name
-            let mut text = account.split(":").last().unwrap().to_string();
-            // This is where it gets tricky, we need to collapse while we can
-            let mut collapse = true;
-            loop {
-                if (index + 1) >= num_bal {
-                    break;
-                }
-                if vec_balances[index + 1].0.split(":").count() != (n + 1) {
-                    break;
-                }
-                for j in (index + 2)..num_bal {
-                    let name = vec_balances[j].0.clone();
-                    if !name.starts_with(account) {
-                        break;
-                    }
-                    let this_depth = name.split(":").count();
-                    if this_depth == n + 1 {
-                        collapse = false;
-                        break;
-                    }
-                }
-                if collapse {
-                    text.push(':');
-                    text.push_str(&vec_balances[index + 1].0.split(":").last().unwrap());
-                    n = n + 1;
-                    index = index + 1;
-                } else {
+            // This is where it gets tricky, we need to collapse while we can: when all the
+            // balance comes from one subaccount
+            let mut name = *account;
+            while index + 1 < num_bal {
+                let (next, next_bal) = &vec_balances[index + 1];
+                let only_child = vec_balances[index + 1..]
+                    .iter()
+                    .take_while(|x| is_subaccount(x.0, name))
+                    .all(|x| (x.0 == *next) | is_subaccount(x.0, next));
+                if !is_subaccount(next, name) | !only_child | (bal != next_bal) | (next_bal != bal)
+                {
                     break;
                 }
+                name = *next;
+                index += 1;
             }
+            let text = &name[parent.map_or(0, |x| x.len() + 1)..];
+            parents.push(name);
             println!("{}", text.blue());
         }
         index += 1;
@@ -263,6 +250,10 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
     Ok(())
 }
 
+fn is_subaccount(account: &str, parent: &str) -> bool {
+    account.starts_with(parent) && account[parent.len()..].starts_with(':')
+}
+
 fn convert_balance(
     balance: &Balance,
     multipliers: &HashMap<Rc<Currency>, BigRational>,
-- 
2.43.0


From 39a1c95d0382db71e8fdc7f1b21d515159582ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:31 +0000
Subject: [PATCH 33/50] fix: accept a cost or a balance after an amount without
 commodity

---
 src/parser/tokenizers/transaction.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index f3ee42a..c162dbb 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -370,7 +370,12 @@ fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), Parse
                     return Err(e);
                 }
             };
-            currency = chars::get_string(tokenizer);
+            chars::consume_whitespaces(tokenizer);
+            currency = match tokenizer.get_char() {
+                // No commodity, a cost or a balance follows
+                Some('@') | Some('=') => String::new(),
+                _ => chars::get_string(tokenizer),
+            };
             if currency.starts_with("\"") {
                 let n = currency.len();
                 currency = currency[1..n - 1].to_string();
-- 
2.43.0


From 11a69e6bea920a287bfc9f5a869b786b96607abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:49 +0000
Subject: [PATCH 34/50] fix: trailing blanks are not part of the name in a
 payee directive

---
 src/parser/tokenizers/payee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index a0c0ff0..d0f1729 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -38,7 +38,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
                     2 =>
                     // description
                     {
-                        name = m.as_str().to_string()
+                        name = m.as_str().trim_end().to_string()
                     }
                     3 =>
                     // note
-- 
2.43.0


From ba1100e844ca1bc53f5dfc64c1103d36ccc85852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:00 +0000
Subject: [PATCH 35/50] fix: trailing blanks are not part of the path in an
 include directive

---
 src/parser/include.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index 6a312ca..e8b0eb5 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -18,7 +18,7 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         parent.push('/');
         pattern.push_str(parent.as_str());
     }
-    pattern.push_str(chars::get_line(tokenizer).as_str());
+    pattern.push_str(chars::get_line(tokenizer).trim());
     for entry in glob(&pattern).expect("Failed to read glob pattern") {
         match entry {
             Ok(path) => {
-- 
2.43.0


From a51838af75268da0296373035dbed8de876ea296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:12 +0000
Subject: [PATCH 36/50] fix: trailing blanks are not part of the value of a tag

---
 src/models/comment.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/comment.rs b/src/models/comment.rs
index 9394244..0999c2c 100644
--- a/src/models/comment.rs
+++ b/src/models/comment.rs
@@ -64,6 +64,7 @@ impl Comment {
                                 .unwrap()
                                 .unwrap()
                                 .as_str()
+                                .trim_end()
                                 .to_string(),
                         ),
                     }]
-- 
2.43.0


From 729e62e278f62850dae8ae3e1268dce8814f7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:38 +0000
Subject: [PATCH 37/50] fix: a transaction header may end right after the date

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 4e4552e..340366d 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -10,7 +10,7 @@ commodity = { "commodity" ~ ws+ ~ currency ~ ws* ~ comment? ~ end}
 transaction = {
     date ~ (ws ~ time)? ~          // date
     ("=" ~ date ~ (ws ~ time)?)? ~  // effective_date
-    ws+ ~ status? ~                // status
+    (ws+ | &end) ~ status? ~        // status
     ws* ~ code?                    // code
     ~ ws* ~ description            // description
     ~ ws* ~ ("|" ~ ws*~payee)?     // payee
-- 
2.43.0


From 1f6481d96447472d136a453240479b7f359e20bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:40 +0000
Subject: [PATCH 38/50] fix: a quoted commodity without its closing quote is an
 error

---
 src/parser/chars.rs                  |  6 ++++++
 src/parser/tokenizers/transaction.rs | 12 +++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index ed706f1..1768d86 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -110,6 +110,7 @@ pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
     consume_whitespaces(tokenizer);
     let mut retval: Vec<char> = Vec::new();
     let mut quote = false;
+    let mut closed = false;
     while let Some(c) = tokenizer.content.get(tokenizer.position) {
         if *c == '\n' {
             break;
@@ -117,6 +118,7 @@ pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
             if retval.len() == 0 {
                 quote = true
             } else if quote {
+                closed = true;
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
                 break;
@@ -132,5 +134,9 @@ pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
         tokenizer.line_position += 1;
     }
     consume_whitespaces(tokenizer);
+    if quote & !closed {
+        // Let the caller know that the closing quote is missing
+        retval.insert(0, '"');
+    }
     retval.iter().collect()
 }
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index c162dbb..33c0646 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -358,7 +358,7 @@ fn parse_posting(
 
 /// Parses money
 fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), ParserError> {
-    let mut currency: String;
+    let currency: String;
     let amount: BigRational;
 
     match tokenizer.get_char() {
@@ -377,15 +377,17 @@ fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), Parse
                 _ => chars::get_string(tokenizer),
             };
             if currency.starts_with("\"") {
-                let n = currency.len();
-                currency = currency[1..n - 1].to_string();
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Missing closing quote".to_string(),
+                )));
             }
         }
         Some(_) => {
             currency = chars::get_string(tokenizer);
             if currency.starts_with("\"") {
-                let n = currency.len();
-                currency = currency[1..n - 1].to_string();
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Missing closing quote".to_string(),
+                )));
             }
             amount = match parse_amount(tokenizer) {
                 Ok(amount) => amount,
-- 
2.43.0


From 38b855727db309a8cca0d7f6134be68fce27a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:47 +0000
Subject: [PATCH 39/50] fix: a second cost or balance in a posting is an error,
 it does not replace the first

---
 src/parser/tokenizers/transaction.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 33c0646..8e5f0ab 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -286,7 +286,7 @@ fn parse_posting(
                 posting.comments.push(comment::parse(tokenizer));
                 return Ok(posting);
             }
-            Some('=') => {
+            Some('=') if posting.balance_amount.is_none() => {
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
                 chars::consume_whitespaces(tokenizer);
@@ -300,7 +300,7 @@ fn parse_posting(
                 posting.balance_amount = Some(money.0);
                 posting.balance_currency = Some(money.1);
             }
-            Some('@') => {
+            Some('@') if posting.cost_amount.is_none() & posting.balance_amount.is_none() => {
                 if posting.money_amount.is_none() {
                     return Err(ParserError::UnexpectedInput(Some(
                         "Amount not found".to_string(),
-- 
2.43.0


From 0917e002fca2d3df92169c451514c7b78cb1dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:48 +0000
Subject: [PATCH 40/50] fix: automated postings that multiply a zero amount
 without commodity do not abort

---
 src/models/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 12eb1ff..f8ab828 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -259,11 +259,10 @@ impl ParsedLedger {
                                     )),
                                     Some(alias) => {
                                         if alias == "" {
-                                            Some(Money::from((
-                                                p.amount.clone().unwrap().get_commodity().unwrap(),
-                                                p.amount.clone().unwrap().get_amount()
+                                            Some(
+                                                p.amount.clone().unwrap()
                                                     * auto_posting.money_amount.clone().unwrap(),
-                                            )))
+                                            )
                                         } else {
                                             match self.commodities.get(&alias) {
                                                 Ok(_) => {} // do nothing
-- 
2.43.0


From f4f12a01cf7ec7a385c9e1bae07dd77f10509172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:00 +0000
Subject: [PATCH 41/50] fix: a quote inside an unquoted commodity is an error,
 it is not skipped

---
 src/parser/chars.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 1768d86..4bd476a 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -115,13 +115,16 @@ pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
         if *c == '\n' {
             break;
         } else if *c == '"' {
-            if retval.len() == 0 {
-                quote = true
-            } else if quote {
+            if quote {
                 closed = true;
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
                 break;
+            } else if retval.len() == 0 {
+                quote = true
+            } else {
+                // A quote inside a word is not part of it
+                break;
             }
         } else if (c.is_whitespace() | c.is_numeric() | (*c == '.') | (*c == '-') | (*c == ';'))
             & !quote
-- 
2.43.0


From 339a6437dd42ed1d19b232284aedad65a63477df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:40 +0000
Subject: [PATCH 42/50] fix: the init file can be given as --init-file=FILE

---
 src/app.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/app.rs b/src/app.rs
index f7fc465..aa7cf4e 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -127,6 +127,9 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
         if args[i] == "--init-file" {
             possible_paths.push(args[i + 1].clone());
             break;
+        } else if args[i].starts_with("--init-file=") {
+            possible_paths.push(args[i]["--init-file=".len()..].to_string());
+            break;
         }
     }
     possible_paths.push(shellexpand::tilde("~/.ledgerrc").to_string());
-- 
2.43.0


From 12428060abdf0a7c539e304d4238d4ed729be8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:58 +0000
Subject: [PATCH 43/50] fix: a sign after the decimal separator is an error, it
 does not change the amount

---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 8e5f0ab..a7fa8fc 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -421,6 +421,11 @@ fn parse_amount(tokenizer: &mut Tokenizer) -> Result<BigRational, ParserError> {
                     decimal = true
                 }
             }
+            Some('-') if decimal => {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Unexpected sign after the decimal separator".to_string(),
+                )));
+            }
             Some(c) if (c == '-') | c.is_numeric() => {
                 num.push(c);
                 if decimal {
-- 
2.43.0


From f41f0afcc141dc24bc029ab2886404f6080e0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:31 +0000
Subject: [PATCH 44/50] fix: the command line overrides --option=value lines of
 the init file

---
 src/app.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index aa7cf4e..c7ddf33 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -162,11 +162,12 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                         let mut iter = line.split_whitespace();
                         let option = iter.next().unwrap();
                         // Options may come with their value attached, like --depth=2 or -d2
+                        let name = option.split('=').next().unwrap();
                         if !args.iter().any(|x| {
-                            (x.split('=').next() == Some(option))
+                            (x.split('=').next() == Some(name))
                                 | aliases
                                     .iter()
-                                    .any(|(k, v)| x.starts_with(k.as_str()) & (v == option))
+                                    .any(|(k, v)| x.starts_with(k.as_str()) & (v == name))
                         }) {
                             args.push(option.to_string());
                             let mut rest = String::new();
-- 
2.43.0


From 100b6a0001e190a665e472dd2c52cb5ae4487183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:52 +0000
Subject: [PATCH 45/50] fix: included declarations resolve as if written in
 place

---
 src/list.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index e26ba92..62f3fa8 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -21,6 +21,8 @@ use crate::LedgerError;
 pub struct List<T> {
     aliases: BTreeMap<String, String>,
     list: BTreeMap<String, Rc<T>>,
+    /// Keys of ```list```, in the order in which they were inserted
+    order: Vec<String>,
     matches: HashMap<String, Option<String>>,
 }
 
@@ -32,6 +34,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
         List {
             aliases,
             list,
+            order: Vec::new(),
             matches,
         }
     }
@@ -48,9 +51,16 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
                     self.aliases.insert(alias.to_lowercase(), name.clone());
                 }
                 self.list.insert(name.clone(), Rc::new(element));
+                self.order.push(name);
             }
         }
     }
+    /// Inserts the elements of another list, in the order in which they were inserted there
+    pub fn append(&mut self, other: &List<T>) {
+        for name in other.order.iter() {
+            self.insert(other.list[name].as_ref().clone());
+        }
+    }
     /// Add an alias
     pub fn add_alias(&mut self, alias: String, for_element: &'a T) {
         let element = self.aliases.get(&alias.to_lowercase());
@@ -129,13 +139,6 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
     }
 }
 
-impl<T: Clone> List<T> {
-    pub fn append(&mut self, other: &List<T>) {
-        self.list.extend(other.to_owned().list.into_iter());
-        self.aliases.extend(other.to_owned().aliases.into_iter());
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 140395a04df174c9869e120a70f4736b2f08f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:49 +0000
Subject: [PATCH 46/50] fix: text after a value expression is an error, it is
 not ignored

---
 src/parser/value_expr.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 84da7fe..ee23756 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -39,13 +39,14 @@ pub fn eval_expression(
     commodities: &mut List<Currency>,
     regexes: &mut HashMap<String, Regex>,
 ) -> EvalResult {
-    let parsed = GrammarParser::parse(Rule::value_expr, expression)
+    let value_expr = GrammarParser::parse(Rule::value_expr, expression)
         .expect("unsuccessful parse") // unwrap the parse result
         .next()
-        .unwrap()
-        .into_inner()
-        .next()
         .unwrap();
+    // The expression is all there is
+    let rest = expression[value_expr.as_str().len()..].trim();
+    assert!(rest.is_empty(), "unsuccessful parse, found {}", rest);
+    let parsed = value_expr.into_inner().next().unwrap();
 
     // Build the abstract syntax tree
     let root = build_ast_from_expr(parsed, regexes);
-- 
2.43.0


From cd6122ad795de2df9272d438f496797adcfaf7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:28 +0000
Subject: [PATCH 47/50] fix: a missing parenthesis in a value expression does
 not hide the rest of the journal

---
 src/parser/chars.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 4bd476a..1749eae 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -64,21 +64,10 @@ pub(super) fn consume_str<'a>(
 
 pub(super) fn get_value_expression(tokenizer: &mut Tokenizer) -> String {
     let mut retval: Vec<char> = Vec::new();
-    let mut open = 0;
-    let mut close = 0;
 
+    // A missing or an extra parenthesis must not swallow the rest of the file
     while let Some(c) = tokenizer.content.get(tokenizer.position) {
-        if *c == '(' {
-            open += 1;
-        } else if *c == ')' {
-            close += 1;
-        } else if *c == '\n' {
-            if open == close {
-                break;
-            }
-            tokenizer.line_index += 1;
-            tokenizer.line_position = 0;
-        } else if *c == ';' {
+        if (*c == '\n') | (*c == ';') {
             break;
         }
         retval.push(*c);
-- 
2.43.0


From 4ea8cef6507c68a781a0306356e82760dcb9eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:05 +0000
Subject: [PATCH 48/50] fix: refuse expressions that would overflow the stack

---
 src/main.rs              | 15 ++++++++++++---
 src/parser/value_expr.rs | 19 +++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e21111a..cc0fa6b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,8 +1,17 @@
 use std::env;
+use std::process::exit;
+use std::thread;
 
 fn main() {
-    match dinero::run_app(env::args().collect()) {
-        Ok(_) => {}
-        Err(_) => std::process::exit(1),
+    // Expressions and included files are processed recursively, which takes a lot of stack
+    let app = thread::Builder::new()
+        .name("main".to_string())
+        .stack_size(256 * 1024 * 1024)
+        .spawn(|| dinero::run_app(env::args().collect()))
+        .expect("Can't start");
+    match app.join() {
+        Ok(Ok(_)) => {}
+        Ok(Err(_)) => exit(1),
+        Err(_) => exit(101),
     }
 }
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index ee23756..8b78b44 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -13,6 +13,23 @@ use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::rc::Rc;
 
+/// Expressions are parsed and evaluated recursively, refuse those that would overflow the stack
+fn check_complexity(expression: &str) {
+    let mut depth: usize = 0;
+    let mut operators = 0;
+    for c in expression.chars() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            '+' | '-' | '*' | '/' | '!' | '&' | '|' | '<' | '>' | '=' => operators += 1,
+            c if c.is_whitespace() => operators += 1, // there may be a word like "and"
+            _ => (),
+        }
+        assert!(depth <= 1_000, "expression nested too deep");
+        assert!(operators <= 10_000, "expression too long");
+    }
+}
+
 /// Builds the abstract syntax tree, to be able to evaluate expressions
 ///
 /// This all comes from the defined grammar.pest
@@ -20,6 +37,7 @@ pub fn build_root_node_from_expression(
     expression: &str,
     regexes: &mut HashMap<String, Regex>,
 ) -> Node {
+    check_complexity(expression);
     let parsed = GrammarParser::parse(Rule::value_expr, expression)
         .expect("unsuccessful parse") // unwrap the parse result
         .next()
@@ -39,6 +57,7 @@ pub fn eval_expression(
     commodities: &mut List<Currency>,
     regexes: &mut HashMap<String, Regex>,
 ) -> EvalResult {
+    check_complexity(expression);
     let value_expr = GrammarParser::parse(Rule::value_expr, expression)
         .expect("unsuccessful parse") // unwrap the parse result
         .next()
-- 
2.43.0


From 1b2b4a414bebf4ba8b36625ea508c5f57673ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:49 +0000
Subject: [PATCH 49/50] fix: refuse files nested too deep instead of
 overflowing the stack

---
 src/parser/include.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index e8b0eb5..573fc6d 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -39,6 +39,13 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
             Err(e) => eprintln!("{:?}", e),
         }
     }
+    // Files are included recursively, don't overflow the stack
+    if !files.is_empty() & (tokenizer.seen_files.len() > 1_000) {
+        return Err(tokenizer.error(ParserError::IncludeLoop(format!(
+            "Too many nested files. {:?}",
+            &files[0]
+        ))));
+    }
     let mut items: ParsedLedger = ParsedLedger::new();
     for file in files {
         let mut inner_tokenizer: Tokenizer = Tokenizer::from(&file);
-- 
2.43.0


From 0491781ec6361c06ad69d7b9cc051ee54b8abfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 50/50] fix: nested any() is evaluated once per transaction
 instead of in exponential time

---
 src/parser/value_expr.rs | 41 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 8b78b44..b0bd940 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -112,6 +112,7 @@ pub enum Node {
     },
     Regex(Regex),
     String(String),
+    Boolean(bool),
 }
 
 #[derive(Debug)]
@@ -201,6 +202,7 @@ pub fn eval(
         Node::Regex(r) => EvalResult::Regex(r.clone()),
         Node::String(r) => EvalResult::String(Some(r.clone())),
         Node::Number(n) => EvalResult::Number(n.clone()),
+        Node::Boolean(b) => EvalResult::Boolean(*b),
         Node::Money { currency, amount } => {
             let cur = match commodities.get(&currency) {
                 Ok(c) => c.clone(),
@@ -213,6 +215,14 @@ pub fn eval(
             EvalResult::Money(Money::from((cur.clone(), amount.clone())))
         }
         Node::UnaryExpr { op, child } => {
+            let resolved;
+            let child = match op {
+                Unary::Any => {
+                    resolved = resolve_any(child, posting, transaction, commodities, regexes);
+                    &resolved
+                }
+                _ => child.as_ref(),
+            };
             let res = eval(child, posting, transaction, commodities, regexes);
             match op {
                 Unary::Not => match res {
@@ -389,6 +399,37 @@ pub fn eval(
     res
 }
 
+/// Replaces every ```any``` by its value, which is the same for all the postings of the transaction
+///
+/// Otherwise the time to evaluate nested ones would grow exponentially
+fn resolve_any(
+    node: &Node,
+    posting: &Posting,
+    transaction: &Transaction<Posting>,
+    commodities: &mut List<Currency>,
+    regexes: &mut HashMap<String, Regex>,
+) -> Node {
+    let mut resolve = |x| Box::new(resolve_any(x, posting, transaction, commodities, regexes));
+    match node {
+        Node::UnaryExpr { op: Unary::Any, .. } => {
+            match eval(node, posting, transaction, commodities, regexes) {
+                EvalResult::Boolean(b) => Node::Boolean(b),
+                _ => unreachable!(),
+            }
+        }
+        Node::UnaryExpr { op, child } => Node::UnaryExpr {
+            op: op.clone(),
+            child: resolve(child),
+        },
+        Node::BinaryExpr { op, lhs, rhs } => Node::BinaryExpr {
+            op: op.clone(),
+            lhs: resolve(lhs),
+            rhs: resolve(rhs),
+        },
+        _ => node.clone(),
+    }
+}
+
 #[derive(Clone, Debug)]
 pub enum Unary {
     Not,
-- 
2.43.0

