-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are TLA+ strings.  TLC evaluates Len, SubSeq and \o on strings;   *)
(* everything else that sandfs does with text (line splitting, matching,   *)
(* expansion, quoting, byte counting) is specified here character by       *)
(* character.  Facts about single characters (code point, lower case,      *)
(* UTF-8 length, line-break, word and white-space classes) come from the   *)
(* table chars.json, which is derived from the Unicode database, not from  *)
(* sandfs.                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Tbl == JsonDeserialize(IOEnv.SANDFS_SPEC \o "/chars.json")
CODE  == Tbl.code      \* character -> code point
LOWER == Tbl.lower     \* character -> lower-case character (only where it differs)
U8    == Tbl.u8        \* character -> UTF-8 length (only where it is not 1)
BRK   == ToSet(Tbl.brk)    \* line boundaries recognised by splitlines
WORD  == ToSet(Tbl.word)   \* \w
SPACE == ToSet(Tbl.space)  \* str.isspace
HEX   == Tbl.hex       \* two hex digits -> character (ASCII)
LF == "\n"
CR == "\r"
TAB == "\t"
DQ == "\""
BS == "\\"
TREE_LAST == Tbl.tree[1]
TREE_MID  == Tbl.tree[2]
TREE_BAR  == Tbl.tree[3]

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Has(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
HasAny(s, C) == \E i \in 1..Len(s) : Ch(s, i) \in C
HasSub(s, sub) == IF sub = "" THEN TRUE
                    ELSE \E i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) == IF i > Len(q) THEN "" ELSE IF i = Len(q) THEN q[i]
                       ELSE q[i] \o sep \o JoinFrom(q, sep, i + 1)
Join(q, sep) == JoinFrom(q, sep, 1)

(* split at every occurrence of the single character c *)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, c, i, b) == IF i > Len(s) THEN <<From(s, b)>>
                       ELSE IF Ch(s, i) = c THEN <<SubSeq(s, b, i - 1)>> \o SplitAt(s, c, i + 1, i + 1)
                       ELSE SplitAt(s, c, i + 1, b)
Split(s, c) == SplitAt(s, c, 1, 1)

(* position of the first c in s, 0 if none *)
RECURSIVE FindCh(_, _, _)
FindCh(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindCh(s, c, i + 1)

RECURSIVE MapChars(_, _, _)
MapChars(s, f(_), i) == IF i > Len(s) THEN "" ELSE f(Ch(s, i)) \o MapChars(s, f, i + 1)
LowerCh(c) == IF c \in DOMAIN LOWER THEN LOWER[c] ELSE c
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowerCh(Ch(s, i)) \o LowerFrom(s, i + 1)
Lower(s) == LowerFrom(s, 1)

RECURSIVE U8From(_, _)
U8From(s, i) == IF i > Len(s) THEN 0
                ELSE (IF Ch(s, i) \in DOMAIN U8 THEN U8[Ch(s, i)] ELSE 1) + U8From(s, i + 1)
Utf8Len(s) == U8From(s, 1)

(* Python's str.splitlines *)
RECURSIVE LinesFrom(_, _, _, _)
LinesFrom(s, i, b, keep) ==
  IF i > Len(s) THEN IF b > Len(s) THEN <<>> ELSE <<From(s, b)>>
  ELSE IF Ch(s, i) \in BRK
       THEN LET e == IF Ch(s, i) = CR /\ i < Len(s) /\ Ch(s, i + 1) = LF THEN i + 1 ELSE i
                ln == IF keep THEN SubSeq(s, b, e) ELSE SubSeq(s, b, i - 1)
            IN <<ln>> \o LinesFrom(s, e + 1, e + 1, keep)
       ELSE LinesFrom(s, i + 1, b, keep)
SplitLines(s) == LinesFrom(s, 1, 1, FALSE)
SplitLinesKeep(s) == LinesFrom(s, 1, 1, TRUE)

RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ Ch(s, 1) \in SPACE THEN LStrip(From(s, 2)) ELSE s
RECURSIVE RStripSet(_, _)
RStripSet(s, C) == IF s # "" /\ Ch(s, Len(s)) \in C THEN RStripSet(SubSeq(s, 1, Len(s) - 1), C) ELSE s
Strip(s) == RStripSet(LStrip(s), SPACE)

RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, a, b, i) ==
  IF i > Len(s) THEN ""
  ELSE IF i + Len(a) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(a) - 1) = a
       THEN b \o ReplaceFrom(s, a, b, i + Len(a))
       ELSE Ch(s, i) \o ReplaceFrom(s, a, b, i + 1)
Replace(s, a, b) == ReplaceFrom(s, a, b, 1)

(* order of strings by code point *)
CodeOf(c) == IF c \in DOMAIN CODE THEN CODE[c] ELSE 100000
RECURSIVE StrLtFrom(_, _, _)
StrLtFrom(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                      ELSE IF Ch(a, i) = Ch(b, i) THEN StrLtFrom(a, b, i + 1)
                      ELSE CodeOf(Ch(a, i)) < CodeOf(Ch(b, i))
StrLt(a, b) == StrLtFrom(a, b, 1)
SortStr(S) == SetToSortSeq(S, StrLt)

(* Python slices x[:n] and x[-n:] on a sequence or a string *)
TakeN(q, n) == LET k == IF n >= 0 THEN (IF n < Len(q) THEN n ELSE Len(q))
                        ELSE (IF Len(q) + n > 0 THEN Len(q) + n ELSE 0)
               IN SubSeq(q, 1, k)
LastN(q, n) == LET b == IF n >= 0 THEN (IF n < Len(q) THEN Len(q) - n ELSE 0)
                        ELSE (IF 0 - n < Len(q) THEN 0 - n ELSE Len(q))
               IN SubSeq(q, b + 1, Len(q))

DIGIT == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in DIGIT
IsInt(s) == AllDigits(s) \/ (Len(s) > 1 /\ Ch(s, 1) = "-" /\ AllDigits(From(s, 2)))
RECURSIVE NatOf(_, _, _)
NatOf(s, i, acc) == IF i > Len(s) THEN acc ELSE NatOf(s, i + 1, acc * 10 + (CODE[Ch(s, i)] - 48))
IntOf(s) == IF Ch(s, 1) = "-" THEN 0 - NatOf(s, 2, 0) ELSE NatOf(s, 1, 0)

Pad(s, n) == s \o SubSeq("                                        ", 1, IF n > Len(s) THEN n - Len(s) ELSE 0)

(***************************************************************************)
(* Glob patterns (fnmatch): * ? [set] [!set]                               *)
(***************************************************************************)
(* index of the ] closing a set opened at i (a ] in first position is literal), 0 if none *)
SetEnd(p, i) == LET j0 == IF i + 1 <= Len(p) /\ Ch(p, i + 1) = "!" THEN i + 2 ELSE i + 1
                    j1 == IF j0 <= Len(p) /\ Ch(p, j0) = "]" THEN j0 + 1 ELSE j0
                IN FindCh(p, "]", j1)
RECURSIVE InSetFrom(_, _, _)
InSetFrom(body, c, i) ==
  IF i > Len(body) THEN FALSE
  ELSE IF i + 2 <= Len(body) /\ Ch(body, i + 1) = "-"
       THEN (CodeOf(Ch(body, i)) <= CodeOf(c) /\ CodeOf(c) <= CodeOf(Ch(body, i + 2)))
            \/ InSetFrom(body, c, i + 3)
       ELSE Ch(body, i) = c \/ InSetFrom(body, c, i + 1)
InSet(p, i, e, c) == LET neg == Ch(p, i + 1) = "!"
                         body == SubSeq(p, IF neg THEN i + 2 ELSE i + 1, e - 1)
                     IN InSetFrom(body, c, 1) # neg
RECURSIVE GlobAt(_, _, _, _)
GlobAt(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE LET c == Ch(p, i) IN
    IF c = "*" THEN GlobAt(p, i + 1, s, j) \/ (j <= Len(s) /\ GlobAt(p, i, s, j + 1))
    ELSE IF j > Len(s) THEN FALSE
    ELSE IF c = "?" THEN GlobAt(p, i + 1, s, j + 1)
    ELSE IF c = "[" /\ SetEnd(p, i) # 0
         THEN InSet(p, i, SetEnd(p, i), Ch(s, j)) /\ GlobAt(p, SetEnd(p, i) + 1, s, j + 1)
    ELSE c = Ch(s, j) /\ GlobAt(p, i + 1, s, j + 1)
GlobMatch(p, s) == GlobAt(p, 1, s, 1)

(***************************************************************************)
(* Regular expressions: literals . [set] ^ $ \d \. with * + ? on an item   *)
(***************************************************************************)
RxItemEnd(p, i) ==   \* last position of the item starting at i
  IF Ch(p, i) = "[" THEN FindCh(p, "]", i + 2) ELSE IF Ch(p, i) = BS THEN i + 1 ELSE i
RxItem(p, i, e, c) ==
  IF Ch(p, i) = "." THEN TRUE
  ELSE IF Ch(p, i) = "[" THEN (IF Ch(p, i + 1) = "^" THEN ~InSetFrom(SubSeq(p, i + 2, e - 1), c, 1)
                               ELSE InSetFrom(SubSeq(p, i + 1, e - 1), c, 1))
  ELSE IF Ch(p, i) = BS THEN (IF Ch(p, i + 1) = "d" THEN c \in DIGIT
                              ELSE IF Ch(p, i + 1) = "w" THEN c \in WORD ELSE c = Ch(p, i + 1))
  ELSE c = Ch(p, i)
RECURSIVE RxAt(_, _, _, _)
RxAt(p, i, s, j) ==
  IF i > Len(p) THEN TRUE
  ELSE IF Ch(p, i) = "^" THEN j = 1 /\ RxAt(p, i + 1, s, j)
  ELSE IF Ch(p, i) = "$" THEN j = Len(s) + 1 /\ RxAt(p, i + 1, s, j)
  ELSE LET e == RxItemEnd(p, i)
           q == IF e + 1 <= Len(p) /\ Ch(p, e + 1) \in {"*", "+", "?"} THEN Ch(p, e + 1) ELSE ""
           hit == j <= Len(s) /\ RxItem(p, i, e, Ch(s, j))
           nx == IF q = "" THEN e + 1 ELSE e + 2
       IN CASE q = ""  -> hit /\ RxAt(p, nx, s, j + 1)
            [] q = "?" -> (hit /\ RxAt(p, nx, s, j + 1)) \/ RxAt(p, nx, s, j)
            [] q = "*" -> RxAt(p, nx, s, j) \/ (hit /\ RxAt(p, i, s, j + 1))
            [] q = "+" -> hit /\ (RxAt(p, nx, s, j + 1) \/ RxAt(p, i, s, j + 1))
RxSearch(p, s) == \E j \in 1..(Len(s) + 1) : RxAt(p, 1, s, j)

(* patterns that are not regular expressions: nothing to repeat, an open set or group, a dangling backslash *)
RECURSIVE RxBadFrom(_, _)
RxBadFrom(p, i) ==
  IF i > Len(p) THEN FALSE
  ELSE LET c == Ch(p, i) IN
    IF c \in {"^", "$"} THEN RxBadFrom(p, i + 1)
    ELSE IF c \in {"*", "+", "?", "(", ")"} THEN TRUE
    ELSE IF (c = "[" /\ FindCh(p, "]", i + 2) = 0) \/ (c = BS /\ i = Len(p)) THEN TRUE
    ELSE LET e == RxItemEnd(p, i) IN
         RxBadFrom(p, IF e + 1 <= Len(p) /\ Ch(p, e + 1) \in {"*", "+", "?"} THEN e + 2 ELSE e + 1)
RxBad(regex, p) == regex /\ RxBadFrom(p, 1)

(* does a line match a query?  (the three matching modes of the search front ends) *)
LineMatches(q, regex, ic, line) ==
  IF regex THEN IF ic THEN RxSearch(Lower(q), Lower(line)) ELSE RxSearch(q, line)
  ELSE IF ic THEN q # "" /\ HasSub(Lower(line), Lower(q))
  ELSE HasSub(line, q)

(***************************************************************************)
(* Variable expansion: $name and ${name}                                   *)
(***************************************************************************)
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in WORD THEN WordEnd(s, i + 1) ELSE i
EnvGet(env, n) == IF n \in DOMAIN env THEN env[n] ELSE ""
RECURSIVE ExpandFrom(_, _, _)
ExpandFrom(s, env, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = "$" /\ i < Len(s) /\ Ch(s, i + 1) \in WORD
       THEN LET e == WordEnd(s, i + 1) IN EnvGet(env, SubSeq(s, i + 1, e - 1)) \o ExpandFrom(s, env, e)
  ELSE IF Ch(s, i) = "$" /\ i < Len(s) /\ Ch(s, i + 1) = "{" /\ FindCh(s, "}", i + 2) > i + 2
       THEN LET e == FindCh(s, "}", i + 2)
            IN EnvGet(env, SubSeq(s, i + 2, e - 1)) \o ExpandFrom(s, env, e + 1)
  ELSE Ch(s, i) \o ExpandFrom(s, env, i + 1)
Expand(s, env) == IF Has(s, "$") THEN ExpandFrom(s, env, 1) ELSE s

(***************************************************************************)
(* The shell's tokens: words, quotes, escapes, runs of | < >               *)
(* Result: [ok, toks] (not ok: unbalanced quote or trailing escape)        *)
(***************************************************************************)
BLANK == {" ", TAB, CR, LF}
PUNCT == {"|", "<", ">"}
RECURSIVE LexAt(_, _, _, _, _, _)
(* mode: " " between tokens, "a" in a word, "p" in a punctuation run, "'" or DQ in quotes;
   tok: token so far, qd: token contains quotes *)
LexAt(s, i, mode, tok, qd, acc) ==
  IF i > Len(s)
  THEN IF mode \in {"'", DQ} THEN [ok |-> FALSE, toks |-> acc]
       ELSE [ok |-> TRUE, toks |-> IF tok # "" \/ qd THEN Append(acc, tok) ELSE acc]
  ELSE LET c == Ch(s, i) IN
  CASE mode = " " ->
         IF c \in BLANK THEN LexAt(s, i + 1, " ", "", FALSE, acc)
         ELSE IF c = BS THEN IF i = Len(s) THEN [ok |-> FALSE, toks |-> acc]
                             ELSE LexAt(s, i + 2, "a", Ch(s, i + 1), FALSE, acc)
         ELSE IF c \in PUNCT THEN LexAt(s, i + 1, "p", c, FALSE, acc)
         ELSE IF c \in {"'", DQ} THEN LexAt(s, i + 1, c, "", TRUE, acc)
         ELSE LexAt(s, i + 1, "a", c, FALSE, acc)
    [] mode = "a" ->
         IF c \in BLANK THEN LexAt(s, i + 1, " ", "", FALSE, IF tok # "" \/ qd THEN Append(acc, tok) ELSE acc)
         ELSE IF c = BS THEN IF i = Len(s) THEN [ok |-> FALSE, toks |-> acc]
                             ELSE LexAt(s, i + 2, "a", tok \o Ch(s, i + 1), qd, acc)
         ELSE IF c \in PUNCT THEN LexAt(s, i, " ", "", FALSE, IF tok # "" \/ qd THEN Append(acc, tok) ELSE acc)
         ELSE IF c \in {"'", DQ} THEN LexAt(s, i + 1, c, tok, TRUE, acc)
         ELSE LexAt(s, i + 1, "a", tok \o c, qd, acc)
    [] mode = "p" ->
         IF c \in PUNCT THEN LexAt(s, i + 1, "p", tok \o c, FALSE, acc)
         ELSE LexAt(s, i, " ", "", FALSE, Append(acc, tok))
    [] mode = "'" ->
         IF c = "'" THEN LexAt(s, i + 1, "a", tok, TRUE, acc) ELSE LexAt(s, i + 1, "'", tok \o c, TRUE, acc)
    [] mode = DQ ->
         IF c = DQ THEN LexAt(s, i + 1, "a", tok, TRUE, acc)
         ELSE IF c = BS
              THEN IF i = Len(s) THEN [ok |-> FALSE, toks |-> acc]
                   ELSE LET d == Ch(s, i + 1)
                        IN LexAt(s, i + 2, DQ, tok \o (IF d \in {BS, DQ} THEN d ELSE BS \o d), TRUE, acc)
              ELSE LexAt(s, i + 1, DQ, tok \o c, TRUE, acc)
Lex(s) == LexAt(s, 1, " ", "", FALSE, <<>>)
=============================================================================
