-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as booktest sees it: strings, lines and tokens.  Tokenize is the   *)
(* specification of booktest/tokenizer.py: runs of blanks, numbers with an *)
(* optional sign and one decimal part, runs of alphanumerics, and every    *)
(* other character by itself.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS ExtraAlnum,   \* non-ASCII characters in use that are alphanumeric
          ExtraNumeric  \* non-ASCII characters in use that are numeric

Ch(s, i) == SubSeq(s, i, i)

Digits  == {"0","1","2","3","4","5","6","7","8","9"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
            "n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M",
            "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Blank   == {" ", "\t"}
Signs   == {"+", "-"}
Numeric == Digits \cup ExtraNumeric
Alnum   == Digits \cup Letters \cup ExtraAlnum \cup ExtraNumeric

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* the first index >= i whose character is not in C *)
RECURSIVE SpanFrom(_, _, _)
SpanFrom(s, i, C) == IF i <= Len(s) /\ Ch(s, i) \in C THEN SpanFrom(s, i + 1, C) ELSE i

(* one past the end of the number starting at i, or i if there is none *)
NumberEnd(s, i) ==
  LET j == IF Ch(s, i) \in Signs THEN i + 1 ELSE i
      k == SpanFrom(s, j, Numeric)
  IN IF k = j THEN i
     ELSE IF k + 1 <= Len(s) /\ Ch(s, k) = "." /\ Ch(s, k + 1) \in Numeric
          THEN SpanFrom(s, k + 1, Numeric)
          ELSE k

TokenEnd(s, i) ==
  LET c == Ch(s, i) IN
  IF c \in Blank THEN SpanFrom(s, i, Blank)
  ELSE LET n == IF c \in Signs \cup Numeric THEN NumberEnd(s, i) ELSE i IN
       IF n # i THEN n
       ELSE IF c \in Alnum THEN SpanFrom(s, i, Alnum)
       ELSE i + 1

RECURSIVE TokenizeFrom(_, _)
TokenizeFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET e == TokenEnd(s, i) IN <<SubSeq(s, i, e - 1)>> \o TokenizeFrom(s, e)
Tokenize(s) == TokenizeFrom(s, 1)

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Concat(Tail(q))

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE s \o Repeat(s, n - 1)

PadTo(s, n) == IF Len(s) >= n THEN s ELSE s \o Repeat(" ", n - Len(s))

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE SetMax(_, _)
SetMax(S, d) == IF S = {} THEN d
                ELSE LET x == CHOOSE y \in S : TRUE IN SetMax(S \ {x}, Max(d, x))

(* str.strip() and the newline replacement of table cells *)
WhiteSpace == {" ", "\t", "\n", "\r"}
RECURSIVE StripL(_)
StripL(s) == IF s # "" /\ Ch(s, 1) \in WhiteSpace THEN StripL(Drop(s, 1)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # "" /\ Ch(s, Len(s)) \in WhiteSpace THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripR(StripL(s))
RECURSIVE ReplaceNl(_)
ReplaceNl(s) == IF s = "" THEN ""
                ELSE (IF Ch(s, 1) \in {"\n", "\r"} THEN " " ELSE Ch(s, 1)) \o ReplaceNl(Drop(s, 1))

(***************************************************************************)
(* Decimal numbers as booktest's ifloatln prints them: "%.3f" of a token   *)
(* that Python's float() accepts.  Defined for [+-]digits[.ddd].           *)
(***************************************************************************)
IsDecimal(t) ==
  /\ t # ""
  /\ \E c \in Digits \cup Signs : Ch(t, 1) = c
  /\ NumberEnd(t, 1) = Len(t) + 1
  /\ \A i \in 1..Len(t) : Ch(t, i) \in Digits \cup Signs \cup {"."}
RECURSIVE StripZero(_)
StripZero(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZero(Drop(s, 1)) ELSE s
Fixed3(t) ==
  LET sign == IF Ch(t, 1) = "-" THEN "-" ELSE ""
      body == IF Ch(t, 1) \in Signs THEN Drop(t, 1) ELSE t
      k == SpanFrom(body, 1, Digits)
      int == StripZero(SubSeq(body, 1, k - 1))
      frac == IF k <= Len(body) THEN SubSeq(body, k + 1, Len(body)) ELSE ""
  IN sign \o int \o "." \o SubSeq(frac \o "000", 1, 3)
=============================================================================
