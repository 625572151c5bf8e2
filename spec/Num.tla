-------------------------------- MODULE Num --------------------------------
(* Exact decimal numbers of any size, as <<sign, I, F>>: sign 1 for negative,  *)
(* I the digits before the point without leading zeros, F those after it       *)
(* without trailing zeros; zero is <<0, <<>>, <<>>>>.  TLC's integers have 32  *)
(* bits, policies' and certificates' have not.                                 *)
EXTENDS Integers, Sequences

RECURSIVE StripLead(_), StripTrail(_)
StripLead(s)  == IF s = <<>> THEN s ELSE IF Head(s) = 0 THEN StripLead(Tail(s)) ELSE s
StripTrail(s) == IF s = <<>> THEN s
                 ELSE IF s[Len(s)] = 0 THEN StripTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s

MkNum(sign, int, frac) ==
  LET i == StripLead(int)
      f == StripTrail(frac)
  IN  <<IF i = <<>> /\ f = <<>> THEN 0 ELSE sign, i, f>>

SigDigits(n) == LET both == n[2] \o n[3] IN Len(StripLead(IF n[3] = <<>> THEN StripTrail(both) ELSE both))

RECURSIVE LexLess(_, _)   \* dictionary order of digit sequences, a proper prefix is smaller
LexLess(a, b) == IF a = <<>> THEN b # <<>>
                 ELSE IF b = <<>> THEN FALSE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
                 ELSE LexLess(Tail(a), Tail(b))

MagLess(a, b) == IF Len(a[2]) # Len(b[2]) THEN Len(a[2]) < Len(b[2])
                 ELSE IF a[2] # b[2] THEN LexLess(a[2], b[2])
                 ELSE LexLess(a[3], b[3])

NumLess(a, b) == IF a[1] = 1 /\ b[1] = 0 THEN TRUE
                 ELSE IF a[1] = 0 /\ b[1] = 1 THEN FALSE
                 ELSE IF a[1] = 0 THEN MagLess(a, b)
                 ELSE MagLess(b, a)

(* Decimal digits of an unsigned number given by its bytes, least first.       *)
RECURSIVE MulAdd(_, _, _)  \* digits (least first) * 256 + carry
MulAdd(ds, carry, acc) ==
  IF ds = <<>> THEN IF carry = 0 THEN acc ELSE MulAdd(<<>>, carry \div 10, Append(acc, carry % 10))
  ELSE LET x == Head(ds) * 256 + carry IN MulAdd(Tail(ds), x \div 10, Append(acc, x % 10))

RECURSIVE DecLE(_, _)
DecLE(bytes, i) == IF i > Len(bytes) THEN <<>> ELSE MulAdd(DecLE(bytes, i + 1), bytes[i], <<>>)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BytesToDigits(bytes) == LET d == StripLead(Rev(DecLE(bytes, 1))) IN IF d = <<>> THEN <<0>> ELSE d

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<n>> ELSE Append(NatDigits(n \div 10), n % 10)
DigitCodes(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
NatCodes(n) == DigitCodes(NatDigits(n))
=============================================================================
