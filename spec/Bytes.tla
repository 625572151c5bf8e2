------------------------------- MODULE Bytes -------------------------------
(* Byte sequences: little endian numbers, base64, UTF-8.                       *)
EXTENDS Integers, Sequences, Num

U16(b, i) == b[i] + 256 * b[i + 1]                    \* at index i (from 1)
LE2(n) == <<n % 256, n \div 256>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* ---- base64, as code points ---- *)
B64Char(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1

Base64(b) ==
  LET n == Len(b)
      g == (n + 2) \div 3
      at(i) == IF i <= n THEN b[i] ELSE 0
      q(k, j) == LET i == 3 * k + 1
                     x == at(i) * 65536 + at(i + 1) * 256 + at(i + 2)
                 IN  CASE j = 0 -> B64Char(x \div 262144)
                       [] j = 1 -> B64Char((x \div 4096) % 64)
                       [] j = 2 -> IF i + 1 > n THEN 61 ELSE B64Char((x \div 64) % 64)
                       [] OTHER -> IF i + 2 > n THEN 61 ELSE B64Char(x % 64)
  IN  [m \in 1..(4 * g) |-> q((m - 1) \div 4, (m - 1) % 4)]

(* strict decoding of canonical base64; <<-1>> otherwise *)
UnBase64(s) ==
  LET n == Len(s)
      pad == IF n >= 1 /\ s[n] = 61 THEN IF n >= 2 /\ s[n - 1] = 61 THEN 2 ELSE 1 ELSE 0
      v(i) == IF i > n - pad THEN 0 ELSE B64Val(s[i])
      x(k) == v(4 * k + 1) * 262144 + v(4 * k + 2) * 4096 + v(4 * k + 3) * 64 + v(4 * k + 4)
  IN  IF n % 4 # 0 \/ \E i \in 1..(n - pad) : B64Val(s[i]) < 0 THEN <<-1>>
      ELSE [m \in 1..(3 * (n \div 4) - pad) |->
              LET k == (m - 1) \div 3
                  j == (m - 1) % 3
              IN  IF j = 0 THEN x(k) \div 65536 ELSE IF j = 1 THEN (x(k) \div 256) % 256 ELSE x(k) % 256]

(* ---- UTF-8 ---- *)
Utf8C(c) == IF c < 128 THEN <<c>>
            ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
            ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8Part(_, _, _)      \* by halves
Utf8Part(s, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN Utf8C(s[i]) ELSE LET m == (i + j) \div 2 IN Utf8Part(s, i, m) \o Utf8Part(s, m + 1, j)
Utf8(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN s ELSE Utf8Part(s, 1, Len(s))

(* decoding, strictly (no overlong forms, surrogates, or values beyond 10FFFF) *)
RECURSIVE UnUtf8From(_, _, _)
UnUtf8From(b, i, acc) ==
  LET n == Len(b)
      cont(k) == i + k <= n /\ b[i + k] \in 128..191
      c == b[i]
  IN  IF i > n THEN [ok |-> TRUE, s |-> acc]
      ELSE IF c < 128 THEN UnUtf8From(b, i + 1, Append(acc, c))
      ELSE IF c \in 194..223 /\ cont(1) THEN UnUtf8From(b, i + 2, Append(acc, (c - 192) * 64 + b[i + 1] - 128))
      ELSE IF c \in 224..239 /\ cont(1) /\ cont(2)
      THEN LET x == (c - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128
           IN  IF x < 2048 \/ x \in 55296..57343 THEN [ok |-> FALSE, s |-> <<>>] ELSE UnUtf8From(b, i + 3, Append(acc, x))
      ELSE IF c \in 240..244 /\ cont(1) /\ cont(2) /\ cont(3)
      THEN LET x == (c - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128
           IN  IF x < 65536 \/ x > 1114111 THEN [ok |-> FALSE, s |-> <<>>] ELSE UnUtf8From(b, i + 4, Append(acc, x))
      ELSE [ok |-> FALSE, s |-> <<>>]
UnUtf8(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN [ok |-> TRUE, s |-> b] ELSE UnUtf8From(b, 1, <<>>)
=============================================================================
