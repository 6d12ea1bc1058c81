-------------------------------- MODULE Bytes --------------------------------
(* Strings of bytes: numbers, text                                           *)
EXTENDS Naturals, Sequences, Bitwise

Hexa == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
(* ASCII codes of hexadecimal digits *)
HexCode(n) == IF n < 10 THEN 48 + n ELSE 87 + n
(* little-endian number, as hexadecimal digits *)
RECURSIVE HexBytes(_)
HexBytes(b) == IF b = << >> THEN << >> ELSE HexBytes(Tail(b)) \o <<HexCode(b[1] \div 16), HexCode(b[1] % 16)>>

Huge == 100000000
Num(b) == IF \E i \in 4..Len(b) : b[i] # 0 THEN Huge
          ELSE (IF Len(b) > 0 THEN b[1] ELSE 0) + (IF Len(b) > 1 THEN 256 * b[2] ELSE 0) + (IF Len(b) > 2 THEN 65536 * b[3] ELSE 0)
LE(n, k) == [i \in 1..k |-> CASE i = 1 -> n % 256 [] i = 2 -> (n \div 256) % 256 [] i = 3 -> (n \div 65536) % 256 [] OTHER -> 0]
Zero(b) == \A i \in 1..Len(b) : b[i] = 0

(* -- decimal text of little-endian integers of any size -- *)
RECURSIVE Div10(_, _)
(* most significant byte first: quotient and remainder *)
Div10(b, r) == IF b = << >> THEN [q |-> << >>, r |-> r]
               ELSE LET x == 256 * r + Head(b)  d == Div10(Tail(b), x % 10) IN [q |-> <<x \div 10>> \o d.q, r |-> d.r]
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
RECURSIVE Digits10(_)
Digits10(b) == IF Zero(b) THEN "" ELSE LET d == Div10(b, 0) IN Digits10(d.q) \o Hexa[d.r + 1]
Unsigned(b) == IF Zero(b) THEN "0" ELSE Digits10(Rev(b))
RECURSIVE Neg(_, _)
Neg(b, carry) == IF b = << >> THEN << >> ELSE LET x == 255 - b[1] + carry IN <<x % 256>> \o Neg(Tail(b), x \div 256)
Signed(b) == IF b[Len(b)] >= 128 THEN "-" \o Unsigned(Neg(b, 1)) ELSE Unsigned(b)
(* the same, as ASCII codes *)
RECURSIVE Codes10(_)
Codes10(b) == IF Zero(b) THEN << >> ELSE LET d == Div10(b, 0) IN Codes10(d.q) \o <<48 + d.r>>
UnsignedCodes(b) == IF Zero(b) THEN <<48>> ELSE Codes10(Rev(b))
SignedCodes(b) == IF b[Len(b)] >= 128 THEN <<45>> \o UnsignedCodes(Neg(b, 1)) ELSE UnsignedCodes(b)

(* -- UTF-8 -- *)
RECURSIVE Utf8(_)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
Utf8(b) ==
    IF b = << >> THEN TRUE
    ELSE IF b[1] < 128 THEN Utf8(Tail(b))
    ELSE IF b[1] \in 194..223 THEN Cont(b, 2) /\ Utf8(SubSeq(b, 3, Len(b)))
    ELSE IF b[1] \in 224..239 THEN /\ Cont(b, 2) /\ Cont(b, 3) /\ (b[1] = 224 => b[2] >= 160) /\ (b[1] = 237 => b[2] < 160)
                                   /\ Utf8(SubSeq(b, 4, Len(b)))
    ELSE IF b[1] \in 240..244 THEN /\ Cont(b, 2) /\ Cont(b, 3) /\ Cont(b, 4) /\ (b[1] = 240 => b[2] >= 144) /\ (b[1] = 244 => b[2] < 144)
                                   /\ Utf8(SubSeq(b, 5, Len(b)))
    ELSE FALSE

Lower(b) == [i \in 1..Len(b) |-> IF b[i] \in 65..90 THEN b[i] + 32 ELSE b[i]]
(* FNV-1a, 32 bits: h * 0x01000193 = h * 403 + (h << 24) *)
RECURSIVE Mul403(_, _)
Mul403(b, carry) == IF b = << >> THEN << >> ELSE LET x == 403 * b[1] + carry IN <<x % 256>> \o Mul403(Tail(b), x \div 256)
FnvStep(h, c) == LET x == [h EXCEPT ![1] = h[1] ^^ c]  m == Mul403(x, 0) IN [m EXCEPT ![4] = (m[4] + x[1]) % 256]
RECURSIVE FnvFrom(_, _)
FnvFrom(h, b) == IF b = << >> THEN h ELSE FnvFrom(FnvStep(h, b[1]), Tail(b))
Fnv(b) == FnvFrom(<<197, 157, 28, 129>>, Lower(b))
=============================================================================
