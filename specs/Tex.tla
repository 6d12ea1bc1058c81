-------------------------------- MODULE Tex --------------------------------
(* Pictures held by textures (TEX), DDS and TGA files, decoded from bytes    *)
EXTENDS Bytes, Integers, FiniteSets

At(b, p, n) == SubSeq(b, p, p + n - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

(* -- bits: number of n bits (n <= 16) starting at bit i (from 0, low bits of bytes first) -- *)
RECURSIVE BitsFrom(_, _, _)
Bit(b, i) == (b[1 + i \div 8] \div (2 ^ (i % 8))) % 2
BitsFrom(b, i, n) == IF n = 0 THEN 0 ELSE Bit(b, i) + 2 * BitsFrom(b, i + 1, n - 1)

(* -- blocks of 4x4 pixels: color <<r, g, b, a>> of pixel k (0..15); -1: not specified -- *)
C565(n) == LET r == n \div 2048  g == (n \div 32) % 64  bl == n % 32
           IN <<8 * r + r \div 4, 4 * g + g \div 16, 8 * bl + bl \div 4>>
Mix(p, q, wp, wq) == [i \in 1..3 |-> (wp * p[i] + wq * q[i]) \div (wp + wq)]
(* opaque: always four colors *)
Color(b, k, opaque) ==
    LET n0 == b[1] + 256 * b[2]  n1 == b[3] + 256 * b[4]
        p == C565(n0)  q == C565(n1)
        x == BitsFrom(b, 32 + 2 * k, 2)
        four == opaque \/ n0 > n1
    IN CASE x = 0 -> p \o <<255>> [] x = 1 -> q \o <<255>>
         [] x = 2 -> (IF four THEN Mix(p, q, 2, 1) ELSE Mix(p, q, 1, 1)) \o <<255>>
         [] OTHER -> IF four THEN Mix(p, q, 1, 2) \o <<255>> ELSE <<0, 0, 0, 0>>
(* a0, a1: from 0 to 255 *)
Alpha(a0, a1, x) ==
    CASE x = 0 -> a0 [] x = 1 -> a1
      [] OTHER -> IF a0 > a1 THEN ((8 - x) * a0 + (x - 1) * a1) \div 7
                  ELSE IF x = 6 THEN 0 ELSE IF x = 7 THEN 255 ELSE ((6 - x) * a0 + (x - 1) * a1) \div 5
Signed8(n) == (n + 128) % 256
W4 == <<0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64>>
(* mode 6: one pair of colors of 7 bits and one shared bit, indices of 4 bits (3 for the first pixel) *)
Bc7Mode6(b) == b[1] % 128 = 64
Bc7(b, k) ==
    LET e(i, c) == 2 * BitsFrom(b, 7 + 14 * c + 7 * i, 7) + BitsFrom(b, 63 + i, 1)
        x == IF k = 0 THEN BitsFrom(b, 65, 3) ELSE BitsFrom(b, 64 + 4 * k, 4)
        w == W4[x + 1]
    IN [c \in 1..4 |-> ((64 - w) * e(0, c - 1) + w * e(1, c - 1) + 32) \div 64]

(* formats: bytes per block, side of blocks *)
Formats == {"dxt1", "dxt5", "bc5", "bc7", "bgra", "bgr"}
BlockBytes(f) == CASE f = "dxt1" -> 8 [] f = "bgra" -> 4 [] f = "bgr" -> 3 [] OTHER -> 16
Side(f) == IF f \in {"bgra", "bgr"} THEN 1 ELSE 4
LevelSize(f, w, h) == BlockBytes(f) * CeilDiv(w, Side(f)) * CeilDiv(h, Side(f))
PixelOf(f, b, k) ==
    CASE f = "dxt1" -> Color(b, k, FALSE)
      [] f = "dxt5" -> [Color(SubSeq(b, 9, 16), k, TRUE) EXCEPT ![4] = Alpha(b[1], b[2], BitsFrom(b, 16 + 3 * k, 3))]
      [] f = "bc5" -> <<Alpha(Signed8(b[1]), Signed8(b[2]), BitsFrom(b, 16 + 3 * k, 3)), Alpha(Signed8(b[9]), Signed8(b[10]), BitsFrom(b, 80 + 3 * k, 3)), -1, 255>>
      [] f = "bc7" -> IF Bc7Mode6(b) THEN Bc7(b, k) ELSE <<-1, -1, -1, -1>>
      [] f = "bgra" -> <<b[3], b[2], b[1], b[4]>>
      [] OTHER -> <<b[3], b[2], b[1], 255>>
(* pixel x, y (from 0) of a level starting after byte p *)
Pixel(b, p, f, w, x, y) ==
    LET s == Side(f)
        n == (y \div s) * CeilDiv(w, s) + x \div s
    IN PixelOf(f, SubSeq(b, p + 1 + n * BlockBytes(f), p + (n + 1) * BlockBytes(f)), (y % s) * s + (x % s))

(* -- files: which (none, some, free), dimensions, format, position of the picture, bottom to top -- *)
None == [what |-> "none", w |-> 0, h |-> 0, f |-> "bgra", at |-> 0, flip |-> FALSE]
Free == [None EXCEPT !.what = "free"]
Some(w, h, f, at, flip) == [what |-> "some", w |-> w, h |-> h, f |-> f, at |-> at, flip |-> flip]

TexFormat(n) == CASE n = 10 -> "dxt1" [] n = 12 -> "dxt5" [] n = 13 -> "bc7" [] n = 14 -> "bc5" [] n = 20 -> "bgra" [] n = 21 -> "rgba16" [] OTHER -> "unknown"
(* levels are stored from the smallest to the largest one *)
Tex(b) ==
    IF Len(b) < 12 \/ At(b, 1, 4) # <<84, 69, 88, 0>> THEN None
    ELSE LET w == Num(At(b, 5, 2))  h == Num(At(b, 7, 2))
             f == TexFormat(b[10])
         IN IF f = "unknown" THEN None
            ELSE IF w = 0 \/ h = 0 \/ f = "rgba16" THEN Free
            ELSE LET n == LevelSize(f, w, h)
                 IN IF Len(b) < 12 + n THEN None
                    ELSE Some(w, h, f, IF b[12] # 0 THEN Len(b) - n ELSE 12, FALSE)
(* only formats with documented headers; anything else is free *)
Dds(b) ==
    IF Len(b) < 128 \/ At(b, 1, 4) # <<68, 68, 83, 32>> THEN None
    ELSE LET h == Num(At(b, 13, 4))  w == Num(At(b, 17, 4))
             cc == At(b, 85, 4)
             f == IF b[81] = 4 THEN (IF cc = <<68, 88, 84, 49>> THEN "dxt1" ELSE IF cc = <<68, 88, 84, 53>> THEN "dxt5" ELSE "unknown")
                  ELSE IF b[81] = 65 /\ b[89] = 32 THEN "bgra" ELSE "unknown"
         IN IF b[5] # 124 \/ f = "unknown" \/ w = 0 \/ h = 0 \/ w > 1000 \/ h > 1000 THEN Free
            ELSE IF Len(b) < 128 + LevelSize(f, w, h) THEN None ELSE Some(w, h, f, 128, FALSE)
Tga(b) ==
    IF Len(b) < 18 THEN None
    ELSE LET w == Num(At(b, 13, 2))  h == Num(At(b, 15, 2))
             f == IF b[17] = 32 THEN "bgra" ELSE "bgr"
         IN IF b[2] # 0 \/ b[3] # 2 \/ b[17] \notin {24, 32} \/ w = 0 \/ h = 0 \/ (b[18] \div 16) % 2 = 1 THEN Free
            ELSE IF Len(b) < 18 + b[1] + LevelSize(f, w, h) THEN None
            ELSE Some(w, h, f, 18 + b[1], (b[18] \div 32) % 2 = 0)
File(kind, b) == CASE kind = "tex" -> Tex(b) [] kind = "dds" -> Dds(b) [] OTHER -> Tga(b)

(* colors are interpolated with different roundings *)
Near(x, y, f) == x = -1 \/ x = y \/ (f \notin {"bgra", "bgr"} /\ x - y \in -2..2)
Same(b, d, px) ==
    \A y \in 0..(d.h - 1) : \A x \in 0..(d.w - 1) :
        LET want == Pixel(b, d.at, d.f, d.w, x, IF d.flip THEN d.h - 1 - y ELSE y)
            at == 4 * (y * d.w + x)
        IN \A c \in 1..4 : Near(want[c], px[at + c], d.f)
=============================================================================
