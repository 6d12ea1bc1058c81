------------------------------- MODULE MC_Tex -------------------------------
(* Textures written level by level decode to their largest level; short ones *)
(* are refused                                                               *)
EXTENDS Tex, TLC
CONSTANTS Widths, Heights, Emit
VARIABLES w, h, f, mips, done
vars == <<w, h, f, mips, done>>
Init == w \in Widths /\ h \in Heights /\ f \in Formats \ {"bgr"} /\ mips \in BOOLEAN /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<w, h, f, mips>>

Code(x) == CASE x = "dxt1" -> 10 [] x = "dxt5" -> 12 [] x = "bc7" -> 13 [] x = "bc5" -> 14 [] OTHER -> 20
(* a block of a single color: n *)
Block(n) == CASE f = "dxt1" -> <<n, n, 0, 0, 0, 0, 0, 0>>
              [] f = "dxt5" -> <<n, 0, 0, 0, 0, 0, 0, 0, n, n, 0, 0, 0, 0, 0, 0>>
              [] f = "bc5" -> <<n, 0, 0, 0, 0, 0, 0, 0, n, 0, 0, 0, 0, 0, 0, 0>>
              [] f = "bc7" -> <<64, n, 0, n, 0, n, 0, n, 0, 0, 0, 0, 0, 0, 0, 0>>
              [] OTHER -> <<n, n, n, n>>
RECURSIVE Blocks(_, _)
Blocks(n, k) == IF k = 0 THEN << >> ELSE Blocks(n, k - 1) \o Block((n + 3 * k) % 256)
Level(n, lw, lh) == Blocks(n, CeilDiv(lw, Side(f)) * CeilDiv(lh, Side(f)))
RECURSIVE Smaller(_, _, _)
(* levels below, from the smallest *)
Smaller(n, lw, lh) == IF lw = 1 /\ lh = 1 THEN << >>
                      ELSE LET a == Max2(lw \div 2, 1)  b == Max2(lh \div 2, 1) IN Smaller(n + 50, a, b) \o Level(n, a, b)
Bytes0 == <<84, 69, 88, 0>> \o LE(w, 2) \o LE(h, 2) \o <<1, Code(f), 0, IF mips THEN 1 ELSE 0>> \o (IF mips THEN Smaller(100, w, h) ELSE << >>) \o Level(0, w, h)
Nth(x, y) == LET s == Side(f) IN (y \div s) * CeilDiv(w, s) + x \div s + 1
Largest == done => LET b == Bytes0  d == Tex(b) IN
    /\ d.what = "some" /\ d.w = w /\ d.h = h /\ d.f = f
    /\ \A x \in 0..(w - 1) : \A y \in 0..(h - 1) :
        \A k \in {0} : Pixel(b, d.at, f, w, x, y) = PixelOf(f, Block((3 * Nth(x, y)) % 256), (y % Side(f)) * Side(f) + (x % Side(f)))
Refused == done => LET b == Bytes0 IN \A n \in 0..(12 + LevelSize(f, w, h) - 1) : Tex(SubSeq(b, 1, Min2(n, Len(b)))).what = "none"
(* without smaller levels, any cut is refused *)
Cut == (done /\ ~mips) => LET b == Bytes0 IN Len(b) = 12 + LevelSize(f, w, h) /\ \A n \in 0..(Len(b) - 1) : Tex(SubSeq(b, 1, n)).what = "none"
EmitFile == (Emit /\ done) => PrintT("SCENARIO {\"bytes\":\"" \o ToString(Bytes0) \o "\"}")
=============================================================================
