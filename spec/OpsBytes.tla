------------------------------- MODULE OpsBytes -------------------------------
(***************************************************************************)
(* Bytes: integers in little-endian order, rows of packed pixels, buffers  *)
(* split and joined, the image bytes of a bitmap, and small tools.         *)
(* Integers beyond 31 bits are given by digits of 16 bits, lowest first.   *)
(***************************************************************************)
EXTENDS OpsLaunch

IntOps == {"readint", "writeint", "int2buf", "buf2int"}
PackOps == {"packpixels", "unpackpixels", "packbitlisttobuf", "unpack4bitbuf", "pack4bitbuf",
  "unpack4bitbufresizeNtimesbigger", "resizebitpattenNtimesbigger", "resizebufNtimesbigger", "resize1bitbufNtimesbigger",
  "resize4bitbufNtimesbigger", "resize8bitbufNtimesbigger", "resize24bitbufNtimesbigger", "resizesmaller24bitbuf",
  "flipbuf", "flip24bitbuf", "flipnibbleinbuf", "rotatebitsinbuf", "adjustbufsize", "adjustxbufsize", "convertbufto24bit"}
SplitOps == {"altsplitbuf", "altsplitbuf3way", "altsplitbufnway", "makeBGRbuf", "RGB2BGRbuf", "RGB2BGRAlist"}
BltOps == {"BMPbitBLTput", "BMPbitBLTget", "plotbmpastext"}
ToolOps == {"enumletters", "enumreverseletters", "char2int", "dict2descorderlist", "iif", "swapif", "enumbits", "rotatebits", "hhmmss", "plotbitsastext"}
BytesOps == IntOps \cup PackOps \cup SplitOps \cup BltOps \cup ToolOps

(* ---- integers --------------------------------------------------------- *)
ByteOf(L, i) == LET q == i \div 2 IN
  IF q >= Len(L) THEN 0 ELSE IF i % 2 = 0 THEN L[q + 1] % 256 ELSE L[q + 1] \div 256
Bytes(L, n) == TLCEval([i \in 1 .. n |-> ByteOf(L, i - 1)])
Limbs(V) == [i \in 1 .. (Len(V) + 1) \div 2 |-> V[2 * i - 1] + 256 * (IF 2 * i > Len(V) THEN 0 ELSE V[2 * i])]
RECURSIVE Trim(_)
Trim(L) == IF L = <<>> \/ L[Len(L)] # 0 THEN L ELSE Trim(SubSeq(L, 1, Len(L) - 1))
IntEff(op, a) ==
  CASE op = "int2buf" -> Bytes(a[2], a[1])
    [] op = "buf2int" -> Trim(Limbs(a[1]))
    [] op = "readint" -> Trim(Limbs(SubSeq(a[3], a[1] + 1, a[1] + a[2])))
    [] op = "writeint" -> [i \in 1 .. Len(a[3]) |-> IF i > a[1] /\ i <= a[1] + a[2] THEN ByteOf(a[4], i - 1 - a[1]) ELSE a[3][i]]

(* ---- packed pixels ---------------------------------------------------- *)
PxOf(V, b) == LET n == 8 \div b IN
  TLCEval([i \in 1 .. n * Len(V) |-> (V[((i - 1) \div n) + 1] \div 2 ^ (8 - b - b * ((i - 1) % n))) % 2 ^ b])
RECURSIVE SumFn(_, _)
SumFn(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumFn(f, n - 1)
PackPx(P, b) == LET n == 8 \div b IN
  TLCEval([k \in 1 .. (Len(P) + n - 1) \div n |->
     SumFn([j \in 1 .. n |-> LET i == n * (k - 1) + j IN IF i > Len(P) THEN 0 ELSE P[i] * 2 ^ (8 - b * j)], n)])
Times(P, n) == TLCEval([i \in 1 .. n * Len(P) |-> P[((i - 1) \div n) + 1]])
Rev(P) == TLCEval([i \in 1 .. Len(P) |-> P[Len(P) + 1 - i]])
\* three bytes make a pixel
Tri(V) == TLCEval([i \in 1 .. Len(V) \div 3 |-> <<V[3 * i - 2], V[3 * i - 1], V[3 * i]>>])
Flat(P) == FlattenSeq(TLCEval(P))
BufBigger(V, n, b) == IF b = 24 THEN Flat(Times(Tri(V), n)) ELSE PackPx(Times(PxOf(V, b), n), b)
Flip(V, b) == IF b = 24 THEN Flat(Rev(Tri(V))) ELSE PackPx(Rev(PxOf(V, b)), b)
\* recorded: the lowest bit of each byte is lost
LoseLow(V) == [i \in 1 .. Len(V) |-> V[i] - (V[i] % 2)]
FlipAs(V, b, alt) == IF alt /\ b = 1 THEN Flip(LoseLow(V), 1) ELSE Flip(V, b)
EachByte(V, b) == [i \in 1 .. Len(V) |-> PackPx(Rev(PxOf(<<V[i]>>, b)), b)[1]]
PackEff(op, a, alt) ==
  CASE op = "packpixels" -> RSeq(PackPx(a[1], a[2]))
    [] op = "unpackpixels" -> RSeq(PxOf(a[1], a[2]))
    [] op = "packbitlisttobuf" -> RSeq(PackPx(a[1], 1))
    [] op = "unpack4bitbuf" -> RSeq(PxOf(a[1], 4))
    \* a pixel that fills half a byte only is left out
    [] op = "pack4bitbuf" -> RSeq(PackPx(SubSeq(a[1], 1, 2 * (Len(a[1]) \div 2)), 4))
    [] op = "unpack4bitbufresizeNtimesbigger" -> RSeq(Times(PxOf(a[1], 4), a[2]))
    [] op = "resizebitpattenNtimesbigger" -> RSeq(Times(PxOf(<<a[1]>>, 1), a[2]))
    [] op = "resizebufNtimesbigger" -> RSeq(BufBigger(a[1], a[2], a[3]))
    [] op = "resize1bitbufNtimesbigger" -> RSeq(BufBigger(a[1], a[2], 1))
    [] op = "resize4bitbufNtimesbigger" -> RSeq(BufBigger(a[1], a[2], 4))
    [] op = "resize8bitbufNtimesbigger" -> RSeq(BufBigger(a[1], a[2], 8))
    [] op = "resize24bitbufNtimesbigger" -> RSeq(BufBigger(a[1], a[2], 24))
    [] op = "flipbuf" -> RSeq(FlipAs(a[1], a[2], alt))
    [] op = "flip24bitbuf" -> RSeq(Flip(a[1], 24))
    [] op = "flipnibbleinbuf" -> RSeq(EachByte(a[1], 4))
    [] op = "rotatebitsinbuf" -> RSeq(EachByte(IF alt THEN LoseLow(a[1]) ELSE a[1], 1))
    [] op = "adjustbufsize" -> RInt((a[1] * a[2] + 7) \div 8)
    [] op = "adjustxbufsize" -> RInt(((a[2] - a[1] + 1) * a[3] + 7) \div 8)
    \* a[2]: palette of four bytes for each entry
    [] op = "convertbufto24bit" -> LET P == PxOf(a[1], a[3]) IN RSeq(Flat([i \in 1 .. Len(P) |-> SubSeq(a[2], 4 * P[i] + 1, 4 * P[i] + 3)]))
\* the mean of n x n pixels: rows a[1] of n * m pixels; obs decides between the two integers next to it
BufSmaller(V, obs) ==
  LET n == Len(V)  m == Len(V[1]) \div (3 * n)
      Ch(i, c) == SumFn([k \in 1 .. n * n |-> V[((k - 1) \div n) + 1][3 * (n * i + ((k - 1) % n)) + c]], n * n)
  IN  /\ Len(obs) = 3 * m
      /\ \A i \in 0 .. m - 1 : \A c \in 1 .. 3 : 2 * Abs(n * n * obs[3 * i + c] - Ch(i, c)) <= n * n

(* ---- buffers split ---------------------------------------------------- *)
\* every n-th item from the k-th on, of the whole groups of n
Part(V, n, k) == [i \in 1 .. Len(V) \div n |-> V[n * (i - 1) + k]]
SplitEff(op, a) ==
  CASE op = "altsplitbuf" -> <<Part(a[1], 2, 1), Part(a[1], 2, 2)>>
    [] op = "altsplitbuf3way" -> <<Part(a[1], 3, 1), Part(a[1], 3, 2), Part(a[1], 3, 3)>>
    [] op = "altsplitbufnway" -> [k \in 1 .. a[2] |-> Part(a[1], a[2], k)]
    [] op = "makeBGRbuf" -> [i \in 1 .. 3 * Len(a[1]) |-> a[((i - 1) % 3) + 1][((i - 1) \div 3) + 1]]
    [] op = "RGB2BGRbuf" -> Flat([i \in 1 .. Len(Tri(a[1])) |-> Rev(Tri(a[1])[i])]) \o SubSeq(a[1], 3 * (Len(a[1]) \div 3) + 1, Len(a[1]))
    [] op = "RGB2BGRAlist" -> [i \in 1 .. Len(a[1]) |-> Rev(a[1][i]) \o <<0>>]

(* ---- the image bytes of a bitmap -------------------------------------- *)
\* rows from the bottom, each filled up with zeros
RawBytes(im) ==
  LET R == RowBytes(im.w, im.b)
      Row(y) == SubSeq(im.px, y * im.w + 1, (y + 1) * im.w)
      RowUsed(W) == IF im.b = 24 THEN Flat([i \in 1 .. im.w |-> <<B8(W[i]), G8(W[i]), R8(W[i])>>]) ELSE PackPx(W, im.b)
      Fill(V) == V \o [i \in 1 .. R - Len(V) |-> 0]
      P(y) == TLCEval(Fill(TLCEval(RowUsed(TLCEval(Row(y))))))
  IN  Flat([k \in 1 .. im.h |-> P(im.h - k)])
\* the bitmap with these image bytes
OfBytes(im, V) ==
  LET R == RowBytes(im.w, im.b)  n == 8 \div im.b
      Px(x, y) == LET o == (im.h - 1 - y) * R IN
        IF im.b = 24 THEN Pack(V[o + 3 * x + 3], V[o + 3 * x + 2], V[o + 3 * x + 1])
        ELSE (V[o + (x \div n) + 1] \div 2 ^ (8 - im.b - im.b * (x % n))) % 2 ^ im.b
  IN  Mk(im, Px)
\* codes of the printed characters: rows from the top, all bytes of a row, a line break after each
BitsText(v) == [i \in 1 .. 8 |-> IF (v \div 2 ^ (8 - i)) % 2 = 1 THEN 42 ELSE 32]
CharsOf(v, b) == CASE b = 1 -> BitsText(v) [] b = 4 -> <<97 + v \div 16, 97 + (v % 16)>> [] b = 8 -> <<v>> [] OTHER -> <<>>
AsText1(im) ==
  LET V == TLCEval(RawBytes(im))  R == RowBytes(im.w, im.b)
  IN  Flat([y \in 1 .. im.h |-> Flat([x \in 1 .. R |-> CharsOf(V[(im.h - y) * R + x], im.b)]) \o <<10>>])
BltEff(op, im, a) ==
  LET V == TLCEval(RawBytes(im)) n == Len(V) IN
  CASE op = "BMPbitBLTget" -> IF a[1] >= 0 /\ a[2] > 0 /\ a[1] + a[2] <= n THEN Ret(im, RSeq(SubSeq(V, a[1] + 1, a[1] + a[2])))
                              ELSE [Reject(im, M_offset) EXCEPT !.ret = RSeq(<<>>)]
    [] op = "plotbmpastext" -> Ret(im, RSeq(AsText1(im)))
    [] op = "BMPbitBLTput" -> IF a[1] >= 0 /\ a[1] + Len(a[2]) <= n
                              THEN [Eff0(im) EXCEPT !.s = OfBytes(im, TLCEval([i \in 1 .. n |-> IF i > a[1] /\ i <= a[1] + Len(a[2]) THEN a[2][i - a[1]] ELSE V[i]]))]
                              ELSE Reject(im, M_offset)

(* ---- small tools ------------------------------------------------------ *)
\* pairs <<key, value>> by falling value, then falling key
Falling(D) == SortSeq([i \in 1 .. Len(D) |-> <<D[i][2], D[i][1]>>], LAMBDA u, v : u[1] > v[1] \/ (u[1] = v[1] /\ u[2] > v[2]))
ToolEff(op, a) ==
  CASE op = "enumletters" -> RSeq(a[1])
    [] op = "enumreverseletters" -> RSeq(Rev(a[1]))
    [] op = "char2int" -> RSeq(Trim(Limbs(a[1])))
    [] op = "dict2descorderlist" -> RSeq(Falling(a[1]))
    [] op = "iif" -> RInt(IF a[1] = 1 THEN a[2] ELSE a[3])
    [] op = "swapif" -> RSeq(IF a[3] = 1 THEN <<a[2], a[1]>> ELSE <<a[1], a[2]>>)
    [] op = "plotbitsastext" -> RSeq(BitsText(a[1]))
    [] op = "enumbits" -> RSeq(PxOf(<<a[1]>>, 1))
    [] op = "rotatebits" -> RInt(EachByte(<<a[1]>>, 1)[1])
    \* hours, minutes, seconds and nanoseconds of a time of a[1] seconds and a[2] nanoseconds
    [] op = "hhmmss" -> RSeq(<<a[1] \div 3600, (a[1] \div 60) % 60, a[1] % 60, a[2]>>)

BytesEff(e, im, alt) ==
  LET a == e.a IN
  CASE e.op \in IntOps -> Ret(im, RSeq(IntEff(e.op, a)))
    [] e.op = "resizesmaller24bitbuf" -> Ret(im, IF BufSmaller(a[1], e.ret.v) THEN AnyRet ELSE RSeq(<<"mean">>))
    [] e.op \in PackOps -> Ret(im, PackEff(e.op, a, alt))
    [] e.op \in SplitOps -> Ret(im, RSeq(SplitEff(e.op, a)))
    [] e.op \in BltOps -> BltEff(e.op, im, a)
    [] e.op = "rotatebits" /\ alt -> Ret(im, RInt(EachByte(LoseLow(<<a[1]>>), 1)[1]))
    [] e.op \in ToolOps -> Ret(im, ToolEff(e.op, a))
=============================================================================
