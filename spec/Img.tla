-------------------------------- MODULE Img --------------------------------
(***************************************************************************)
(* Abstract state of one bitmap: an image is a record                      *)
(*   [w, h : width and height in pixels,                                   *)
(*    b    : bits per pixel, one of 1, 4, 8, 24,                           *)
(*    pal  : sequence of 2^b colours packed as 65536 R + 256 G + B         *)
(*           (empty when b = 24),                                          *)
(*    px   : sequence of w*h pixel values, row by row from the top; a      *)
(*           palette index, or a packed colour when b = 24]                *)
(* Coordinates count from 0 at the top left corner.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Bitwise

NoImg == [w |-> 0, hx |-> ""]          \* no bitmap, or no file

Idx(im, x, y) == y * im.w + x + 1
At(im, x, y)  == im.px[y * im.w + x + 1]
InB(im, x, y) == x >= 0 /\ y >= 0 /\ x < im.w /\ y < im.h
Cols(im) == 0 .. im.w - 1
Rows(im) == 0 .. im.h - 1

\* every pixel recomputed: F(x, y) is the new value
Mk(im, F(_, _)) ==
  [im EXCEPT !.px = TLCEval([i \in 1 .. im.w * im.h |-> F((i - 1) % im.w, (i - 1) \div im.w)])]
\* a new image of the same depth and palette with its own dimensions
MkDim(im, w, h, F(_, _)) ==
  [im EXCEPT !.w = w, !.h = h,
             !.px = TLCEval([i \in 1 .. w * h |-> F((i - 1) % w, (i - 1) \div w)])]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

NColors(b) == IF b = 24 THEN 16777216 ELSE 2 ^ b

\* the colour value as the pixel writer stores it
NormC(b, c) == CASE b = 24 -> c
                 [] b = 1  -> IF c > 0 THEN 1 ELSE 0
                 [] OTHER  -> c % (2 ^ b)
R8(c) == (c \div 65536) % 256
G8(c) == (c \div 256) % 256
B8(c) == c % 256
Pack(r, g, b) == r * 65536 + g * 256 + b
RGBof(im, v) == IF im.b = 24 THEN v ELSE im.pal[v + 1]

\* paint a set of points <<x, y>>; the points outside of the image are ignored
Paint(im, S, c) ==
  LET T == TLCEval({p[2] * im.w + p[1] + 1 : p \in {q \in S : InB(im, q[1], q[2])}})
  IN  IF T = {} THEN im
      ELSE [im EXCEPT !.px = TLCEval([i \in 1 .. im.w * im.h |-> IF i \in T THEN c ELSE im.px[i]])]

\* a well formed image: what every operation has to preserve
WellFormed(im) ==
  /\ im.w >= 1 /\ im.h >= 1 /\ im.b \in {1, 4, 8, 24}
  /\ Len(im.px) = im.w * im.h
  /\ \A i \in 1 .. Len(im.px) : im.px[i] >= 0 /\ im.px[i] < NColors(im.b)
  /\ Len(im.pal) = (IF im.b = 24 THEN 0 ELSE 2 ^ im.b)

\* file layout: header size, padded row size and file size
HdrSize(b) == IF b = 24 THEN 54 ELSE 54 + 4 * 2 ^ b
RowBytes(w, b) == ((w * b + 31) \div 32) * 4
FileSize(w, h, b) == HdrSize(b) + h * RowBytes(w, b)
=============================================================================
