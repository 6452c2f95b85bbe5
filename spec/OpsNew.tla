------------------------------- MODULE OpsNew -------------------------------
(***************************************************************************)
(* Creating bitmaps, saving and loading them. Files are slots too.         *)
(***************************************************************************)
EXTENDS Core, Palettes

NewOps == {"newBMP", "CopyBMPxydim2newBMP", "copyBMPhdr", "copy", "saveBMP", "loadBMP", "poke",
           "isdefaultpal", "getallRGBpal", "getBMPimgbytes", "bignew", "bigfile"}

\* the remaining header bytes of a bitmap created by the library are zero
NewHx == "0"
Blank(w, h, b) == [w |-> w, h |-> h, b |-> b, pal |-> DefaultPal(b), hx |-> NewHx,
                   px |-> TLCEval([i \in 1 .. w * h |-> 0])]

\* the image part of the file: rows from the bottom, padded to a multiple of 4 bytes
ImgByte(im, y, j) ==
  CASE im.b = 24 -> IF j \div 3 >= im.w THEN 0
                    ELSE LET c == At(im, j \div 3, y) IN IF j % 3 = 0 THEN B8(c) ELSE IF j % 3 = 1 THEN G8(c) ELSE R8(c)
    [] im.b = 8 -> IF j >= im.w THEN 0 ELSE At(im, j, y)
    [] OTHER -> LET n == 8 \div im.b
                    V(i) == IF j * n + i < im.w THEN At(im, j * n + i, y) ELSE 0
                IN  FoldSeq(LAMBDA i, acc : acc * (2 ^ im.b) + V(i), 0, [i \in 1 .. n |-> i - 1])
ImgBytes(im) ==
  LET n == RowBytes(im.w, im.b)
  IN  [i \in 1 .. im.h * n |-> ImgByte(im, im.h - 1 - (i - 1) \div n, (i - 1) % n)]
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
\* the header of a bitmap, however big
Header54(w, h, b) ==
  <<66, 77>> \o LE4(FileSize(w, h, b)) \o LE4(0) \o LE4(HdrSize(b)) \o LE4(40) \o LE4(w) \o LE4(h) \o <<0, 0, b, 0>> \o [i \in 1 .. 24 |-> 0]
\* colour 1 at x, y: the only byte of the image that is not zero, and its value
BigByte(w, h, b, x, y) ==
  LET o == HdrSize(b) + (h - 1 - y) * RowBytes(w, b)
  IN  IF b = 24 THEN <<o + (3 * x), 1>>
      ELSE LET n == 8 \div b IN <<o + (x \div n), 2 ^ (b * (n - 1 - (x % n)))>>
RGBSeq(c) == <<R8(c), G8(c), B8(c)>>

NewEff(e, im, alt) ==
  LET a == e.a IN
  CASE e.op = "newBMP" -> New(im, Blank(a[1], a[2], a[3]))
    [] e.op = "CopyBMPxydim2newBMP" -> New(im, Blank(im.w, im.h, a[1]))
    \* a bitmap too big to be listed: its header, one pixel written and read, the bytes that change
    [] e.op = "bignew" ->
         Ret(im, RSeq(<<FileSize(a[1], a[2], a[3]), Header54(a[1], a[2], a[3]), 1, 1, BigByte(a[1], a[2], a[3], a[4], a[5]), <<a[1], a[2], a[3]>>>>))
    \* a large bitmap with one pixel set, saved and loaded: the file and what is loaded from it
    [] e.op = "bigfile" ->
         LET f == <<FileSize(a[1], a[2], a[3]), Header54(a[1], a[2], a[3]), 1, BigByte(a[1], a[2], a[3], a[4], a[5]), 1>>
         IN  Ret(im, RSeq(<<f, f>>))
    [] e.op = "copyBMPhdr" -> New(im, [im EXCEPT !.px = TLCEval([i \in 1 .. im.w * im.h |-> 0])])
    [] e.op = "isdefaultpal" -> Ret(im, RBool(im.pal = DefaultPal(im.b)))
    [] e.op = "getallRGBpal" -> Ret(im, RSeq([i \in 1 .. Len(im.pal) |-> RGBSeq(im.pal[i])]))
    [] e.op = "getBMPimgbytes" -> Ret(im, RSeq(ImgBytes(im)))
    \* the client copies a bitmap
    [] e.op = "copy" -> New(im, im)
    [] e.op = "saveBMP" -> [Eff0(im) EXCEPT !.d = im]
    [] e.op = "loadBMP" ->
         IF im.w = 0 THEN Reject(im, M_nofile)
         ELSE IF im.w < 0 THEN [Reject(im, M_notbmp) EXCEPT !.ret = RSeq(<<>>)]
         ELSE New(im, im)
=============================================================================
