-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* Vocabulary of the operations: an operation event e acts on a source     *)
(* slot e.s and possibly creates or replaces the bitmap of a slot e.d.     *)
(* Its effect is a record                                                  *)
(*   [s : bitmap of slot e.s afterwards,                                   *)
(*    d : bitmap of slot e.d afterwards (NoImg when there is none),        *)
(*    ret : returned value [k |-> kind, v |-> value],                      *)
(*    msg : set of error messages printed]                                 *)
(***************************************************************************)
EXTENDS Geom

None == [k |-> "none", v |-> 0]
AnyRet == [k |-> "any", v |-> 0]
RInt(n) == [k |-> "int", v |-> n]
RBool(b) == [k |-> "bool", v |-> IF b THEN 1 ELSE 0]
RSeq(s) == [k |-> "seq", v |-> s]
RImg == [k |-> "img", v |-> 0]

Eff0(im) == [s |-> im, d |-> NoImg, ret |-> None, msg |-> {}]
InPlace(im) == Eff0(im)
Ret(im, r) == [Eff0(im) EXCEPT !.ret = r]
New(im, out) == [Eff0(im) EXCEPT !.d = out, !.ret = RImg]
Reject(im, m) == [Eff0(im) EXCEPT !.msg = {m}]
WithMsg(eff, M) == [eff EXCEPT !.msg = M]

M_24       == "Error: Not a 24-bit BMP!"
M_is24     == "Error: Already a 24-bit BMP!"
M_24or8    == "Error: Not a 24-bit or 8-bit BMP!"
M_4or8     == "Error: Not a 4-bit or 8-bit BMP!"
M_region   == "Error: Region is out of bounds!"
M_line     == "Error: line is out of bounds!"
M_offset   == "Error: Invalid offset!"
M_bits     == "Error: bits not equal!"
M_buf      == "Error: Not a valid buffer!"
M_nofile   == "Error: Not a file or file does not exist!"
M_notbmp   == "Error: Not a BMP file!"
M_int      == "Error: Parameter(s) must be int"
M_direxist == "Error: directory exist!"

\* guards shared by the operations
RectIn(im, x1, y1, x2, y2) == InB(im, x1, y1) /\ InB(im, x2, y2)
GRect(im, a, k, E) ==
  IF RectIn(im, a[k], a[k + 1], a[k + 2], a[k + 3]) THEN E ELSE Reject(im, M_region)
G24Rect(im, a, E) ==
  IF im.b # 24 THEN Reject(im, M_24) ELSE GRect(im, a, 1, E)
G824Rect(im, a, E) ==
  IF im.b \notin {8, 24} THEN Reject(im, M_24or8) ELSE GRect(im, a, 1, E)
GCirc(im, a, E) ==
  IF EntireCirc(im, a[1], a[2], a[3]) THEN E ELSE Reject(im, M_region)
G24Circ(im, a, E) == IF im.b # 24 THEN Reject(im, M_24) ELSE GCirc(im, a, E)
G824Circ(im, a, E) == IF im.b \notin {8, 24} THEN Reject(im, M_24or8) ELSE GCirc(im, a, E)
G24(im, E) == IF im.b # 24 THEN Reject(im, M_24) ELSE E
G824(im, E) == IF im.b \notin {8, 24} THEN Reject(im, M_24or8) ELSE E
G48(im, E) == IF im.b \notin {4, 8} THEN Reject(im, M_4or8) ELSE E

\* nearest entry of a palette, as the library defines it: an exact match wins;
\* otherwise the first nearest entry among those that are not black
Dist2(c, d) == (R8(c) - R8(d)) * (R8(c) - R8(d)) + (G8(c) - G8(d)) * (G8(c) - G8(d))
               + (B8(c) - B8(d)) * (B8(c) - B8(d))
Nearest(pal, c) ==
  LET n == Len(pal)
      ex == {i \in 1 .. n : pal[i] = c}
      D == TLCEval([i \in 1 .. n |-> Dist2(pal[i], c)])
      cand == {i \in 1 .. n : pal[i] # 0 /\ D[i] < 442 * 442}
  IN  IF ex # {} THEN Min(ex) - 1
      ELSE IF c = 0 \/ cand = {} THEN 0
      ELSE LET m == Min({D[i] : i \in cand}) IN Min({i \in cand : D[i] = m}) - 1
=============================================================================
