------------------------------ MODULE OpsText -------------------------------
(***************************************************************************)
(* Text. A glyph is a sequence of rows of 8 bits, the leftmost pixel in    *)
(* the highest bit. Every set bit is a cell of scale x scale pixels, of    *)
(* which pixspace rows and columns at the right and bottom stay free; the  *)
(* cell is a square or a dot.                                              *)
(***************************************************************************)
EXTENDS OpsFile

\* style: of the glyph; flow: direction of the text; rev: from the last letter to the first
Sty(style, dots) == [style |-> style, dots |-> dots]
PatOps == [plot8bitpattern |-> Sty("plain", FALSE), plot8bitpatternasdots |-> Sty("plain", TRUE),
  plotitalic8bitpattern |-> Sty("ital", FALSE), plotitalic8bitpatternasdots |-> Sty("ital", TRUE),
  plotrotated8bitpattern |-> Sty("rot", FALSE), plotrotated8bitpatternasdots |-> Sty("rot", TRUE),
  plotreverseditalic8bitpattern |-> Sty("rotital", FALSE), plotreverseditalic8bitpatternasdots |-> Sty("rotital", TRUE),
  plot8bitpatternupsidedown |-> Sty("up", FALSE), plot8bitpatternupsidedownasdots |-> Sty("up", TRUE),
  plotupsidedownitalic8bitpattern |-> Sty("upital", FALSE), plotupsidedownitalic8bitpatternasdots |-> Sty("upital", TRUE),
  plotitalic8bitpatternupdsidedownasdots |-> Sty("upital", TRUE),
  plot8bitpatternsideway |-> Sty("side", FALSE), plot8bitpatternsidewaywithdots |-> Sty("side", TRUE),
  plotitalic8bitpatternsideway |-> Sty("sideital", FALSE), plotitalic8bitpatternsidewayasdots |-> Sty("sideital", TRUE)]
Txt(style, dots, flow, rev) == [style |-> style, dots |-> dots, flow |-> flow, rev |-> rev]
StrOps == [plotstring |-> Txt("plain", FALSE, "row", FALSE), plotstringasdots |-> Txt("plain", TRUE, "row", FALSE),
  plotitalicstring |-> Txt("ital", FALSE, "row", FALSE), plotitalicstringasdots |-> Txt("ital", TRUE, "row", FALSE),
  plotreversestring |-> Txt("rot", FALSE, "row", TRUE), plotreversestringasdots |-> Txt("rot", TRUE, "row", TRUE),
  plotreverseditalicstring |-> Txt("rotital", FALSE, "row", TRUE), plotreverseditalicstringasdots |-> Txt("rotital", TRUE, "row", TRUE),
  plotstringupsidedown |-> Txt("up", FALSE, "row", TRUE), plotstringupsidedownasdots |-> Txt("up", TRUE, "row", FALSE),
  plotupsidedownitalicstring |-> Txt("upital", FALSE, "row", TRUE), plotupsidedownitalicstringasdots |-> Txt("upital", TRUE, "row", TRUE),
  plotstringsideway |-> Txt("side", FALSE, "up", FALSE), plotstringsidewayasdots |-> Txt("side", TRUE, "up", FALSE),
  plotitalicstringsideway |-> Txt("sideital", FALSE, "up", FALSE), plotitalicstringsidewayasdots |-> Txt("sideital", TRUE, "up", FALSE),
  plotstringvertical |-> Txt("plain", FALSE, "col", FALSE), plotstringverticalasdots |-> Txt("plain", TRUE, "col", FALSE),
  plotitalicstringvertical |-> Txt("ital", FALSE, "col", FALSE), plotitalicstringverticalasdots |-> Txt("ital", TRUE, "col", FALSE)]
Str2Ops == [plotstring2file |-> Txt("plain", FALSE, "row", FALSE), plotstringasdots2file |-> Txt("plain", TRUE, "row", FALSE),
  plotitalicstring2file |-> Txt("ital", FALSE, "row", FALSE), plotitalicstringasdots2file |-> Txt("ital", TRUE, "row", FALSE),
  plotreversedstring2file |-> Txt("rot", FALSE, "row", TRUE), plotreversedstringasdots2file |-> Txt("rot", TRUE, "row", TRUE),
  plotreverseditalicstring2file |-> Txt("rotital", FALSE, "row", TRUE),
  plotupsidedownstring2file |-> Txt("up", FALSE, "row", TRUE), plotupsidedownstringasdots2file |-> Txt("up", TRUE, "row", TRUE),
  plotverticalstring2file |-> Txt("plain", FALSE, "col", FALSE), plotverticalstringasdots2file |-> Txt("plain", TRUE, "col", FALSE),
  plotverticalitalicstring2file |-> Txt("ital", FALSE, "col", FALSE), plotverticalitalicstringasdots2file |-> Txt("ital", TRUE, "col", FALSE)]
TextOps == DOMAIN PatOps \cup DOMAIN StrOps \cup DOMAIN Str2Ops \cup {"plot8bitpatternastext", "getcharfont", "computetextrowandcolcnt"}

(* ---- one glyph ------------------------------------------------------- *)
Half(u, k) == ((u + k) \div 2) - (u \div 2)      \* even numbers among u+1 .. u+k
\* leaning: the rows of an upright glyph move half a cell left each
Lean(s, u, k) == IF s > 1 THEN k * (s \div 2) ELSE Half(u, k)
LeanTop(s, h) == IF s > 1 THEN h * (s \div 2) ELSE h \div 2
\* place of column c of row r (as displayed)
CellAt(style, x, y, h, s, r, c) ==
  CASE style \in {"plain", "rot", "up"} -> <<x + c * s, y + r * s>>
    [] style \in {"ital", "rotital"} -> <<x + c * s + LeanTop(s, h) - Lean(s, y, r), y + r * s>>
    [] style = "upital" -> <<x + c * s - Lean(s, y, r), y + r * s>>
    [] style = "side" -> <<x + r * s, y - c * s>>
    [] style = "sideital" -> <<x + r * s, y - c * s + Lean(s, x, r)>>
\* alt is a recorded finding: mirrored glyphs lack their first column
Lit(style, g, r, c, alt) ==
  CASE style \in {"rot", "rotital"} -> (g[r + 1] \div 2 ^ c) % 2 = 1 /\ ~(alt /\ c = 0)
    [] style \in {"up", "upital"} -> (g[Len(g) - r] \div 2 ^ (7 - c)) % 2 = 1
    [] OTHER -> (g[r + 1] \div 2 ^ (7 - c)) % 2 = 1
\* pixels of the cell at p
CellPts(im, p, s, sp, dots, alt) ==
  LET i == s - 1 - sp IN
  IF i <= 0 THEN {p}
  ELSE IF dots THEN DiscSet(im, p[1] + (i \div 2), p[2] + (i \div 2), i \div 2, alt)
  ELSE IF RectIn(im, p[1], p[2], p[1] + i, p[2] + i)
       THEN UNION {ISpan(im, y, p[1], p[1] + i, alt) : y \in p[2] .. p[2] + i} ELSE {}
\* pixels of those rows of the glyph that have color number k of n
GlyphPts(im, t, x, y, g, s, sp, k, n, alt) ==
  UNION {UNION {IF Lit(t.style, g, r, c, alt) THEN CellPts(im, CellAt(t.style, x, y, Len(g), s, r, c), s, sp, t.dots, alt) ELSE {}
                  : c \in 0 .. 7} : r \in {r \in 0 .. Len(g) - 1 : r % n = k}}
\* squares of more than one pixel are filled rectangles
CellColor(im, c, s, sp, dots) ==
  IF s - 1 - sp <= 0 \/ dots THEN NormC(im.b, c) ELSE RectColor(im, c)

(* ---- the places of the letters --------------------------------------- *)
\* X, Y: advance of a letter; the line break goes back and moves by NX, NY
RECURSIVE Places(_, _, _, _, _, _, _)
Places(codes, i, p, o, A, N, acc) ==
  IF i > Len(codes) THEN acc
  ELSE CASE codes[i] = 10 -> LET q == <<o[1] + N[1], o[2] + N[2]>> IN Places(codes, i + 1, q, q, A, N, Append(acc, q))
         [] codes[i] = 9 -> Places(codes, i + 1, <<p[1] + 4 * A[1], p[2] + 4 * A[2]>>, o, A, N, Append(acc, p))
         [] OTHER -> Places(codes, i + 1, <<p[1] + A[1], p[2] + A[2]>>, o, A, N, Append(acc, p))

\* text painted with the colors cs: row r of every glyph has color r mod n
Text(im, t, x, y, codes0, s, sp, gap, cs, h, glyphs0, alt) ==
  LET codes == IF t.rev THEN Reverse(codes0) ELSE codes0
      glyphs == IF t.rev THEN Reverse(glyphs0) ELSE glyphs0
      q == IF gap = 0 THEN 1 ELSE gap
      xs == 8 * s + q
      ys == h * s + q
      A == CASE t.flow = "row" -> <<xs, 0>> [] t.flow = "col" -> <<0, ys>> [] t.flow = "up" -> <<0, -xs>>
      N == CASE t.flow = "row" -> <<0, ys>> [] t.flow = "col" -> <<xs, 0>> [] t.flow = "up" -> <<ys, 0>>
      P == TLCEval(Places(codes, 1, <<x, y>>, <<x, y>>, A, N, <<>>))
      One(k) == UNION {IF codes[i] \in {9, 10} THEN {}
                       ELSE GlyphPts(im, t, P[i][1], P[i][2], glyphs[i], s, sp, k, Len(cs), alt) : i \in 1 .. Len(codes)}
  IN  FoldSeq(LAMBDA k, acc : Paint(acc, One(k), CellColor(im, cs[k + 1], s, sp, t.dots)), im, [k \in 1 .. Len(cs) |-> k - 1])

\* lengths of the lines of a text, a tab counting four
RECURSIVE LineLens(_, _, _)
LineLens(codes, i, n) ==
  IF i > Len(codes) THEN <<n>>
  ELSE IF codes[i] = 10 THEN <<n>> \o LineLens(codes, i + 1, 0)
  ELSE LineLens(codes, i + 1, n + (IF codes[i] = 9 THEN 4 ELSE 1))
TextDim(codes) == LET L == LineLens(codes, 1, 0) IN <<Max({L[i] : i \in 1 .. Len(L)}), Len(L)>>

\* a new bitmap just large enough for the text
TextFile(t, codes, s, sp, gap, cs, h, glyphs, bg, b, alt) ==
  LET D == TextDim(codes)
      q == IF gap = 0 THEN 1 ELSE gap
      cw == IF t.flow = "row" THEN D[1] ELSE D[2]
      ch == IF t.flow = "row" THEN D[2] ELSE D[1]
      w == cw * (8 * s + q) + 2 * s + (IF t.style \in {"ital", "rotital"} THEN LeanTop(s, h) ELSE 0)
      N == Blank(w, ch * (h * s + q) + 2 * s, b)
      G == IF bg = 0 THEN N
           ELSE Paint(N, UNION {ISpan(N, y, 0, N.w - 1, alt) : y \in 0 .. N.h - 1}, RectColor(N, bg))
  IN  Text(G, t, s, s, codes, s, sp, gap, cs, h, glyphs, alt)

AsText(g, one, zero) ==
  FoldSeq(LAMBDA r, acc : acc \o FoldSeq(LAMBDA c, a2 : a2 \o (IF (r \div 2 ^ (7 - c)) % 2 = 1 THEN one ELSE zero), "", <<0, 1, 2, 3, 4, 5, 6, 7>>) \o "\n", "", g)

TextEff(e, im, alt) ==
  LET a == e.a IN
  CASE e.op \in DOMAIN PatOps ->
         LET t == [style |-> PatOps[e.op].style, dots |-> PatOps[e.op].dots, flow |-> "row", rev |-> FALSE]
         IN  InPlace(Text(im, t, a[1], a[2], <<0>>, a[4], a[5], 1, a[6], Len(a[3]), <<a[3]>>, alt))
    [] e.op \in DOMAIN StrOps ->
         InPlace(Text(im, StrOps[e.op], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], alt))
    [] e.op \in DOMAIN Str2Ops ->
         [Eff0(im) EXCEPT !.d = TextFile(Str2Ops[e.op], a[1], a[2], a[3], a[4], a[5], a[8], a[9], a[6], a[7], alt)]
    [] e.op = "plot8bitpatternastext" -> Ret(im, [k |-> "str", v |-> AsText(a[1], a[2], a[3])])
    [] e.op = "getcharfont" -> Ret(im, RSeq(a[2]))
    [] e.op = "computetextrowandcolcnt" -> Ret(im, RSeq(TextDim(a[1])))
=============================================================================
