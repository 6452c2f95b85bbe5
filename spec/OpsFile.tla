------------------------------ MODULE OpsFile -------------------------------
(***************************************************************************)
(* Operations on files: x2file reads the file of slot e.s, works on the    *)
(* bitmap as the operation x in memory does and writes the file of slot    *)
(* e.d. The first file is never changed unless it is also the second.      *)
(***************************************************************************)
EXTENDS OpsGuard

\* operations that change the bitmap and write it in any case
FilePlain == [invertbits2file |-> "invertimagebits", flipvertical2file |-> "flipvertical", mirrortop2file |-> "mirrortop",
  mirrortopleft2file |-> "mirrortopleft", mirrortopright2file |-> "mirrortopright", mirrorbottomleft2file |-> "mirrorbottomleft",
  mirrorbottomright2file |-> "mirrorbottomright", mirrorbottom2file |-> "mirrorbottom", mirrorleft2file |-> "mirrorleft",
  mirrorright2file |-> "mirrorright", fliphorizontal2file |-> "fliphorizontal", palshift2file |-> "palshift",
  flipverticalregion2file |-> "flipverticalregion", fliphorizontalregion2file |-> "fliphorizontalregion",
  mirrorleftinregion2file |-> "mirrorleftinregion", mirrorrightinregion2file |-> "mirrorrightinregion",
  mirrortopinregion2file |-> "mirrortopinregion", mirrorbottominregion2file |-> "mirrorbottominregion",
  mirrortopleftinregion2file |-> "mirrortopleftinregion", mirrortoprightinregion2file |-> "mirrortoprightinregion",
  mirrorbottomleftinregion2file |-> "mirrorbottomleftinregion", mirrorbottomrightinregion2file |-> "mirrorbottomrightinregion",
  invertregion2file |-> "invertregion", eraseeverynthhorilineinregion2file |-> "eraseeverynthhorilineinregion",
  rectangle2file |-> "rectangle", filledrect2file |-> "filledrect", filledgradrect2file |-> "filledgradrect",
  filleddichromaticgradrect2file |-> "filleddichromaticgradrect", eraseeverynthhoriline2file |-> "eraseeverynthhorizontalline",
  outlineregion2file |-> "outlineregion", outline2file |-> "outline", invertbitsincircregion2file |-> "invertbitsincircregion",
  filledcircle2file |-> "filledcircle", circle2file |-> "circle", flipvertcircregion2file |-> "flipvertcircregion",
  eraseeverynthhorilineinccircregion2file |-> "eraseeverynthhorizontallineinccircregion",
  mirrortopincircregion2file |-> "mirrortopincircregion", mirrorbottomincircregion2file |-> "mirrorbottomincircregion",
  mirrorleftincircregion2file |-> "mirrorleftincircregion", mirrorrightincircregion2file |-> "mirrorrightincircregion",
  mirrortopleftincircregion2file |-> "mirrortopleftincircregion", mirrorbottomleftincircregion2file |-> "mirrorbottomleftincircregion",
  mirrortoprightincircregion2file |-> "mirrortoprightincircregion",
  mirrorbottomrightincircregion2file |-> "mirrorbottomrightincircregion", fliphoricircregion2file |-> "fliphoricircregion",
  outlinecircregion2file |-> "outlinecircregion", flipXYcircregion2file |-> "flipXYcircregion",
  magnifyNtimescircregion2file |-> "magnifyNtimescircregion", pixelizenxncircregion2file |-> "pixelizenxncircregion",
  copycircregion2file |-> "copycircregion"]
\* for 24-bit files only
File24 == [adjustbrightnessinregion2file |-> "brightnesseadjto24bitregion", adjustthresholdinregion2file |-> "thresholdadjto24bitregion",
  colorfilterinregion2file |-> "colorfilterto24bitregion", monofilterinregion2file |-> "monofilterto24bitregion",
  gammaadjtoregion2file |-> "gammaadjto24bitregion", monochromecircregion2file |-> "monocircle",
  colorfiltercircregion2file |-> "colorfiltercircregion", thresholdadjcircregion2file |-> "thresholdadjcircregion",
  gammacorrectcircregion2file |-> "gammacorrectcircregion", brightnessadjcircregion2file |-> "brightnessadjcircregion",
  vertbrightnessgrad2circregion2file |-> "vertbrightnessgrad2circregion",
  horibrightnessgrad2circregion2file |-> "horibrightnessgrad2circregion", sphere2file |-> "sphere",
  thickencirclearea2file |-> "thickencirclearea",
  horizontalbrightnessgrad2file |-> "horizontalbrightnessgradto24bitimage",
  horizontalbrightnessgradregion2file |-> "horizontalbrightnessgradto24bitregion",
  verticalbrightnessgrad2file |-> "verticalbrightnessgradto24bitimage",
  verticalbrightnessgradregion2file |-> "verticalbrightnessgradto24bitregion"]
\* that write a new bitmap
FileNew == [flipXY2file |-> "flipXY", upgradeto24bitimage2file |-> "upgradeto24bitimage"]
FileNew24 == [pixelizenxntofile |-> "pixelizenxn", resizeNtimessmaller2file |-> "resizeNtimessmaller",
  resizeNtimesbigger2file |-> "resizeNtimesbigger"]
\* adjust the pixels of a 24-bit bitmap, and the palette of another one
FileAdj == [adjustbrightness2file |-> "brightnesseadjto24bitimage", thresholdadjust2file |-> "thresholdadjto24bitimage",
  colorfilter2file |-> "colorfilterto24bitimage", monochrome2file |-> "monofilterto24bitimage", gammaadj2file |-> "gammaadjto24bitimage"]
FileOps == DOMAIN FilePlain \cup DOMAIN File24 \cup DOMAIN FileNew \cup DOMAIN FileNew24 \cup DOMAIN FileAdj

(* ---- adjusted palettes ------------------------------------------------ *)
Scaled(c, l, m, o) ==
  LET F(v) == Near(v * l, m, Pow2(m) \/ v = m \/ v = 0) IN Pick3(o, F(R8(c)), F(G8(c)), F(B8(c)))
ThreshPal(c, lr, o) ==
  LET p == Clamp(lr[1], 0, 255)  q == Clamp(lr[2], 0, 255)
      a == Min2(p, q)  b == Max2(p, q)  m == Max2(1, MaxC(c))
  IN  Scaled(c, Clamp(m, a, b), m, o)
GammaPal(c, g, o) ==
  LET m == Max2(1, MaxC(c))
      F(v) == UNION {Near(v * l, m, Pow2(m) \/ v = m \/ v = 0) : l \in GamLum(m, g)}
  IN  Pick3(o, F(R8(c)), F(G8(c)), F(B8(c)))
MonoPal1(c) == LET m == RoundDiv(R8(c) + G8(c) + B8(c), 3) IN Pack(m, m, m)
AdjPal(kind, c, p, o) ==
  CASE kind = 1 -> MonoPal1(c)
    [] kind = 2 -> Filter(c, p, o)
    [] kind = 3 -> BrightX(c, p[1], p[2], o, FALSE)
    [] kind = 4 -> ThreshPal(c, p, o)
    [] kind = 5 -> GammaPal(c, p, o)

(* ---- the effect ------------------------------------------------------- *)
BaseEff(e, im, O, alt) ==
  CASE e.op \in DrawOps -> DrawEff(e, im, alt)
    [] e.op \in NewOps  -> NewEff(e, im, alt)
    [] e.op \in XformOps -> XformEff(e, im, alt)
    [] e.op \in ColorOps -> ColorEff(e, im, O, alt)
    [] e.op \in PalDepthOps -> PalEff(e, im, NoImg, O, NoImg, alt)
    [] e.op \in MiscOps -> MiscEff(e, im, NoImg, alt)

\* what the operation leaves is written to the second file
Saved(im, E) == [Eff0(im) EXCEPT !.d = IF E.d = NoImg THEN E.s ELSE E.d, !.msg = E.msg]
FileEff(e, im, O, alt) ==
  LET Run(b) == Saved(im, BaseEff([e EXCEPT !.op = b], im, O, alt)) IN
  IF im.w = 0 THEN Reject(im, M_nofile)
  ELSE CASE e.op \in DOMAIN FilePlain -> Run(FilePlain[e.op])
         [] e.op \in DOMAIN FileNew -> Run(FileNew[e.op])
         [] e.op \in DOMAIN File24 -> G24(im, Run(File24[e.op]))
         [] e.op \in DOMAIN FileNew24 -> G24(im, Run(FileNew24[e.op]))
         [] e.op \in DOMAIN FileAdj ->
              IF im.b = 24 THEN Run(FileAdj[e.op])
              ELSE LET Q == PalObs(im, O)
                       p == IF Len(e.a) = 0 THEN 0 ELSE e.a[1]
                   IN  [Eff0(im) EXCEPT !.d = [im EXCEPT !.pal =
                          TLCEval([i \in 1 .. Len(im.pal) |-> AdjPal(Kind(FileAdj[e.op]), im.pal[i], p, Q.pal[i])])]]
=============================================================================
