------------------------------ MODULE OpsGuard ------------------------------
(***************************************************************************)
(* Which calls are rejected before anything is done. The guard of an       *)
(* operation looks at the depth of the bitmap, then at the types of the    *)
(* coordinates, then at their place. An event with arguments that are not  *)
(* integers carries their positions in e.nt.                               *)
(***************************************************************************)
EXTENDS OpsMisc

Rect == [nargs |-> 4, depths |-> {1, 4, 8, 24}]
Circ == [nargs |-> 3, depths |-> {1, 4, 8, 24}]
Only(g, D) == [g EXCEPT !.depths = D]

GuardOf(op) ==
  CASE op \in {"filledgradrect"} -> Only(Rect, {8, 24})
    [] op \in {"filleddichromaticgradrect", "monofilterto24bitregion", "colorfilterto24bitregion", "brightnesseadjto24bitregion",
               "thresholdadjto24bitregion", "gammaadjto24bitregion", "verticalbrightnessgradto24bitregion",
               "horizontalbrightnessgradto24bitregion"} -> Only(Rect, {24})
    [] op \in {"monocircle", "colorfiltercircregion", "gammacorrectcircregion", "brightnessadjcircregion", "thresholdadjcircregion",
               "vertbrightnessgrad2circregion", "horibrightnessgrad2circregion", "magnifyNtimescircregion",
               "pixelizenxncircregion"} -> Only(Circ, {24})
    [] op \in {"fliphoricircregion", "mirrorleftincircregion", "mirrorrightincircregion"} \cup DOMAIN CircCorner -> Only(Circ, {8, 24})
    [] op \in {"flipXYcircregion", "flipvertcircregion", "mirrortopincircregion", "mirrorbottomincircregion", "copycircregion",
               "invertbitsincircregion", "outlinecircregion", "sphere", "thickencirclearea", "drawarc",
               "erasealternatehorizontallinesincircregion", "eraseeverynthhorizontallineinccircregion"} -> Circ
    [] OTHER -> Rect

\* the message for a depth that is not supported
DepthMsg(D) == IF D = {24} THEN M_24 ELSE M_24or8

GuardMsgs(op, im) ==
  LET g == GuardOf(op) IN
  (IF im.b \notin g.depths THEN {DepthMsg(g.depths)} ELSE {M_int})
  \cup (IF op = "copycircregion" THEN {M_buf} ELSE {})

GuardEff(e, im) == WithMsg(InPlace(im), GuardMsgs(e.op, im))
=============================================================================
