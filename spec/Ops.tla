-------------------------------- MODULE Ops --------------------------------
EXTENDS OpsPoint

\* figures that may report, or not, that some of their lines are clipped away
ClipOps == (DrawOps \ {"horiline", "vertline"}) \cup GradPen \cup {"plotimgedges", "imgregionbyRGB2file",
            "rectangle2file", "circle2file", "filledcircle2file", "sphere2file", "thickencirclearea2file"} \cup TextOps \cup CurveDraw \cup SolidDraw \cup ChartDraw

\* the effect of event e in state S; Z is the observed state afterwards, of interest
\* only where an effect leaves a choice (rounding of inexact computations)
Eff(e, S, Z, alt) ==
  LET im == S[e.s] IN
  CASE "nt" \in DOMAIN e -> GuardEff(e, im)
    [] e.op \in DrawOps -> DrawEff(e, im, alt)
    [] e.op \in NewOps  -> NewEff(e, im, alt)
    [] e.op \in XformOps -> XformEff(e, im, alt)
    [] e.op \in ColorOps -> ColorEff(e, im, Z[e.s], alt)
    [] e.op \in PalDepthOps -> PalEff(e, im, IF e.d = 0 THEN NoImg ELSE S[e.d], Z[e.s], IF e.d = 0 THEN NoImg ELSE Z[e.d], alt)
    [] e.op \in MiscOps -> MiscEff(e, im, IF e.s2 = 0 THEN NoImg ELSE S[e.s2], alt)
    [] e.op \in FileOps -> FileEff(e, im, Z[e.d], alt)
    [] e.op \in TextOps -> TextEff(e, im, alt)
    [] e.op \in FracOps -> FracEff(e, im, Z[e.s], IF e.d = 0 THEN NoImg ELSE Z[e.d], alt)
    [] e.op \in SolidOps -> SolidEff(e, im, Z[e.s], alt)
    [] e.op \in LaunchOps -> LaunchEff(e, im)
    [] e.op \in MathOps -> MathEff(e, im)
    [] e.op \in HueFns -> HueEff(e, im)
    [] e.op \in PointOps -> PointEff(e, im, alt)
    [] e.op \in AttrOps -> AttrEff(e, im, Z[e.s], IF e.d = 0 THEN NoImg ELSE Z[e.d], alt)
    [] e.op \in BytesOps -> BytesEff(e, im, alt)
    [] e.op \in ChartOps -> ChartEff(e, im, Z[e.s], alt)
    [] e.op \in CurveOps -> CurveEff(e, im, Z[e.s], IF e.d = 0 THEN NoImg ELSE Z[e.d], alt)
=============================================================================
