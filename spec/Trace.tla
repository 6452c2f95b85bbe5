------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: every event recorded from the real library has to be  *)
(* the step that the specification defines from the state reached so far.  *)
(* st maps each slot (bitmaps in memory and files) to its abstract image.  *)
(* The verdict is total: an event that is not explained is reported with   *)
(* the clause that fails and the rest of its session is skipped.           *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
Slots == 1 .. 16

VARIABLES l, st, skip
vars == <<l, st, skip>>

Chg(e) == {i \in 1 .. Len(e.chg) : TRUE}
ChgSlots(e) == {e.chg[i].k : i \in 1 .. Len(e.chg)}

\* logged images name an unchanged palette by the slot that had it before
Logged(e, i, S) ==
  LET c == e.chg[i] IN
  IF c.w <= 0 THEN [w |-> c.w, hx |-> c.hx]
  ELSE [w |-> c.w, h |-> c.h, b |-> c.b, hx |-> c.hx, px |-> c.px,
        pal |-> IF c.pk = 0 THEN c.pal ELSE S[c.pk].pal]

After(e, S) ==
  [k \in Slots |-> IF k \in ChgSlots(e)
                   THEN Logged(e, CHOOSE i \in 1 .. Len(e.chg) : e.chg[i].k = k, S) ELSE S[k]]

HdrOK(e) ==
  \A i \in 1 .. Len(e.chg) :
    LET c == e.chg[i] IN
    c.w > 0 => /\ c.bad = ""
               /\ c.len = FileSize(c.w, c.h, c.b)
               /\ c.fs = c.len /\ c.off = HdrSize(c.b) /\ c.dib = 40

SameMsg(e, m) ==
  \A x \in (m \ {e.msg[i] : i \in 1 .. Len(e.msg)}) \cup ({e.msg[i] : i \in 1 .. Len(e.msg)} \ m) :
     (x = M_line /\ e.op \in ClipOps) \/ (x = M_region /\ e.op \in TextOps \cup {"piechart", "numbervert", "XYaxis"})

RetOK(e, r) == r.k = "any" \/ (e.ret.k = r.k /\ e.ret.v = r.v)

\* the clause of the specification that event e, leading from S to Z, does not meet
Clause(e, S, Z, eff) ==
  IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF ~HdrOK(e) THEN "header"
  ELSE IF ~SameMsg(e, eff.msg) THEN "message"
  ELSE IF ~RetOK(e, eff.ret) THEN "result"
  ELSE IF \E k \in Slots : k # e.s /\ k # e.d /\ Z[k] # S[k] THEN "another bitmap changed"
  ELSE IF e.d # 0 /\ e.d # e.s /\ Z[e.d] # (IF eff.d = NoImg THEN S[e.d] ELSE eff.d) THEN "new bitmap"
  ELSE IF Z[e.s] # (IF e.d = e.s /\ eff.d # NoImg THEN eff.d ELSE eff.s) THEN "bitmap"
  ELSE ""

Verdict(e, S, Z) ==
  LET c == Clause(e, S, Z, Eff(e, S, Z, FALSE)) IN
  IF c = "" THEN <<"ok", "">>
  ELSE IF e.kf = "" THEN <<"bad", c>>
  ELSE IF Clause(e, S, Z, Eff(e, S, Z, TRUE)) = "" THEN <<"kf", e.kf>> ELSE <<"bad", c>>

Init == l = 1 /\ st = [k \in Slots |-> NoImg] /\ skip = FALSE

Step(e) ==
  CASE e.op = "reset" -> st' = [k \in Slots |-> NoImg] /\ skip' = FALSE
    [] e.op # "reset" /\ skip -> st' = st /\ skip' = TRUE
    \* the client changed a bitmap itself: the new state is an input of the session
    [] e.op = "poke" /\ ~skip -> st' = After(e, st) /\ skip' = FALSE
    [] OTHER ->
         LET Z == TLCEval(After(e, st))
             v == Verdict(e, st, Z)
         IN  /\ (IF v[1] = "ok" THEN TRUE ELSE PrintT(<<"VERDICT", e.i, v[1], v[2]>>))
             /\ st' = Z /\ skip' = (v[1] = "bad")

Next == l <= N /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars

View == l
Where == [l |-> l]
Consumed == TLCGet("stats").diameter - 1 = N
=============================================================================
