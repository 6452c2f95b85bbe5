------------------------------- MODULE MCHist -------------------------------
(***************************************************************************)
(* The system with bitmaps in memory and files: all histories of a given   *)
(* length over a small alphabet. Each is performed as a whole on the real  *)
(* library, so that state that an implementation hides (shared buffers,    *)
(* caches, open files) is reached by every way that leads to it.           *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

Gen == IOEnv.GEN = "1"
What == IOEnv.MCWHAT
Depth == CASE IOEnv.MCSIZE = "d2" -> 2 [] IOEnv.MCSIZE = "d3" -> 3 [] IOEnv.MCSIZE = "d4" -> 4 [] OTHER -> 5
\* bitmaps 1, 2; files 9, 10; 11 is a file that is no bitmap, 12 does not exist
Slots == {1, 2, 9, 10, 11, 12}
Mem == {1, 2}
VARIABLES sl, hist

Ev(op, a, s, d) == [op |-> op, a |-> a, s |-> s, d |-> d, s2 |-> 0, kf |-> "", ret |-> None, msg |-> <<>>]
NoBmp == [w |-> -1, hx |-> "0"]
Init == /\ hist = <<>>
        /\ sl = [k \in Slots |-> IF k = 11 THEN NoBmp ELSE NoImg]

Is(k) == sl[k].w > 0
Have(K) == {k \in K : Is(k)}
Z(S) == [k \in 1 .. 13 |-> IF k \in Slots THEN S[k] ELSE NoImg]
\* perform e, of which L(effect, slots after) is asserted
Do(e, L(_, _)) ==
  LET f == TLCEval(Eff(e, Z(sl), Z(sl), FALSE))
      T == TLCEval([k \in Slots |-> IF k = e.d /\ f.d # NoImg THEN f.d ELSE IF k = e.s THEN f.s ELSE sl[k]])
      h == Append(hist, [op |-> e.op, a |-> e.a, s |-> e.s, d |-> e.d])
  IN  /\ Assert(L(f, T) /\ \A k \in Slots : T[k].w > 0 => WellFormed(T[k]), <<"LEMMA", e, sl>>)
      /\ (Gen /\ Len(h) = Depth => PrintT(<<"STEP", ToJson([path |-> h])>>))
      /\ sl' = T /\ hist' = h
Fine(f, T) == TRUE
OthersSame(T, K) == \A k \in Slots \ K : T[k] = sl[k]

Fresh1(d, w, h, b) == Do(Ev("newBMP", <<w, h, b>>, d, d), LAMBDA f, T : OthersSame(T, {d}) /\ T[d] = Blank(w, h, b))
Plot(k, x, y, c) == Do(Ev("plotxybit", <<x, y, c>>, k, 0), LAMBDA f, T : OthersSame(T, {k}) /\ At(T[k], x, y) = NormC(sl[k].b, c))
Get(k) == Do(Ev("getxybit", <<0, 0>>, k, 0), LAMBDA f, T : T = sl)
Copy(s, d) == s # d /\ Do(Ev("copy", <<>>, s, d), LAMBDA f, T : T[d] = sl[s] /\ OthersSame(T, {d}))
Shades(k, i) == sl[k].b < 24 /\ Do(Ev("setRGBpal", <<i, 1, 2, 3>>, k, 0), LAMBDA f, T : OthersSame(T, {k}))
Save(s, d) == Do(Ev("saveBMP", <<>>, s, d), LAMBDA f, T : T[d] = sl[s] /\ OthersSame(T, {d}))
Load(s, d) == Do(Ev("loadBMP", <<>>, s, d), LAMBDA f, T : IF sl[s].w > 0 THEN T[d] = sl[s] /\ OthersSame(T, {d}) ELSE T = sl /\ f.msg # {})

C01 ==
  \/ \E d \in Mem : Fresh1(d, 3, 2, 4) \/ Fresh1(d, 2, 2, 24) \/ Fresh1(d, 9, 1, 1) \/ Fresh1(d, 1, 3, 8)
  \/ \E s \in Have(Mem), d \in Mem :
       \/ \E b \in {1, 24} : Do(Ev("CopyBMPxydim2newBMP", <<b>>, s, d), LAMBDA f, T : T[d] = Blank(sl[s].w, sl[s].h, b) /\ OthersSame(T, {d}))
       \/ Do(Ev("copyBMPhdr", <<>>, s, d), LAMBDA f, T : T[d].pal = sl[s].pal /\ T[d].w = sl[s].w /\ OthersSame(T, {d}))
       \/ Copy(s, d)
  \/ \E k \in Have(Mem) : Plot(k, 0, 0, 1) \/ Shades(k, 1) \/ (Len(hist) = Depth - 1 /\
       (\/ Get(k) \/ Do(Ev("getBMPimgbytes", <<>>, k, 0), Fine)
        \/ (sl[k].b < 24 /\ (Do(Ev("isdefaultpal", <<>>, k, 0), Fine) \/ Do(Ev("getallRGBpal", <<>>, k, 0), Fine)))))
C02 ==
  \/ hist = <<>> /\ (Fresh1(1, 3, 2, 4) \/ Fresh1(1, 2, 2, 24) \/ Fresh1(1, 9, 1, 1) \/ Fresh1(1, 1, 3, 8))
  \/ hist # <<>> /\
     (\/ \E k \in Have(Mem) : Plot(k, 0, 0, 5)
      \/ \E k \in Have({1}) : Shades(k, 1)
      \/ \E s \in Have(Mem), d \in {9, 10} : Save(s, d)
      \/ \E s \in {9, 10}, d \in Mem : Load(s, d)
      \/ \E s \in {11, 12} : Load(s, 2)
      \/ (Fresh1(2, 2, 1, 8))
      \/ \E k \in Have(Mem) : Len(hist) = Depth - 1 /\ Get(k))
\* operations from file to file, the same file included
FileSteps ==
  {<<"flipvertical2file", <<>>>>, <<"mirrorleft2file", <<>>>>, <<"rectangle2file", <<0, 0, 1, 1, 1>>>>, <<"invertbits2file", <<>>>>,
   <<"resizeNtimesbigger2file", <<2>>>>, <<"upgradeto24bitimage2file", <<>>>>, <<"flipXY2file", <<>>>>,
   <<"adjustbrightness2file", <<<<25, 1>>>>>>, <<"mirrortopinregion2file", <<0, 0, 1, 1>>>>, <<"mirrortopinregion2file", <<0, 0, 9, 9>>>>}
C19 ==
  \/ hist = <<>> /\ (Fresh1(1, 3, 2, 4) \/ Fresh1(1, 3, 2, 24) \/ Fresh1(1, 9, 2, 1) \/ Fresh1(1, 2, 3, 8))
  \/ Len(hist) = 1 /\ Plot(1, 1, 0, 9)
  \/ Len(hist) = 2 /\ Save(1, 9)
  \/ Len(hist) > 2 /\
     (\/ \E q \in FileSteps : \E s \in {9, 10, 12}, d \in {9, 10} : (Is(s) \/ (s = 12 /\ d = 10)) /\
           Do(Ev(q[1], q[2], s, d), LAMBDA f, T : OthersSame(T, {d}) /\ (Is(s) \/ f.msg = {M_nofile}))
      \/ Load(10, 2))

Next == Len(hist) < Depth /\ CASE What = "C01" -> C01 [] What = "C02" -> C02 [] What = "C19" -> C19
Spec == Init /\ [][Next]_<<sl, hist>>
Good == \A k \in Slots : sl[k].w <= 0 \/ WellFormed(sl[k])
=============================================================================
