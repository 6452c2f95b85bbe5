------------------------------- MODULE OpsLaunch -------------------------------
(***************************************************************************)
(* The launcher that opens a picture, and the search path that finds it.   *)
(* Names are sequences of character codes, paths sequences of names below  *)
(* the directory the launcher is started in.                               *)
(***************************************************************************)
EXTENDS OpsChart

LaunchOps == {"launch", "ensurePath"}

RECURSIVE Glob(_, _)
\* does the pattern p (* any characters, ? one) match the name n
Glob(p, n) ==
  IF p = <<>> THEN n = <<>>
  ELSE IF Head(p) = 42 THEN Glob(Tail(p), n) \/ (n # <<>> /\ Glob(p, Tail(n)))
  ELSE n # <<>> /\ (Head(p) = 63 \/ Head(p) = Head(n)) /\ Glob(Tail(p), Tail(n))

AnyBmp == <<<<42, 46, 98, 109, 112>>>>
\* the directories a file lies in
Above(T) == {SubSeq(T[i][1], 1, k) : <<i, k>> \in {<<i, k>> \in (1 .. Len(T)) \X (1 .. 9) : k < Len(T[i][1])}}
Exists(T, q) == q = <<>> \/ q \in Above(T) \/ \E i \in 1 .. Len(T) : T[i][1] = q
\* the entries any directory of which the pattern leads to
Found(T, p) ==
  {i \in 1 .. Len(T) :
     LET q == T[i][1] n == Len(q) - Len(p) IN n >= 0 /\ \A j \in 1 .. Len(p) : Glob(p[j], q[n + j])}
Latest(T, I) == CHOOSE i \in I : \A j \in I : T[i][2] >= T[j][2]
\* T: <<path, time of change, path the link leads to>>, p: what is asked for; <<>> where nothing is found
Chosen(T, given, p) ==
  IF given = 1 /\ Exists(T, p)
  THEN IF \E i \in 1 .. Len(T) : T[i][1] = p /\ T[i][3] # <<>> THEN <<T[CHOOSE i \in 1 .. Len(T) : T[i][1] = p][3]>> ELSE <<p>>
  ELSE LET I == Found(T, IF given = 1 THEN p ELSE AnyBmp) IN IF I = {} THEN <<>> ELSE <<T[Latest(T, I)][1]>>

LaunchEff(e, im) ==
  LET a == e.a IN
  CASE e.op = "launch" ->
         LET c == Chosen(a[1], a[2], a[3])
         IN  Ret(im, RSeq(IF c = <<>> THEN <<1, <<>>, 0>>
                          ELSE <<0, IF a[4] = 1 THEN <<<<2, c[1]>>, <<3, c[1]>>>> ELSE <<<<1, c[1]>>>>, 1>>))
    [] e.op = "ensurePath" ->
         \* 0 the directory of the launcher, 99 the empty entry; a[2] bitmaps are saved
         Ret(im, RSeq(<<IF \E i \in 1 .. Len(a[1]) : a[1][i] = 0 THEN a[1]
                        ELSE <<0>> \o (IF a[1] = <<>> THEN <<99>> ELSE a[1]), 1>>))
=============================================================================
