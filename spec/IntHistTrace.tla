---------------------------- MODULE IntHistTrace ----------------------------
EXTENDS TraceKit, IntHist
VARIABLE l
ev == Trace[l]
M == ev.d[1]
N == ev.d[2]
L == ev.d[3]
Lab(i, j, q) == ev.lab[i + M * ((j - 1) + N * (q - 1))]
Wt(i, j, q) == IF ev.mc = "none" THEN 1 ELSE ev.mass[i + M * ((j - 1) + N * (q - 1))]
Class == IF ev.mc = "double" THEN "double" ELSE "uint32"
Wrap(r) == IF Class = "double" THEN r ELSE RSub(r, RMul(RPow(2, 32), RFloor(RDiv(r, RPow(2, 32)))))
BoxSum(k, i1, j1, i2, j2) == Wrap(Mass(M, L, Lab, Wt, k, i1, j1, i2, j2))
Max == LET S == {0} \cup {ev.lab[i] : i \in 1..Len(ev.lab)} IN CHOOSE m \in S : \A x \in S : x <= m
HistOk ==
  LET K == IF ev.nl > 0 THEN ev.nl ELSE Max
  IN IF Max > K THEN ev.refused
     ELSE /\ ~ev.refused /\ ev.rc = Class /\ ev.K = K /\ Len(ev.r) = M * N * K
          /\ \A k \in 1..K, j \in 1..N, i \in 1..M : REq(ev.r[i + M * ((j - 1) + N * (k - 1))], BoxSum(k, 1, 1, i, j))
          /\ \A b \in 1..Len(ev.boxes) :
               LET x == ev.boxes[b].b
                   empty == x[1] > x[3] \/ x[2] > x[4]
                   out == x[1] < 1 \/ x[2] < 1 \/ x[3] > M \/ x[4] > N
               IN IF ~empty /\ out THEN ev.boxes[b].refused
                  ELSE /\ ~ev.boxes[b].refused /\ Len(ev.boxes[b].h) = K /\ ev.boxes[b].c = Class
                       /\ \A k \in 1..K : REq(ev.boxes[b].h[k], IF empty THEN 0 ELSE BoxSum(k, x[1], x[2], x[3], x[4]))
          /\ ev.together                               \* all the valid boxes at once: the same histograms
Ok == CASE ev.e = "Hist" -> HistOk [] ev.e = "BadMass" -> ev.refused [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
