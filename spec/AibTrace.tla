------------------------------ MODULE AibTrace ------------------------------
EXTENDS TraceKit, Aib
VARIABLE l
ev == Trace[l]
(* Replays a dendrogram over the leaves live0: the k-th merge creates node
   nv+k-1 out of exactly two live nodes, and no other live pair would lose
   less.  par(k) is the parent of node k, counting from 0.                    *)
Dendrogram(h, nv, nl, par(_), Gone(_), costs, live0) ==
  LET m == Cardinality(live0) - 1
      RECURSIVE Step(_, _)      \* k merges done; live: node -> cluster
      Step(k, live) ==
        LET D == DOMAIN live
        IN /\ RWithin(costs[k + 1], Info(h, nv, nl, {live[x] : x \in D}), "1e-10")
           /\ k > 0 => RLe(costs[k + 1], RAdd(costs[k], "1e-10"))
           /\ IF k = m THEN \A x \in D : IF m = 0 THEN Gone(x) \/ par(x) = 0 ELSE par(x) = 0
              ELSE LET new == nv + k
                       kids == {x \in D : par(x) = new}
                   IN /\ Cardinality(kids) = 2
                      /\ LET a == CHOOSE x \in kids : TRUE  b == CHOOSE x \in kids \ {a} : TRUE
                             got == TLCEval(Loss(h, nv, nl, live[a], live[b]))
                             next == [x \in (D \ kids) \cup {new} |-> IF x = new THEN live[a] \cup live[b] ELSE live[x]]
                         IN /\ \A x \in D, y \in D : x < y => RLe(got, RAdd(Loss(h, nv, nl, live[x], live[y]), "1e-10"))
                            /\ Step(k + 1, TLCEval(next))
  IN /\ \A v \in 0..(nv-1) : v \notin live0 => Gone(v)
     /\ \A v \in (nv + m)..(2 * nv - 2) : Gone(v)
     /\ \A k \in (m + 2)..nv : RNan(costs[k])
     /\ Step(0, TLCEval([v \in live0 |-> {v}]))
AibOk ==
  LET nv == ev.nv  par(k) == ev.parents[k + 1]  Gone(k) == par(k) > 2 * nv - 1
  IN /\ Len(ev.parents) = 2 * nv - 1 /\ Len(ev.costs) = nv
     /\ Dendrogram(ev.h, nv, ev.nl, par, Gone, ev.costs, {v \in 0..(nv-1) : Row(ev.h, ev.nl, {v}) > 0})
(* ---- the toolbox: node numbers count from 1, ignored nodes have parent 0,
   the root has parent 1; ClusterNull merges the empty values first ---------- *)
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
CutOk ==
  LET nv == ev.nv  P == 2 * nv - 1  pr == ev.parents
      par(k) == pr[k + 1] - 1  Gone(k) == pr[k + 1] = 0
      full == TLCEval({v \in 1..nv : Row(ev.h, ev.nl, {v - 1}) > 0})
      L == IF ev.cn THEN 1..nv ELSE full
      root == nv + Cardinality(L) - 1
      RECURSIVE Up(_)
      Up(x) == {x} \cup IF x = root THEN {} ELSE Up(pr[x])
      Anc == TLCEval([x \in {x \in 1..root : pr[x] # 0} |-> Up(x)])
      Tree == DOMAIN Anc
      one(c) ==
        LET k == IF c.n < Cardinality(L) THEN c.n ELSE Cardinality(L)
            top == nv + Cardinality(L) - k                 \* newest node made when k clusters are left
            base == {x \in Tree : x <= top /\ (x = root \/ pr[x] > top)}
            extra == {c.cut[i] : i \in 1..Len(c.cut)} \ base
            cutof(x) == IF x \in extra THEN x ELSE IF x \in Tree /\ Anc[x] \cap base # {} THEN CHOOSE z \in Anc[x] \cap base : TRUE ELSE 0
            Map == TLCEval([x \in 1..P |-> IF cutof(x) = 0 THEN 0 ELSE CHOOSE i \in 1..Len(c.cut) : c.cut[i] = cutof(x)])
            ys == [i \in 1..Len(c.x) |-> Map[c.x[i]]]
        IN /\ base \subseteq {c.cut[i] : i \in 1..Len(c.cut)} /\ extra \subseteq (1..nv) \ L
           /\ Len(c.cut) = c.n /\ Cardinality(extra) = c.n - Cardinality(base)
           /\ c.map = [x \in 1..P |-> Map[x]]
           /\ Len(c.short) = P /\ \A x \in 1..P : (cutof(x) # 0 => c.short[x] = cutof(x)) /\ (pr[x] = 0 /\ x \notin extra => c.short[x] = 0)
           /\ c.y = ys
           /\ c.hd = [i \in 1..c.n |-> Count(ys, i)]
           /\ c.ha = IF Count(ys, 0) = 0 THEN c.hd ELSE Append(c.hd, Count(ys, 0))
           /\ c.hf = [i \in 1..c.n |-> Count(ys, i) + IF i = 1 THEN Count(ys, 0) ELSE 0]
  IN /\ ev.cls = "uint32" /\ ev.same /\ Len(pr) = P /\ Len(ev.costs) = nv
     /\ Dendrogram(ev.h, nv, ev.nl, par, Gone, ev.costs, {v - 1 : v \in L})
     /\ Len(ev.cuts) = nv /\ \A i \in 1..nv : ev.cuts[i].n = i /\ one(ev.cuts[i])
     /\ ev.tree = [x \in 1..P |-> Cardinality({i \in 1..Len(ev.data) : x \in Tree /\ x \in Anc[ev.data[i]]})]
     /\ ev.treeh = [x \in 1..P |-> LET f(v) == IF x \in Tree /\ v \in Tree /\ x \in Anc[v] THEN ev.counts[v] ELSE IF x = v THEN ev.counts[v] ELSE 0 IN ISum(f, 1..nv)]
     /\ ev.refused
Ok == CASE ev.e = "Aib" -> AibOk [] ev.e = "Cut" -> CutOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
