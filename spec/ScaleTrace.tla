----------------------------- MODULE ScaleTrace -----------------------------
EXTENDS TraceKit, ScaleSpace
VARIABLE l
ev == Trace[l]
Num(q) == TLCEval([i \in DOMAIN q |-> RAdd(q[i], 0)])
Alike(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RWithin(a[i], b[i], tol)
Some(P(_)) == P(1) \/ P("1.000001") \/ P("0.999999")
Fields == {"w", "h", "o0", "o1", "res", "s0", "s1"}
SameGeom(a, b) == (\A f \in Fields : a[f] = b[f]) /\ REq(a.base, b.base) /\ REq(a.nominal, b.nominal)
SpaceOk ==
  LET G == ev.g  O(o) == ev.oct[o - G.o0 + 1]  L(o, s) == Num(O(o).levels[s - G.s0 + 1])
      im == Num(ev.im)
      big == RMax(1, RDot([i \in DOMAIN im |-> RMax(0, im[i])], [i \in DOMAIN im |-> RDiv(1, Len(im))]))
      tol == RMul("2e-4", big)
  IN /\ SameGeom(ev.got, G) /\ ev.same /\ ev.clean
     /\ Len(ev.oct) = Cardinality(Octaves(G))
     /\ \A o \in Octaves(G) :
          /\ O(o).o = o /\ O(o).w = Width(G, o) /\ O(o).h = Height(G, o) /\ REq(O(o).step, RPow(2, o))
          /\ Len(O(o).levels) = Cardinality(Subs(G))
          /\ \A s \in Subs(G) : RNear(O(o).sigma[s - G.s0 + 1], Sigma(G, o, s), "1e-12") /\ Len(O(o).levels[s - G.s0 + 1]) = Width(G, o) * Height(G, o)
     /\ Some(LAMBDA f : Alike(L(G.o0, G.s0), First(G, im, f), tol))
     /\ \A o \in Octaves(G) : /\ o > G.o0 => Some(LAMBDA f : Alike(L(o, G.s0), Next_(G, L(o - 1, Seed(G)), o, f), tol))
                              /\ Computable(G) => \A s \in (G.s0 + 1)..G.s1 : Some(LAMBDA f : Alike(L(o, s), Up(G, L(o, s - 1), o, s, f), tol))
     (* the redundant levels agree *)
     /\ G.s0 + G.res <= G.s1 => \A o \in (G.o0 + 1)..G.o1 : Alike(L(o, G.s0), Subsampled(L(o - 1, G.s0 + G.res), Width(G, o - 1), Width(G, o), Height(G, o), 2), "1e-9")
EqualOk == ev.eq = SameGeom(ev.a, ev.b)
DefaultOk == /\ SameGeom(ev.g, ev.made) /\ LET d == Default(ev.w, ev.h) IN \A f \in Fields : ev.g[f] = d[f]
             /\ RNear(ev.g.base, RMul("1.6", RPow(2, RDiv(1, 3))), "1e-12") /\ REq(ev.g.nominal, "0.5")
Ok == CASE ev.e = "Space" -> SpaceOk [] ev.e = "Equal" -> EqualOk [] ev.e = "Default" -> DefaultOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
