-------------------------------- MODULE Mser --------------------------------
(* Extremal regions of an image on a grid of any dimension, their tree, the
   stability score and the selection of maximally stable regions.
   img is the sequence of pixel values, dims the extents; pixel k (0-based)
   has subscripts k mod d1, (k div d1) mod d2, ...                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Subs(_, _)
Subs(k, dims) == IF dims = <<>> THEN <<>> ELSE <<k % dims[1]>> \o Subs(k \div dims[1], SubSeq(dims, 2, Len(dims)))
Abs(v) == IF v < 0 THEN -v ELSE v
Adjacent(a, b, dims) == LET u == Subs(a, dims) v == Subs(b, dims) IN a # b /\ \A c \in 1..Len(dims) : Abs(u[c] - v[c]) <= 1
RECURSIVE Flood(_, _, _)
Flood(R, S, nb) == LET N == {q \in S \ R : nb[q] \cap R # {}} IN IF N = {} THEN R ELSE Flood(R \cup N, S, nb)
Pixels(img) == 0..(Len(img) - 1)
Val(img, k) == img[k + 1]
Nbrs(img, dims) == [p \in Pixels(img) |-> {q \in Pixels(img) : Adjacent(p, q, dims)}]
\* the extremal region a pixel seeds: its component among pixels not brighter
RegionOf(img, nb, p) == Flood({p}, {q \in Pixels(img) : Val(img, q) <= Val(img, p)}, nb)
Seeded(img, dims) == LET nb == TLCEval(Nbrs(img, dims)) IN [p \in Pixels(img) |-> RegionOf(img, nb, p)]
=============================================================================
