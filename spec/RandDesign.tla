----------------------------- MODULE RandDesign -----------------------------
(* Anchors the generator specification to the published MT19937 vectors, and
   checks that generators are independent: drawing from one never moves
   another, whatever the interleaving.                                        *)
EXTENDS Twister, TLC
VARIABLES g, n
\* one generator, block after block: the 10000th draw of the default seed
Init == g = [a |-> Fresh, b |-> SeedByArray(<<W32(291), W32(564), W32(837), W32(1110)>>)] /\ n = [a |-> 0, b |-> 0]
Skip(h, k) == [Ready(h) EXCEPT !.i = @ + k]       \* k draws within the block
Next == \E x \in {"a", "b"} :
          /\ n[x] < (IF x = "a" THEN 16 ELSE 2)
          /\ g' = [g EXCEPT ![x] = Skip(g[x], N)]
          /\ n' = [n EXCEPT ![x] = @ + 1]
Spec == Init /\ [][Next]_<<g, n>>
Val(hi, lo) == <<hi, lo>>
\* 3499211612, 4123659995 (10000 = 16*624 + 16), 1067595299
First5489  == n["a"] = 0 => Draw(g["a"])[1] = <<53393, 47964>>
Tenthousandth == n["a"] = 16 => Draw(Skip(g["a"], 15))[1] = <<62922, 3803>>
FirstArray == n["b"] = 0 => Draw(g["b"])[1] = <<16290, 13859>>
Independent == [][\A x \in {"a", "b"} : n'[x] = n[x] => g'[x] = g[x]]_<<g, n>>
=============================================================================
