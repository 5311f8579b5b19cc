------------------------------ MODULE EnvImpl ------------------------------
(* The lower envelope construction of vl_image_distance_transform over exact
   rationals: every short signal over small values and +infinity, every
   coefficient (zero included) and offset (in halves).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, Vals, Coeffs
Offs == {-3, 0, 1, 4}
INF == 1000000
VARIABLES f, c, o2, x, env, phase      \* o2: twice the offset; env: <<which, from>> as a stack
vars == <<f, c, o2, x, env, phase>>
N == Len(f)
\* abscissae are rationals <<n, d>>, d > 0, or the infinities
NegInf == <<-1, 0>>  PosInf == <<1, 0>>
Le(a, b) == IF a[2] = 0 \/ b[2] = 0
            THEN (a = NegInf \/ b = PosInf \/ a = b)
            ELSE a[1] * b[2] <= b[1] * a[2]
Init == /\ f \in UNION {[1..m -> Vals \cup {INF}] : m \in 1..MaxN} /\ c \in Coeffs /\ o2 \in Offs
        /\ x = 0 /\ env = << >> /\ phase = "build"
V(i) == f[i + 1]
\* where parabola i starts to be below parabola j < i
Inters(i, j) == IF V(i) = V(j) THEN <<i + j + o2, 2>>
                ELSE IF V(i) = INF THEN PosInf ELSE IF V(j) = INF THEN NegInf
                ELSE IF c > 0 THEN <<(V(i) - V(j)) + c * (i*i - j*j) + o2 * (i - j) * c, 2 * c * (i - j)>>
                ELSE IF V(i) < V(j) THEN NegInf ELSE PosInf
Top == env[Len(env)]
Delete == /\ phase = "build" /\ x < N /\ env # << >> /\ Le(Inters(x, Top[1]), Top[2])
          /\ env' = SubSeq(env, 1, Len(env) - 1) /\ UNCHANGED <<f, c, o2, x, phase>>
Push == /\ phase = "build" /\ x < N /\ (IF env = << >> THEN TRUE ELSE ~Le(Inters(x, Top[1]), Top[2]))
        /\ env' = Append(env, <<x, IF env = << >> THEN NegInf ELSE Inters(x, Top[1])>>)
        /\ x' = x + 1 /\ UNCHANGED <<f, c, o2, phase>>
Fill == phase = "build" /\ x = N /\ phase' = "fill" /\ UNCHANGED <<f, c, o2, x, env>>
Next == Delete \/ Push \/ Fill
Spec == Init /\ [][Next]_vars
\* four times the cost of source i at y, exact
Cost4(i, y) == IF V(i) = INF THEN INF ELSE 4 * V(i) + c * (2 * (y - i) - o2) * (2 * (y - i) - o2)
At(y) == env[CHOOSE m \in DOMAIN env : Le(env[m][2], <<y, 1>>) /\ (m < Len(env) => ~Le(env[m+1][2], <<y, 1>>))
              /\ \A m2 \in DOMAIN env : m2 < m /\ m2 < Len(env) => Le(env[m2+1][2], <<y, 1>>)][1]
Inv == /\ \A a, b \in DOMAIN env : a < b => env[a][1] < env[b][1] /\ (a > 1 => Le(env[a][2], env[b][2]))
       /\ phase = "fill" => \A y \in 0..(N-1) : \A i \in 0..(N-1) : Cost4(At(y), y) <= Cost4(i, y)
=============================================================================
