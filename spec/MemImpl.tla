------------------------------ MODULE MemImpl ------------------------------
(* How objects manage their blocks: a constructor that obtains its parts in
   order and unwinds when a request is refused, a build that replaces parts,
   a buffer that grows in place, a copy that obtains its own parts, children
   that the parent deletes with itself.  Refines Mem.
   (vl_scalespace_new_with_geometry, vl_svm_new, vl_kdforest_build,
   _vl_resize_buffer, vl_kmeans_new_copy, vl_kdforest_new_searcher) *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Max,            \* blocks that exist
          Parts,          \* parts of an object
          Objects,        \* names of objects
          Refusals        \* requests that may be refused
Names == 1 .. Max
VARIABLES held, raw, lost, may, part, kids, pc, self, from, said
vars == <<held, raw, lost, may, part, kids, pc, self, from, said>>
M == INSTANCE Mem WITH Scratch <- {}
\* part[o]: sequence of blocks of o (<<>>: not there); kids[o]: children of o
Init == /\ M!MInit /\ part = [o \in Objects |-> <<>>] /\ kids = [o \in Objects |-> {}]
        /\ pc = "idle" /\ self = "none" /\ from = "none" /\ said = TRUE
Fresh == CHOOSE n \in Names : n \notin held /\ \A m \in 1 .. n - 1 : m \in held
Room == Cardinality(held) < Max
Owned == UNION {{part[o][i] : i \in DOMAIN part[o]} : o \in Objects} \union UNION {kids[o] : o \in Objects}

New(o) == pc = "idle" /\ part[o] = <<>> /\ pc' = "make" /\ self' = o /\ said' = TRUE /\ UNCHANGED <<held, raw, lost, may, part, kids, from>>
NewCopy(o, p) == pc = "idle" /\ part[o] = <<>> /\ part[p] # <<>> /\ pc' = "make" /\ self' = o /\ from' = p /\ said' = TRUE /\ UNCHANGED <<held, raw, lost, may, part, kids>>
Make == pc = "make" /\ Len(part[self]) < Parts /\ Room /\ M!Obtain(Fresh) /\ part' = [part EXCEPT ![self] = Append(@, Fresh)]
        /\ pc' = (IF Len(part[self]) + 1 = Parts THEN "idle" ELSE "make") /\ UNCHANGED <<kids, self, from, said>>
Fail == pc = "make" /\ lost < Refusals /\ M!Refuse /\ pc' = "unwind" /\ said' = FALSE /\ UNCHANGED <<part, kids, self, from>>
Unwind == pc = "unwind" /\ IF part[self] = <<>> THEN pc' = "idle" /\ UNCHANGED <<held, raw, lost, may, part, kids, self, from, said>>
          ELSE M!Return(part[self][Len(part[self])]) /\ part' = [part EXCEPT ![self] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<pc, kids, self, from, said>>
\* growing a buffer: refused, the old one stays
Grow(o) == pc = "idle" /\ Len(part[o]) = Parts /\ Room /\ LET b == part[o][Parts] IN
           /\ M!Move(b, Fresh) /\ part' = [part EXCEPT ![o][Parts] = Fresh] /\ said' = TRUE /\ UNCHANGED <<kids, pc, self, from>>
GrowFails(o) == pc = "idle" /\ Len(part[o]) = Parts /\ lost < Refusals /\ M!Refuse /\ said' = FALSE /\ UNCHANGED <<part, kids, pc, self, from>>
AddChild(o) == pc = "idle" /\ Len(part[o]) = Parts /\ Cardinality(kids[o]) < 2 /\ Room /\ M!Obtain(Fresh) /\ kids' = [kids EXCEPT ![o] = @ \union {Fresh}] /\ UNCHANGED <<part, pc, self, from, said>>
DropChild(o, k) == pc = "idle" /\ k \in kids[o] /\ M!Return(k) /\ kids' = [kids EXCEPT ![o] = @ \ {k}] /\ UNCHANGED <<part, pc, self, from, said>>
\* building again first releases what the previous build left, children too
Rebuild(o) == pc = "idle" /\ Len(part[o]) = Parts /\ pc' = "clear" /\ self' = o /\ said' = TRUE /\ UNCHANGED <<held, raw, lost, may, part, kids, from>>
Clear == pc = "clear" /\ IF kids[self] # {} THEN LET k == CHOOSE k \in kids[self] : TRUE IN M!Return(k) /\ kids' = [kids EXCEPT ![self] = @ \ {k}] /\ UNCHANGED <<part, pc, self, from, said>>
         ELSE IF Len(part[self]) > 1 THEN M!Return(part[self][Len(part[self])]) /\ part' = [part EXCEPT ![self] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<kids, pc, self, from, said>>
         ELSE pc' = "make" /\ UNCHANGED <<held, raw, lost, may, part, kids, self, from, said>>
Delete(o) == pc = "idle" /\ part[o] # <<>> /\ IF kids[o] # {} THEN LET k == CHOOSE k \in kids[o] : TRUE IN M!Return(k) /\ kids' = [kids EXCEPT ![o] = @ \ {k}] /\ UNCHANGED <<part, pc, self, from, said>>
             ELSE M!Return(part[o][Len(part[o])]) /\ part' = [part EXCEPT ![o] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<kids, pc, self, from, said>>
Next == \/ \E o \in Objects : New(o) \/ Grow(o) \/ GrowFails(o) \/ AddChild(o) \/ Rebuild(o) \/ Delete(o)
        \/ \E o, p \in Objects : NewCopy(o, p)
        \/ \E o \in Objects, k \in Names : DropChild(o, k)
        \/ Make \/ Fail \/ Unwind \/ Clear
Spec == Init /\ [][Next]_vars
\* everything held belongs to somebody, and to one only
NothingLost == held = Owned
OneOwner == \A o, p \in Objects : \A i \in DOMAIN part[o], j \in DOMAIN part[p] : part[o][i] = part[p][j] => o = p /\ i = j
\* with the last object gone the episode can end
CanEnd == (pc = "idle" /\ \A o \in Objects : part[o] = <<>> /\ kids[o] = {}) => held = {}
Refines == [][M!Begin("x") \/ M!Refuse \/ M!Nothing \/ \E p \in Names : M!Obtain(p) \/ M!Return(p) \/ \E q \in Names : M!Move(p, q)]_M!mvars
=============================================================================
