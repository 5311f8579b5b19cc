-------------------------------- MODULE Same --------------------------------
(* Results are functions of the arguments, the settings and the seed alone
   (property G09): neither what the memory handed to the library contained,
   nor what the object was used for before, nor what the caller's output
   buffers contained can be seen in them.  The processor extensions may change
   the last bits of floating point results, but not the discrete ones.

   full    task and processor -> digest of everything returned
   exact   task -> digest of what is computed in integers or exactly  *)
EXTENDS Integers
VARIABLES full, exact
svars == <<full, exact>>
SInit == full = <<>> /\ exact = <<>>
Run(task, simd, all, ints) ==
  LET k == <<task, simd>> IN
  /\ k \in DOMAIN full => full[k] = all
  /\ task \in DOMAIN exact => exact[task] = ints
  /\ full' = [x \in DOMAIN full \union {k} |-> IF x = k THEN all ELSE full[x]]
  /\ exact' = [x \in DOMAIN exact \union {task} |-> IF x = task THEN ints ELSE exact[x]]
=============================================================================
