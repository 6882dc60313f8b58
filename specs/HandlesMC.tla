------------------------------- MODULE HandlesMC -------------------------------
(* Shared handles as they are implemented: a pointer to an object with an       *)
(* atomic count. Several threads copy, assign and destroy handles at once, one   *)
(* atomic step at a time:                                                       *)
(*   copy    load the pointer; count + 1                                        *)
(*   destroy count - 1; the one who sees 1 frees the object                     *)
(*   assign  copy into a temporary, swap, destroy the temporary                 *)
(*   move    take the pointer, leave null                                       *)
(* A thread has slots of its own and reads a common one that nobody changes     *)
(* until all threads have finished. Checked: a live object is pointed to and     *)
(* counted; nobody touches a dead one; whoever owns, owns a live one; what the   *)
(* slots have is what the abstract handles (Handles.tla) have.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Threads, NSlots, MaxOps, MaxObj
VARIABLES ptr,      \* thread -> slots -> 0 or object
          abs,      \* the same by the abstract rules
          common,   \* pointer in the common slot
          count, alive, freed, nobj,
          pc,       \* thread -> what it is about to do
          ops
vars == <<ptr, abs, common, count, alive, freed, nobj, pc, ops>>
Idle == [a |-> "idle"]
Objs == 1..MaxObj
Init == /\ ptr = [t \in Threads |-> [i \in 1..NSlots |-> 0]] /\ abs = ptr
        /\ common = 1 /\ nobj = 1
        /\ count = [o \in Objs |-> IF o = 1 THEN 1 ELSE 0]
        /\ alive = [o \in Objs |-> o = 1]
        /\ freed = [o \in Objs |-> 0]
        /\ pc = [t \in Threads |-> Idle] /\ ops = [t \in Threads |-> 0]
Start(t, x) == pc[t] = Idle /\ ops[t] < MaxOps /\ pc' = [pc EXCEPT ![t] = x] /\ ops' = [ops EXCEPT ![t] = @ + 1]
To(t, x) == pc' = [pc EXCEPT ![t] = x] /\ UNCHANGED ops
(* destroy the handle that points to o, then go on with k *)
Release(o, k) == IF o = 0 THEN k ELSE [a |-> "sub", o |-> o, k |-> k]
Create(t, i) == /\ ptr[t][i] = 0 /\ nobj < MaxObj /\ Start(t, Idle)
                /\ nobj' = nobj + 1 /\ ptr' = [ptr EXCEPT ![t][i] = nobj + 1] /\ abs' = [abs EXCEPT ![t][i] = nobj + 1]
                /\ count' = [count EXCEPT ![nobj + 1] = 1] /\ alive' = [alive EXCEPT ![nobj + 1] = TRUE]
                /\ UNCHANGED <<common, freed>>
Source(t, j) == IF j = 0 THEN common ELSE ptr[t][j]
AbsSource(t, j) == IF j = 0 THEN 1 ELSE abs[t][j]
(* slot i := copy of slot j (0: the common one); i may have a handle            *)
CopyTo(t, i, j) == /\ Start(t, [a |-> "add", o |-> Source(t, j), i |-> i])
                   /\ abs' = [abs EXCEPT ![t][i] = AbsSource(t, j)]
                   /\ UNCHANGED <<ptr, common, count, alive, freed, nobj>>
Add(t) == /\ pc[t].a = "add"
          /\ LET o == pc[t].o IN
             /\ count' = IF o = 0 THEN count ELSE [count EXCEPT ![o] = @ + 1]
             /\ To(t, [a |-> "swap", o |-> o, i |-> pc[t].i])
          /\ UNCHANGED <<ptr, abs, common, alive, freed, nobj>>
Swap(t) == /\ pc[t].a = "swap"
           /\ LET old == ptr[t][pc[t].i] IN
              ptr' = [ptr EXCEPT ![t][pc[t].i] = pc[t].o] /\ To(t, Release(old, Idle))
           /\ UNCHANGED <<abs, common, count, alive, freed, nobj>>
(* slot i := moved slot j; also i = j                                           *)
MoveTo(t, i, j) == /\ LET o == ptr[t][j] old == IF i = j THEN 0 ELSE ptr[t][i] IN
                      /\ ptr' = [ptr EXCEPT ![t] = [x \in 1..NSlots |-> IF x = i THEN o ELSE IF x = j THEN 0 ELSE @[x]]]
                      /\ Start(t, Release(old, Idle))
                   /\ abs' = IF i = j THEN abs ELSE [abs EXCEPT ![t][i] = abs[t][j], ![t][j] = 0]
                   /\ UNCHANGED <<common, count, alive, freed, nobj>>
Drop(t, i) == /\ ptr[t][i] # 0 /\ Start(t, Release(ptr[t][i], Idle))
              /\ ptr' = [ptr EXCEPT ![t][i] = 0] /\ abs' = [abs EXCEPT ![t][i] = 0]
              /\ UNCHANGED <<common, count, alive, freed, nobj>>
Sub(t) == /\ pc[t].a = "sub"
          /\ LET o == pc[t].o IN
             /\ count' = [count EXCEPT ![o] = @ - 1]
             /\ To(t, IF count[o] = 1 THEN [a |-> "free", o |-> o, k |-> pc[t].k] ELSE pc[t].k)
          /\ UNCHANGED <<ptr, abs, common, alive, freed, nobj>>
Free(t) == /\ pc[t].a = "free"
           /\ alive' = [alive EXCEPT ![pc[t].o] = FALSE] /\ freed' = [freed EXCEPT ![pc[t].o] = @ + 1]
           /\ To(t, pc[t].k)
           /\ UNCHANGED <<ptr, abs, common, count, nobj>>
(* the common handle goes away when the threads have done their work            *)
DropCommon == /\ common # 0 /\ \A t \in Threads : pc[t] = Idle /\ ops[t] = MaxOps
              /\ LET t == CHOOSE t \in Threads : TRUE IN To(t, Release(common, Idle))
              /\ common' = 0
              /\ UNCHANGED <<ptr, abs, count, alive, freed, nobj>>
Next == \/ \E t \in Threads : Add(t) \/ Swap(t) \/ Sub(t) \/ Free(t)
        \/ \E t \in Threads, i \in 1..NSlots : Create(t, i) \/ Drop(t, i)
        \/ \E t \in Threads, i \in 1..NSlots, j \in 0..NSlots : CopyTo(t, i, j)
        \/ \E t \in Threads, i, j \in 1..NSlots : MoveTo(t, i, j)
        \/ DropCommon
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
(* owners of o: slots, and threads between taking a share and storing it or     *)
(* between giving up a pointer and counting down                                *)
Owners(o) == Cardinality({<<t, i>> \in Threads \X (1..NSlots) : ptr[t][i] = o})
             + Cardinality({t \in Threads : pc[t].a \in {"swap", "sub"} /\ pc[t].o = o})
             + (IF common = o THEN 1 ELSE 0)
Counted == \A o \in 1..nobj : count[o] = Owners(o)
(* something touches it: a count, or a use through any slot                     *)
NeverDead == /\ \A t \in Threads : pc[t].a \in {"add", "sub", "swap", "free"} => (pc[t].o # 0 => alive[pc[t].o])
             /\ \A t \in Threads, i \in 1..NSlots : ptr[t][i] # 0 => alive[ptr[t][i]]
FreedOnce == \A o \in 1..nobj : freed[o] <= 1 /\ (alive[o] <=> freed[o] = 0)
GoneWhenUnowned == (\A t \in Threads : pc[t] = Idle) => \A o \in 1..nobj : alive[o] <=> Owners(o) > 0
Abstract == \A t \in Threads : pc[t] = Idle \/ pc[t].a \in {"sub", "free"} => ptr[t] = abs[t]
===============================================================================
