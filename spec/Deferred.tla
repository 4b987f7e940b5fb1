------------------------------ MODULE Deferred ------------------------------
(***************************************************************************)
(* Operations of the copy object as programs of transfers, which some      *)
(* executor carries out later, one after the other (C29).  A program may   *)
(* copy between places ("x"), wait for everything issued so far ("w"),     *)
(* remember how much has been issued ("e") and wait for that much ("we"),  *)
(* and compute with its own variables ("l"); these do not exist any more   *)
(* when it has returned ("r").  The client waits for the last event.       *)
(* Whatever the executor's pace, the result has to be the one of carrying  *)
(* out every operation at once.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objects, MaxOps, Kinds
VARIABLES mem,       \* place -> value
          queue,     \* transfers that have been issued: <<from, to>>
          done,      \* how many of them have been carried out
          prog, pc, mark, gone,      \* the operation going on, its variables that are gone
          spec,      \* what the memory should be in the end
          n, waited
vars == <<mem, queue, done, prog, pc, mark, gone, spec, n, waited>>
Size(o) == <<o, "size">>
Val(o) == <<o, "val">>
Local(k, i) == <<"local", k, i>>      \* variable i of the k-th operation
Zero == <<"zero", "zero">>
Dead == <<"dead">>
Nought == <<"nought">>
Places == {Size(o) : o \in Objects} \cup {Val(o) : o \in Objects}
X(a, b) == <<"x", a, b>>
W == <<"w">>
Program(kind, k, f, t) ==
  CASE kind = "copy" -> <<X(Size(f), Local(k, 1)), W, <<"l", Local(k, 1), Local(k, 2)>>, X(Local(k, 2), Size(t)), W, X(Val(f), Val(t)), <<"r">>>>
    [] kind = "jagged" -> <<X(Size(f), Local(k, 1)), W, X(Local(k, 1), Size(t)), <<"e">>, X(Val(f), Val(t)), <<"we">>, <<"r">>>>
    [] kind = "tovec" -> <<X(Size(f), Local(k, 1)), W, <<"l", Local(k, 1), Size(t)>>, X(Val(f), Val(t)), <<"r">>>>
    [] kind = "to" -> <<X(Size(f), Local(k, 1)), W, X(Zero, Size(t)), W, X(Size(f), Local(k, 2)), W, X(Local(k, 2), Size(t)), W, X(Val(f), Val(t)), W, <<"r">>>>
    [] kind = "setup" -> <<X(Zero, Size(t)), <<"r">>>>
    [] kind = "getsize" -> <<X(Size(f), Local(k, 1)), W, <<"r">>>>
    (* Programs that are wrong. *)
    [] kind = "nowait" -> <<X(Size(f), Local(k, 1)), W, X(Local(k, 1), Size(t)), X(Val(f), Val(t)), <<"r">>>>
    [] kind = "noread" -> <<X(Size(f), Local(k, 1)), <<"l", Local(k, 1), Local(k, 2)>>, X(Local(k, 2), Size(t)), W, X(Val(f), Val(t)), <<"r">>>>
    [] kind = "overtake" -> <<<<"l", Size(f), Size(t)>>, X(Val(f), Val(t)), <<"r">>>>
Meant(kind, m, f, t) ==
  CASE kind = "setup" -> [m EXCEPT ![Size(t)] = Nought]
    [] kind = "getsize" -> m
    [] OTHER -> [m EXCEPT ![Size(t)] = m[Size(f)], ![Val(t)] = m[Val(f)]]

Init == /\ mem = [p \in Places \cup {Zero} |-> IF p = Zero THEN Nought ELSE p] /\ spec = [p \in Places |-> p]
        /\ queue = <<>> /\ done = 0 /\ prog = <<>> /\ pc = 0 /\ mark = 0 /\ gone = {} /\ n = 0 /\ waited = TRUE
Read(p) == IF p[1] = "local" THEN (IF p \in gone \/ p \notin DOMAIN mem THEN Dead ELSE mem[p]) ELSE mem[p]
Put(p, x) == [q \in DOMAIN mem \cup {p} |-> IF q = p THEN x ELSE mem[q]]
Execute == /\ done < Len(queue)
           /\ mem' = (IF queue[done + 1][2] \in gone THEN mem ELSE Put(queue[done + 1][2], Read(queue[done + 1][1])))
           /\ done' = done + 1 /\ UNCHANGED <<queue, prog, pc, mark, gone, spec, n, waited>>
Begin == \E kind \in Kinds, f, t \in Objects :
           /\ prog = <<>> /\ n < MaxOps /\ f # t
           (* Only waiting makes a host vector safe to resize. *)
           /\ (IF kind \in {"tovec"} THEN waited ELSE TRUE)
           /\ prog' = Program(kind, n + 1, f, t) /\ pc' = 1 /\ n' = n + 1 /\ waited' = FALSE
           /\ spec' = Meant(kind, spec, f, t) /\ mark' = 0
           /\ UNCHANGED <<mem, queue, done, gone>>
Step == /\ prog # <<>>
        /\ LET i == prog[pc] IN
           CASE i[1] = "x" -> queue' = Append(queue, <<i[2], i[3]>>) /\ pc' = pc + 1 /\ UNCHANGED <<mem, prog, mark, gone>>
             [] i[1] = "w" -> done = Len(queue) /\ pc' = pc + 1 /\ UNCHANGED <<mem, queue, prog, mark, gone>>
             [] i[1] = "e" -> mark' = Len(queue) /\ pc' = pc + 1 /\ UNCHANGED <<mem, queue, prog, gone>>
             [] i[1] = "we" -> done >= mark /\ pc' = pc + 1 /\ UNCHANGED <<mem, queue, prog, mark, gone>>
             [] i[1] = "l" -> mem' = Put(i[3], Read(i[2])) /\ pc' = pc + 1 /\ UNCHANGED <<queue, prog, mark, gone>>
             [] i[1] = "r" -> prog' = <<>> /\ pc' = 0 /\ gone' = gone \cup {Local(n, 1), Local(n, 2)} /\ UNCHANGED <<mem, queue, mark>>
        /\ UNCHANGED <<done, spec, n, waited>>
Wait == /\ prog = <<>> /\ ~waited /\ done = Len(queue) /\ waited' = TRUE
        /\ UNCHANGED <<mem, queue, done, prog, pc, mark, gone, spec, n>>
Next == Execute \/ Begin \/ Step \/ Wait
Spec == Init /\ [][Next]_vars /\ WF_vars(Execute) /\ WF_vars(Step) /\ WF_vars(Wait)
(* After waiting, everything is as if it had been done at once. *)
AsIfAtOnce == waited /\ prog = <<>> => \A p \in Places : mem[p] = spec[p]
(* No transfer that is still to come refers to variables that are gone. *)
NoneDangling == \A i \in (done + 1)..Len(queue) : queue[i][1] \notin gone /\ queue[i][2] \notin gone
(* Waiting always comes to an end. *)
Ends == []<>waited \/ <>[](prog = <<>> /\ waited)
=============================================================================
