------------------------------ MODULE MCAtomic ------------------------------
(* All interleavings of all small programs on one object of one byte.      *)
EXTENDS Atomic, SequencesExt
CONSTANTS Threads, Programs
VARIABLES prog, first, wins, start
mcvars == <<atVars, prog, first, wins, start>>
St(x) == ToString(x)
O(op, x, y) == [op |-> op, x |-> x, y |-> y]
Line(t, o) == ";t " \o St(t - 1) \o " " \o o.op \o " 1 " \o St(o.x) \o " " \o St(o.y)
Text(s, p) == FoldLeft(LAMBDA a, t : FoldLeft(LAMBDA b, o : b \o Line(t, o), a, p[t]), St(s), [t \in 1..Threads |-> t])
Small == {O("load", 0, 0), O("store", 77, 0), O("exch", 5, 0), O("cas", 3, 9), O("cas", 9, 3), O("add", 250, 0), O("sub", 10, 0), O("and", 12, 0), O("or", 80, 0), O("xor", 255, 0)}
Single == {<<o>> : o \in Small}
Pairs == {<<a, b>> : a, b \in Small}
Counting == {<<O("add", 1, 0)>>, <<O("add", 1, 0), O("sub", 1, 0)>>, <<O("cas", 3, 9)>>, <<O("cas", 3, 9), O("cas", 9, 3)>>, <<O("exch", 3, 0), O("add", 1, 0)>>}
MCInit == /\ prog \in [1..Threads -> Programs] /\ first = prog
          /\ start \in {3} /\ obj = <<<<start>>>> /\ pend = <<>> /\ isatomic = 0 /\ wins = 0
          /\ PrintT("@@ " \o Text(start, prog))
Begin(t) == /\ t \notin DOMAIN pend /\ prog[t] # <<>>
            /\ Call([t |-> t, op |-> Head(prog[t]).op, i |-> 1, x |-> <<Head(prog[t]).x>>, y |-> <<Head(prog[t]).y>>, o |-> 5, f |-> 5])
            /\ UNCHANGED <<prog, first, wins, start>>
Act(t) == /\ Effect(t)
          /\ wins' = wins + (IF pend[t].op = "cas" /\ pend[t].x = <<3>> /\ obj[1] = <<3>> THEN 1 ELSE 0)
          /\ UNCHANGED <<prog, first, start>>
End(t) == /\ t \in DOMAIN pend /\ pend[t].done
          /\ Return([t |-> t, r |-> pend[t].r, ok |-> pend[t].ok, acc |-> <<>>])
          /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<first, wins, start>>
MCNext == \E t \in 1..Threads : Begin(t) \/ Act(t) \/ End(t)
MCSpec == MCInit /\ [][MCNext]_mcvars
(* Programs of additions and subtractions of one only: nothing is lost. *)
Counts(o) == IF o.op = "add" THEN o.x ELSE -o.x
Adding(p) == \A t \in 1..Threads : \A j \in DOMAIN p[t] : p[t][j].op \in {"add", "sub"}
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Counts(Head(s)) + Total(Tail(s))
RECURSIVE Over(_)
Over(t) == IF t = 0 THEN 0 ELSE Total(first[t]) + Over(t - 1)
Done == pend = <<>> /\ \A t \in 1..Threads : prog[t] = <<>>
NothingLost == Done /\ Adding(first) => obj[1][1] = (start + Over(Threads) + 25600) % 256
(* If all that is done is to compare-exchange 3 with 9, exactly one wins. *)
OnlyCas == \A t \in 1..Threads : \A j \in DOMAIN first[t] : first[t][j] = O("cas", 3, 9)
OneWinner == Done /\ OnlyCas => wins = 1 /\ obj[1] = <<9>>
(* A compare-exchange succeeds exactly if it saw what it expected. *)
Sound == \A t \in DOMAIN pend : pend[t].done /\ pend[t].op = "cas" => ((pend[t].ok = 1) = (pend[t].r = pend[t].x))
OneByte == obj[1][1] \in 0..255
=============================================================================
