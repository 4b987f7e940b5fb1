---------------------------- MODULE MCIterators ----------------------------
(* All histories of a few iterators over a few rows, and the random access *)
(* laws, for all iterators and distances that are in reach.                *)
EXTENDS Iterators, SequencesExt
CONSTANTS Kinds, Rows, MaxIts, MaxCalls, MaxMove, Name
VARIABLES hist, calls
mcvars == <<iVars, hist, calls>>
Flat2 == <<<<0, 1>>, <<1, 1>>>>
Jag3 == <<<<0, 2>>, <<2, 0>>, <<2, 1>>>>
St(x) == ToString(x)
MCInit == /\ rows = Rows /\ vals = [i \in DOMAIN Rows |-> IF Rows[i][2] = 0 THEN Unspec ELSE i]
          /\ its = <<>> /\ hist = <<>> /\ calls = 0
Say(f, x) == hist' = Append(hist, FoldLeft(LAMBDA a, b : a \o " " \o St(b), f, x))
Is == DOMAIN its
Room == Len(its) < MaxIts
Moves == (0 - MaxMove)..MaxMove
DoMake == \E k \in Kinds : \E w \in 0..1 : Room /\ Make([k |-> k, x |-> <<w>>]) /\ Say("make " \o k, <<w>>)
DoDef == \E k \in Kinds : Room /\ Default([k |-> k]) /\ Say("def " \o k, <<>>)
DoStep == \E h \in Is : \E post \in 0..1 : \E n \in {1, -1} :
            /\ its[h].p # -1 /\ (IF post = 1 THEN Room ELSE TRUE)
            /\ Step([h |-> h, x |-> <<post>>, same |-> 1], n) /\ Say(IF n = 1 THEN "inc" ELSE "dec", <<h, post>>)
DoAdv == \E h \in Is : \E n \in Moves : its[h].p # -1 /\ Advance([h |-> h, x |-> <<n>>, same |-> 1]) /\ Say("adv", <<h, n>>)
DoPlus == \E h \in Is : \E n \in Moves : Room /\ its[h].p # -1 /\ Plus([h |-> h, x |-> <<n>>]) /\ Say("plus", <<h, n>>)
DoNew == \E h \in Is : /\ Room
                       /\ \/ Copy([h |-> h]) /\ Say("copy", <<h>>)
                          \/ Convert([h |-> h]) /\ Say("conv", <<h>>)
                          \/ Wrap([h |-> h]) /\ Say("wrap", <<h>>)
                          \/ Base([h |-> h]) /\ Say("base", <<h>>)
DoAssign == \E h, o \in Is : Assign([h |-> h, o |-> o]) /\ Say("asg", <<h, o>>)
DoGet == \E h \in Is : \E n \in Moves : \E t \in {Target(its[h], n) + 1} :
           /\ Reaches(its[h], n)
           /\ Get([h |-> h, x |-> <<n>>, got |-> rows[t], v |-> vals[t]]) /\ Say("get", <<h, n>>)
DoPut == \E h \in Is : \E n \in Moves : Reaches(its[h], n) /\ Put([h |-> h, x |-> <<n, 10 * calls>>]) /\ Say("put", <<h, n, 10 * calls>>)
DoEq == \E h, o \in Is : \E r \in 0..1 : /\ its[h].k = its[o].k \/ {its[h].k, its[o].k} = {"F", "G"}
                                         /\ Equal([h |-> h, o |-> o, r |-> r, q |-> 1 - r]) /\ Say("eq", <<h, o>>)
Path(a, b) == [i \in 1..((b.p - a.p) * Dir(a.k)) |-> rows[Target(a, i - 1) + 1][1]]
DoWalk == \E h, o \in Is : /\ its[h].k = its[o].k /\ its[h].p # -1 /\ its[o].p # -1 /\ (its[o].p - its[h].p) * Dir(its[h].k) >= 0
                           /\ Walk([h |-> h, o |-> o, got |-> Path(its[h], its[o])]) /\ Say("walk", <<h, o>>)
MCNext == /\ calls < MaxCalls /\ calls' = calls + 1
          /\ DoMake \/ DoDef \/ DoStep \/ DoAdv \/ DoPlus \/ DoNew \/ DoAssign \/ DoGet \/ DoPut \/ DoEq \/ DoWalk
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<vals, its, calls, IF hist = <<>> THEN "" ELSE hist[Len(hist)]>>
Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Emit == PrintT("@@ " \o Name \o Join(hist'))
(* The random access laws. *)
Laws == \A i \in Is : its[i].p # -1 =>
          /\ Moved(Moved(its[i], 1), -1) = its[i]
          /\ \A m, n \in Moves : /\ Moved(Moved(its[i], m), n) = Moved(its[i], m + n)
                                 /\ Target(Moved(its[i], m), n) = Target(its[i], m + n)
          /\ (Dir(its[i].k) = -1 => \A n \in Moves : Target(its[i], n) = Target([its[i] EXCEPT !.k = "p"], 0 - n - 1))
Distinct == \A i, j \in Is : its[i].k = its[j].k /\ its[i].p # -1 /\ its[j].p # -1 =>
              ((its[i].p = its[j].p) <=> (\A n \in Moves : Target(its[i], n) = Target(its[j], n)))
=============================================================================
