----------------------------- MODULE MCEquality -----------------------------
(* All small families of memory resources. *)
EXTENDS Equality, SequencesExt
CONSTANTS Kinds, MaxObjs
S(k) == ToString(k)
MCInit == EqualityInit
MCNext == Len(objs) < MaxObjs /\ \E k \in Kinds : \E up \in 0..Len(objs) : Make(k, up)
MCSpec == MCInit /\ [][MCNext]_objs
Script == FoldLeft(LAMBDA acc, o : acc \o ";o " \o o.kind \o " " \o S(o.up), "@@ R", objs')
Emit == Len(objs') = MaxObjs => PrintT(Script)
AllKinds == Leaves \cup PassThrough \cup Keepers
FewKinds == {"U", "H", "T", "I", "S"}
=============================================================================
